package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// fieldOf finds the field with a JSON name in a structure.
func fieldOf(T types.Type, json string) int {
	str, ok := derefStruct(T)
	if !ok {
		return -1
	}
	for i := 0; i < str.NumFields(); i++ {
		if jsonName(str, i) == json {
			return i
		}
	}
	return -1
}

func isField(addr *eng.Term, json string) bool {
	if addr.Kind != eng.KFieldAddr {
		return false
	}
	v, ok := addr.Obj.(*types.Var)
	if !ok {
		return false
	}
	str, ok := derefStruct(addr.Args[0].Typ)
	if !ok || addr.N >= str.NumFields() || str.Field(addr.N) != v {
		return false
	}
	return jsonName(str, addr.N) == json
}

// cloneMethods are methods copying a node with a filter.
func (p *Program) cloneMethods() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, T := range p.moduleNamed() {
		if _, ok := T.Underlying().(*types.Struct); !ok {
			continue
		}
		for _, X := range []types.Type{T, types.NewPointer(T)} {
			ms := p.Prog.MethodSets.MethodSet(X)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i)
				sig, ok := m.Type().(*types.Signature)
				if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isFilterT(sig.Params().At(0).Type()) {
					continue
				}
				if _, ok := sig.Results().At(0).Type().Underlying().(*types.Interface); !ok {
					continue
				}
				f := p.Prog.MethodValue(m)
				if f == nil || seen[f] || len(m.Index()) > 1 || f.Synthetic != "" {
					continue
				}
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}

// cloneNode checks methods that copy a node.
func (c *Ctx) cloneNodes() {
	for _, f := range c.P.cloneMethods() {
		str, ok := derefStruct(f.Signature.Recv().Type())
		if !ok {
			continue
		}
		for i := 0; i < str.NumFields(); i++ {
			sl, ok := str.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "Link" {
				c.Count("leaf copies", 1)
				c.cloneLeaf(f, i)
			} else if types.IsInterface(sl.Elem()) {
				c.Count("branch copies", 1)
				c.cloneBranch(f, i)
			}
		}
	}
	c.Need("leaf copies", 1)
	c.Need("branch copies", 1)
}

// resultField is the address of a field of the structure a method returned as interface.
func resultPtr(e *eng.Engine, st *eng.State, v *eng.Term) *eng.Term {
	for v.Kind == eng.KIface || v.Kind == eng.KConv {
		v = v.Args[0]
	}
	return v
}

// cloneLeaf proves that the copy has exactly links accepted by the filter.
func (c *Ctx) cloneLeaf(f *ssa.Function, field int) {
	e := c.Engine()
	name := relName(c.P, f)
	st := eng.NewState()
	recvT := f.Signature.Recv().Type()
	recv := e.Param("node to copy", recvT)
	filter := e.Param("filter", f.Signature.Params().At(0).Type())
	e.Assume(st, e.Eq(recv, e.Nil()), false)
	str, _ := derefStruct(recvT)
	if _, ok := recvT.Underlying().(*types.Pointer); !ok {
		c.Violate("copy-shape:"+name, f.Pos(), "%s: a leaf is copied by value, this form is not supported by the rule", name)
		return
	}
	links := e.Load(st, e.FieldAddr(recv, derefT(recvT), field), str.Field(field).Type())
	const gh = "tested"
	e.GhostSet(st, gh, 0)
	g := e.Ghost(gh)
	taken := func(st *eng.State) *eng.Term { return st.Track["taken"] }
	fromLinks := func(t *eng.Term) bool {
		for _, o := range e.Origins(t) {
			for o.Kind == eng.KSlice {
				o = o.Args[0]
			}
			if eng.Root(o) == recv || o == links {
				return true
			}
		}
		return false
	}
	settle := func(st *eng.State) {
		if e.LE(st, e.Len(links), g, 0) {
			st.SetGhost("all", "1")
		}
	}
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if ev.FnTerm != filter || len(ev.Args) != 1 {
				return nil, false
			}
			c.Count("calls of the filter", 1)
			if taken(ev.St) != nil {
				c.Violate("copy-lost:"+name, ev.Pos, "%s: an accepted link may be missed in the copy", name)
			}
			x := ev.Args[0]
			l, idx, ok := elemRef(x)
			if !ok || l != links {
				c.Violate("copy-filter:"+name, ev.Pos, "%s: the filter is applied to something else than links of the node: %v", name, x)
				return nil, false
			}
			if !sameIdx(e, ev.St, idx, g) {
				c.Violate("copy-order:"+name, ev.Pos, "%s: it is not known that links are tested one after another", name)
			}
			var outs []eng.Outcome
			for _, v := range []bool{true, false} {
				st := ev.St.Clone()
				e.GhostInc(st, gh, 1)
				delete(st.Track, "taken")
				if v {
					st.Track["taken"] = x
				}
				outs = append(outs, eng.Outcome{St: st, Res: []*eng.Term{e.Bool(v)}})
			}
			return outs, true
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) { settle(st) },
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			el, exact := e.Elems(st, tail)
			if !exact {
				c.Violate("copy-append:"+name, pos, "%s: unknown links are added to the copy", name)
				return
			}
			if fromLinks(base) {
				c.Violate("copy-shared:"+name, pos, "%s: links are collected in the memory of the node that is copied", name)
			}
			for _, x := range el {
				if x == taken(st) && x != nil {
					delete(st.Track, "taken")
					st.SetGhost("some", "1")
					continue
				}
				c.Violate("copy-append:"+name, pos, "%s: a link is added to the copy though the filter has not just accepted it", name)
			}
			empty := e.LE(st, e.Len(base), e.Int(0), 0)
			if n, known := e.IsNil(st, base); known && n {
				empty = true
			}
			if empty && st.Ghost["before"] != "" {
				c.Violate("copy-restart:"+name, pos, "%s: links accepted before are dropped", name)
			}
			st.SetGhost("before", "1")
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if r := eng.Root(addr); r == recv || fromLinks(r) {
				c.Violate("copy-write:"+name, f.Pos(), "%s: the node that is copied is modified", name)
			}
		},
	})
	outs := e.Run(f, st, []*eng.Term{recv, filter}, nil, "copy "+name)
	n := 0
	for _, o := range outs {
		if o.Panic || len(o.Res) != 1 {
			continue
		}
		n++
		settle(o.St)
		if taken(o.St) != nil {
			c.Violate("copy-lost:"+name, f.Pos(), "%s: an accepted link may be missed in the copy", name)
		}
		if o.St.Ghost["all"] == "" {
			c.Violate("copy-partial:"+name, f.Pos(), "%s: some links of the node may be not tested", name)
		}
		isnil, known := e.IsNil(o.St, o.Res[0])
		if known && isnil {
			if o.St.Ghost["some"] != "" {
				c.Violate("copy-dropped:"+name, f.Pos(), "%s: a node with accepted links may be dropped", name)
			}
			continue
		}
		p := resultPtr(e, o.St, o.Res[0])
		if p.Typ == nil || fieldOf(p.Typ, "links") < 0 {
			c.Violate("copy-result:"+name, f.Pos(), "%s: the result is not a node with links: %v", name, o.Res[0])
			continue
		}
		i := fieldOf(p.Typ, "links")
		ps, _ := derefStruct(p.Typ)
		v := e.Load(o.St, e.FieldAddr(p, derefT(p.Typ), i), ps.Field(i).Type())
		if o.St.Ghost["some"] != "" && e.LE(o.St, e.Len(v), e.Int(0), 0) {
			c.Violate("copy-dropped:"+name, f.Pos(), "%s: the copy may be empty though some links are accepted", name)
		}
		if bad := foreign(e, o.St, v, nil, func(x *eng.Term) bool {
			l, _, ok := elemRef(x)
			return ok && l == links
		}); bad != nil {
			c.Violate("copy-result:"+name, f.Pos(), "%s: the copy has something else than accepted links: %v", name, bad)
		}
	}
	c.Count("outcomes of leaf copies", n)
	c.Need("outcomes of leaf copies", 2)
	c.Need("calls of the filter", 1)
}

// cloneBranch proves that the copy of a branch has no children yet.
func (c *Ctx) cloneBranch(f *ssa.Function, field int) {
	e := c.Engine()
	name := relName(c.P, f)
	st := eng.NewState()
	recvT := f.Signature.Recv().Type()
	recv := e.Param("branch to copy", recvT)
	filter := e.Param("filter", f.Signature.Params().At(0).Type())
	str, _ := derefStruct(recvT)
	if _, ok := recvT.Underlying().(*types.Pointer); ok {
		e.Assume(st, e.Eq(recv, e.Nil()), false)
	}
	e.SetHooks(&eng.Hooks{
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if r := eng.Root(addr); r == recv {
				c.Violate("copy-write:"+name, f.Pos(), "%s: the node that is copied is modified", name)
			}
		},
	})
	for _, o := range e.Run(f, st, []*eng.Term{recv, filter}, nil, "copy "+name) {
		if o.Panic || len(o.Res) != 1 {
			continue
		}
		c.Count("outcomes of branch copies", 1)
		if isnil, known := e.IsNil(o.St, o.Res[0]); known && isnil {
			c.Violate("copy-dropped:"+name, f.Pos(), "%s: a branch may be dropped before its children are visited", name)
			continue
		}
		p := resultPtr(e, o.St, o.Res[0])
		ps, ok := derefStruct(p.Typ)
		if !ok || ps.NumFields() != str.NumFields() {
			c.Violate("copy-result:"+name, f.Pos(), "%s: the result is not a node: %v", name, o.Res[0])
			continue
		}
		v := e.Load(o.St, e.FieldAddr(p, derefT(p.Typ), field), ps.Field(field).Type())
		if n, known := e.IsNil(o.St, v); !(known && n) && !e.LE(o.St, e.Len(v), e.Int(0), 0) {
			c.Violate("copy-children:"+name, f.Pos(), "%s: the copy starts with children that are not filtered", name)
		}
	}
	c.Need("outcomes of branch copies", 1)
}

// treeCopy checks that the whole tree is copied and totals are sums of numbers of links.
func (c *Ctx) treeCopy(f *ssa.Function) {
	e := c.Engine()
	name := relName(c.P, f)
	st := eng.NewState()
	var args []*eng.Term
	var filter, root *eng.Term
	for i, p := range f.Params {
		a := e.Param("copy "+p.Name(), p.Type())
		if isFilterT(p.Type()) {
			filter = a
		} else if i == 0 {
			root = a
		}
		args = append(args, a)
	}
	if filter == nil || root == nil {
		c.Violate("tree-shape:"+name, f.Pos(), "%s: parameters of the function that filters the tree are not recognized", name)
		return
	}
	var nodeT types.Type
	if f.Signature.Results().Len() == 1 {
		nodeT = f.Signature.Results().At(0).Type()
	}
	if nodeT == nil {
		c.Violate("tree-shape:"+name, f.Pos(), "%s: the result of the function that filters the tree is not recognized", name)
		return
	}
	const (
		todo = "children still to visit"
		done = "visited children"
	)
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	// totals read from nodes
	totals := map[*eng.Term]map[*eng.Term]bool{}
	partOf := map[*eng.Term]*eng.Term{} // parts of new nodes
	owner := func(addr *eng.Term) *eng.Term {
		if !isField(addr, "total") {
			return nil
		}
		x := addr.Args[0]
		if y := partOf[x]; y != nil {
			return y
		}
		if x.Kind == eng.KInit && x.Args[0].Kind == eng.KFieldAddr {
			return x.Args[0].Args[0]
		}
		return x
	}
	id := func(t *eng.Term) string { return fmt.Sprint(t.ID) }
	lists := map[*eng.Term]bool{} // stacks of copied nodes
	reset := func(st *eng.State) {
		for _, k := range []string{"popped", "seen", "positive", "added", "linked"} {
			st.SetGhost(k, "")
		}
	}
	pair := func(st *eng.State) {
		if st.Ghost["added"] == st.Ghost["linked"] {
			st.SetGhost("added", "")
			st.SetGhost("linked", "")
		}
	}
	// all checks of a node visited before are finished
	finish := func(st *eng.State, pos token.Pos) {
		if st.Ghost["cloned"] != "" {
			c.Violate("tree-children:"+name, pos, "%s: children of a node may be skipped", name)
		}
		if st.Ghost["visit"] != "" {
			c.Violate("tree-children:"+name, pos, "%s: some children of a node may be not visited", name)
		}
		if st.Ghost["seen"] != "" || st.Ghost["positive"] != "" || st.Ghost["popped"] != "" {
			c.Violate("tree-dropped:"+name, pos, "%s: a node with matching links may be not added to its parent", name)
		}
		if st.Ghost["added"] != st.Ghost["linked"] {
			c.Violate("tree-total:"+name, pos, "%s: the total of a node and its children may be not updated together", name)
		}
		reset(st)
		st.SetGhost("cloned", "")
		st.SetGhost("visit", "")
		delete(st.Track, "children")
		delete(st.Track, "node")
	}
	settle := func(st *eng.State) {
		if l := st.Track["children"]; l != nil && st.Ghost["visit"] != "" {
			if e.LE(st, e.Ghost(todo), e.Int(0), 0) || e.LE(st, e.Len(l), e.Ghost(done), 0) || nilList(e, st, l) {
				st.SetGhost("visit", "")
			}
		}
	}
	// a child is handled if it is the next one from any end of the list
	visited := func(st *eng.State, x *eng.Term) bool {
		l := st.Track["children"]
		al, idx, ok := elemRef(x)
		if !ok || l == nil || al != l {
			return false
		}
		c.Count("children to visit", 1)
		if sameIdx(e, st, idx, e.Ghost(done)) {
			e.GhostInc(st, done, 1)
		} else if e.LE(st, idx, e.Ghost(todo), -1) && e.LE(st, e.Ghost(todo), idx, 1) {
			e.GhostInc(st, todo, -1)
		}
		return true
	}
	// recursion: a child is copied by the same function
	recursion := func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		st := ev.St
		if len(ev.Args) != len(f.Params) || len(ev.Res) != 1 {
			return nil, false
		}
		for i, a := range ev.Args {
			if !isFilterT(f.Params[i].Type()) {
				continue
			}
			for _, x := range e.Origins(a) {
				if x != filter {
					c.Violate("tree-filter:"+name, ev.Pos, "%s: nodes are copied with another filter: %v", name, x)
				}
			}
		}
		if st.Ghost["seen"] != "" || st.Ghost["positive"] != "" || st.Ghost["popped"] != "" {
			c.Violate("tree-dropped:"+name, ev.Pos, "%s: a node with matching links may be not added to its parent", name)
		}
		if st.Ghost["added"] != st.Ghost["linked"] {
			c.Violate("tree-total:"+name, ev.Pos, "%s: the total of a node and its children may be not updated together", name)
		}
		reset(st)
		child := strip(ev.Args[0])
		if !visited(st, child) {
			c.Violate("tree-child:"+name, ev.Pos, "%s: something else than children of the node is copied: %v", name, child)
		}
		settle(st)
		r := e.Pure("copy of subtree", nodeT, child)
		y := st.Clone()
		var outs []eng.Outcome
		if e.Assume(st, e.Eq(r, e.Nil()), true) {
			outs = append(outs, eng.Outcome{St: st, Res: []*eng.Term{r}})
		}
		if e.Assume(y, e.Eq(r, e.Nil()), false) {
			y.SetGhost("popped", id(r))
			outs = append(outs, eng.Outcome{St: y, Res: []*eng.Term{r}})
		}
		return outs, true
	}
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			o := ev.Obj
			if ev.Callee == f {
				return recursion(ev)
			}
			if o == nil || !e.InModule(o.Pkg()) {
				return nil, false
			}
			sig := o.Type().(*types.Signature)
			if sig.Recv() == nil || len(ev.Args) == 0 || len(ev.Res) > 1 {
				return nil, false
			}
			st := ev.St
			node := strip(ev.Args[0])
			one := func(t *eng.Term) ([]eng.Outcome, bool) {
				return []eng.Outcome{{St: st, Res: []*eng.Term{t}}}, true
			}
			switch {
			case len(ev.Args) == 2 && len(ev.Res) == 1 && isFilterT(sig.Params().At(0).Type()) && types.IsInterface(ev.Res[0]):
				c.Count("copied nodes", 1)
				for _, x := range e.Origins(ev.Args[1]) {
					if x != filter {
						c.Violate("tree-filter:"+name, ev.Pos, "%s: nodes are copied with another filter: %v", name, x)
					}
				}
				same := st.Track["node"] == node
				if !same {
					finish(st, ev.Pos)
					st.SetGhost("cloned", "1")
				}
				r := e.Pure("copy of node", ev.Res[0], node)
				st.Track["node"] = node
				st.Track["copied"] = r
				if same {
					return one(r)
				}
				// no children are lost if a node was dropped, see checks of copying of branches
				y := st.Clone()
				var outs []eng.Outcome
				if e.Assume(st, e.Eq(r, e.Nil()), true) {
					st.SetGhost("cloned", "")
					outs = append(outs, eng.Outcome{St: st, Res: []*eng.Term{r}})
				}
				if e.Assume(y, e.Eq(r, e.Nil()), false) {
					outs = append(outs, eng.Outcome{St: y, Res: []*eng.Term{r}})
				}
				return outs, true
			case len(ev.Args) == 1 && len(ev.Res) == 1 && isNodeList(ev.Res[0]):
				r := e.Pure("children of node", ev.Res[0], node)
				if st.Track["node"] != nil && st.Track["node"] != node {
					finish(st, ev.Pos)
				}
				st.Track["node"] = node
				st.SetGhost("cloned", "")
				st.SetGhost("visit", "1")
				st.Track["children"] = r
				e.GhostAssign(st, todo, e.Len(r))
				e.GhostSet(st, done, 0)
				c.Count("lists of children", 1)
				settle(st)
				return one(r)
			case len(ev.Args) == 1 && len(ev.Res) == 1 && isIntT(ev.Res[0]) && node.Kind == eng.KCall && node.CalleeName() == "copy of node":
				return one(e.Pure("own links", ev.Res[0], node))
			case len(ev.Args) == 2 && len(ev.Res) == 0 && strip(ev.Args[1]).Typ != nil && types.Identical(strip(ev.Args[1]).Typ, nodeT):
				if g := ev.Callee; g != nil && len(g.Params) == 2 && !types.IsInterface(g.Params[1].Type()) {
					return nil, false // a helper
				}
				y := strip(ev.Args[1])
				x := ev.Args[0]
				if x.Kind == eng.KInit && x.Args[0].Kind == eng.KFieldAddr {
					x = x.Args[0].Args[0]
				}
				x = strip(x)
				if p := partOf[x]; p != nil {
					x = p
				}
				c.Count("children added to copies", 1)
				if st.Ghost["positive"] != id(y) {
					c.Violate("tree-empty:"+name, ev.Pos, "%s: a node without matching links may be added to its parent", name)
				}
				st.SetGhost("positive", "")
				st.SetGhost("seen", "")
				st.SetGhost("popped", "")
				st.SetGhost("linked", id(x)+" "+id(y))
				pair(st)
				return []eng.Outcome{{St: st}}, true
			}
			return nil, false
		},
		OnLoad: func(st *eng.State, addr *eng.Term, pos token.Pos) {
			if y := owner(addr); y != nil && !strings.HasSuffix(st.Ghost["linked"], " "+id(y)) {
				v := e.Load(st, addr, derefT(addr.Typ))
				if totals[y] == nil {
					totals[y] = map[*eng.Term]bool{}
				}
				totals[y][v] = true
				if e.LE(st, e.Int(1), v, 0) {
					st.SetGhost("positive", id(y))
				} else if !e.LE(st, v, e.Int(0), 0) {
					st.SetGhost("seen", id(y))
				}
				st.SetGhost("popped", "")
			}
			if addr.Kind == eng.KIndexAddr && types.Identical(derefT(addr.Typ), nodeT) {
				lists[addr.Args[0]] = true
				if !e.LE(st, e.Len(addr.Args[0]), e.Int(1), 0) && st.Ghost["linked"] == "" && st.Ghost["positive"] == "" {
					y := e.Load(st, addr, nodeT)
					if n, known := e.IsNil(st, y); (!known || !n) && st.Ghost["popped"] == "" {
						st.SetGhost("popped", id(y))
					}
				}
			}
		},
		OnBack: func(st *eng.State, h *ssa.BasicBlock) {
			if h.Parent() == f && st.Ghost["added"] != st.Ghost["linked"] {
				c.Violate("tree-total:"+name, h.Instrs[0].Pos(), "%s: the total of a node and its children may be not updated together", name)
				st.SetGhost("added", "")
				st.SetGhost("linked", "")
			}
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			settle(st)
			for y, vs := range totals {
				for v := range vs {
					if st.Ghost["seen"] == id(y) {
						if e.LE(st, e.Int(1), v, 0) {
							st.SetGhost("positive", id(y))
							st.SetGhost("seen", "")
						} else if e.LE(st, v, e.Int(0), 0) {
							st.SetGhost("seen", "")
						}
					}
				}
			}
			if st.Ghost["popped"] != "" {
				for l := range lists {
					if e.LE(st, e.Len(l), e.Int(1), 0) {
						st.SetGhost("popped", "")
					}
				}
				for _, f := range e.Facts(st) {
					if f.T.Kind == eng.KBin && f.T.Op == token.EQL && f.Val {
						for i := range f.T.Args {
							if f.T.Args[1-i].Kind == eng.KNil && id(f.T.Args[i]) == st.Ghost["popped"] {
								st.SetGhost("popped", "")
							}
						}
					}
				}
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			l := st.Track["children"]
			if l == nil || st.Ghost["visit"] == "" {
				return
			}
			e.Reaches(st, tail, func(x *eng.Term) bool {
				return visited(st, x)
			})
			settle(st)
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			x := owner(addr)
			if x == nil {
				if p := addr; p.Kind == eng.KFieldAddr && p.Args[0].Kind == eng.KAlloc && types.Identical(p.Args[0].Typ, nodeT) {
					partOf[strip(v)] = p.Args[0]
				}
				return
			}
			c.Count("stored totals", 1)
			if v.Kind == eng.KCall && v.CalleeName() == "own links" && v.Args[0] == st.Track["copied"] {
				return
			}
			if n, ok := eng.ConstInt(v); ok && n == 0 && eng.Root(addr).Kind == eng.KAlloc {
				return
			}
			if v.Kind == eng.KBin && v.Op == token.ADD && len(v.Args) == 2 {
				for i := range v.Args {
					if !totals[x][v.Args[i]] {
						continue
					}
					for y, vs := range totals {
						if y != x && vs[v.Args[1-i]] {
							if st.Ghost["seen"] == id(x) {
								st.SetGhost("seen", "")
							}
							st.SetGhost("added", id(x)+" "+id(y))
							pair(st)
							return
						}
					}
				}
			}
			c.Violate("tree-total:"+name, f.Pos(), "%s: a total is neither the number of links of a node nor increased by the total of its child: %v", name, v)
		},
	})
	n := 0
	for _, o := range e.Run(f, st, args, nil, "tree "+name) {
		if o.Panic {
			continue
		}
		n++
		if len(o.Res) == 1 && o.St.Ghost["popped"] == id(o.Res[0]) {
			o.St.SetGhost("popped", "")
		}
		finish(o.St, f.Pos())
	}
	c.Count("outcomes of the filter of the tree", n)
	c.Need("outcomes of the filter of the tree", 1)
	c.Need("copied nodes", 1)
	c.Need("children to visit", 1)
	c.Need("children added to copies", 1)
	c.Need("stored totals", 2)
	c.treeFuncs(e)
}

func nilList(e *eng.Engine, st *eng.State, l *eng.Term) bool {
	n, known := e.IsNil(st, l)
	return known && n
}

func isNodeList(T types.Type) bool {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = sl.Elem().Underlying().(*types.Interface)
	n := namedOf(sl.Elem())
	return ok && n != nil && n.NumMethods() > 0 || ok && n != nil && n.Underlying().(*types.Interface).NumMethods() > 0
}

// treeFuncs: totals are stored nowhere else.
func (c *Ctx) treeFuncs(e *eng.Engine) {
	for _, f := range c.P.ModuleFuncs() {
		if e.Funcs[f] > 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				str, ok := derefStruct(fa.X.Type())
				if !ok || jsonName(str, fa.Field) != "total" {
					continue
				}
				c.Violate("total-writer:"+relName(c.P, f), st.Pos(), "%s changes the total of a node", relName(c.P, f))
			}
		}
	}
}

func isIntT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
