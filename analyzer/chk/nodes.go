package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C14"] = ruleC14 }

// mergedFields are numbers of fields that are merged into the object of the node.
func mergedFields(T types.Type) (*types.Struct, []int) {
	str, ok := derefStruct(T)
	if !ok {
		return nil, nil
	}
	var l []int
	for i := 0; i < str.NumFields(); i++ {
		if _, ok := reflect.StructTag(str.Tag(i)).Lookup("burl"); ok {
			l = append(l, i)
		}
	}
	return str, l
}

// treeNodes checks that nodes added to trees have all parts necessary to encode them.
type treeNodes struct {
	self    *ssa.Function     // the analysed function if its results are checked
	texts   map[string]string // what is incomplete
	c       *Ctx
	e       *eng.Engine
	kinds   []types.Type // structures with merged parts
	created map[ssa.Instruction]bool
	stored  map[[2]*eng.Term]bool // values of parts known to be non-nil when they are assigned
	busy    map[*eng.Term]bool
	copy    map[*ssa.Function]bool // copying methods, true if they are proved to give nodes
	source  map[*ssa.Function]bool // roots of trees they make are completed by callers
}

// isNode: a node structure, a pointer to it, or an interface of nodes.
func (n *treeNodes) isNode(T types.Type) bool {
	if T == nil {
		return false
	}
	if in, ok := T.Underlying().(*types.Interface); ok {
		if in.NumMethods() == 0 {
			return false
		}
		for _, K := range n.kinds {
			if types.Implements(types.NewPointer(K), in) {
				return true
			}
		}
		return false
	}
	return n.structOf(T) != nil
}

func (n *treeNodes) structOf(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	for _, K := range n.kinds {
		if types.Identical(K, T) {
			return K
		}
	}
	return nil
}

// missing describes a possible lack of a part of a node made by the analyzed code.
func (n *treeNodes) missing(st *eng.State, node *eng.Term) string {
	e := n.e
	for node.Kind == eng.KIface || node.Kind == eng.KConv {
		node = node.Args[0]
	}
	if node.Kind == eng.KPhi {
		if n.busy[node] {
			return ""
		}
		n.busy[node] = true
		defer delete(n.busy, node)
		if n.parts(st, node) == "" {
			return ""
		}
		for _, o := range e.Incoming(node) {
			if what := n.missing(st, o); what != "" {
				return what
			}
		}
		return ""
	}
	// nodes that exist before are proved when they are created
	if node.Kind != eng.KAlloc && !(node.Kind == eng.KCall || node.Kind == eng.KExtract && node.Args[0].Kind == eng.KCall) {
		return ""
	}
	call := node
	if call.Kind == eng.KExtract {
		call = call.Args[0]
	}
	if call.Kind == eng.KCall && call.Fn != nil && call.Fn == n.self {
		return "" // by induction, results of the function are checked
	}
	return n.parts(st, node)
}

// parts checks merged fields of the node.
func (n *treeNodes) parts(st *eng.State, node *eng.Term) string {
	e := n.e
	if node.Typ == nil {
		return ""
	}
	p, ok := node.Typ.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	str, fields := mergedFields(p.Elem())
	for _, i := range fields {
		at := e.FieldAddr(node, p.Elem(), i)
		v := e.Load(st, at, str.Field(i).Type())
		if w, ok := n.stored[[2]*eng.Term{at, v}]; ok && w {
			continue
		}
		if what := n.absent(st, v); what != "" {
			return fmt.Sprintf("%s of the node may be %s", str.Field(i).Name(), what)
		}
	}
	return ""
}

// absent: the value of the merged field may be nil.
func (n *treeNodes) absent(st *eng.State, v *eng.Term) string {
	e := n.e
	isnil, known := e.IsNil(st, v)
	proved := known && !isnil
	for _, x := range e.Origins(v) {
		if isnil, known := e.IsNil(st, x); known && isnil && x.Kind != eng.KIface {
			if proved {
				continue
			}
			return "nil"
		}
		y := x
		for y.Kind == eng.KIface || y.Kind == eng.KConv {
			y = y.Args[0]
		}
		if y != x {
			if isnil, known := e.IsNil(st, y); !known || isnil {
				return fmt.Sprintf("a nil pointer (%v)", types.TypeString(y.Typ, func(*types.Package) string { return "" }))
			}
			if what := n.missing(st, y); what != "" {
				return "without parts: " + what
			}
			continue
		}
		if isnil, known := e.IsNil(st, x); known && !isnil || proved || n.kept(x) {
			continue
		}
		return fmt.Sprintf("nil (%v)", x)
	}
	return ""
}

// sourceObj: the method of the interface makes trees.
func (n *treeNodes) sourceObj(m *types.Func) bool {
	in, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for f := range n.source {
		if f.Name() == m.Name() && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), in) {
			return true
		}
	}
	return false
}

// old: not made by the analyzed function or its source of links.
func old(x *eng.Term) bool {
	return x.Kind != eng.KPhi && x.Kind != eng.KAlloc && x.Kind != eng.KCall && x.Kind != eng.KExtract
}

// kept: the value is a part of a node that exists already.
func (n *treeNodes) kept(x *eng.Term) bool {
	switch x.Kind {
	case eng.KInit:
		a := x.Args[0]
		return a.Kind == eng.KFieldAddr && a.Args[0].Typ != nil && n.structOf(a.Args[0].Typ) != nil && old(eng.Root(a))
	case eng.KField:
		return x.Args[0].Typ != nil && n.structOf(x.Args[0].Typ) != nil && old(x.Args[0])
	}
	return false
}

// run interprets a function that makes nodes.
func (n *treeNodes) run(f *ssa.Function, complete bool) {
	c, e := n.c, n.e
	name := relName(c.P, f)
	n.self, n.texts = nil, map[string]string{}
	if complete {
		n.self = f
	}
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(name+" "+p.Name(), p.Type()))
	}
	if f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.Assume(st, e.Eq(args[0], e.Nil()), false)
		}
	}
	later := func(st *eng.State) {
		if p := st.Ghost["incomplete"]; p != "" {
			c.Violate("part:"+name, f.Pos(), "%s: %s", name, n.texts[p])
			st.SetGhost("incomplete", "")
			delete(st.Track, "incomplete")
		}
	}
	e.SetHooks(&eng.Hooks{
		Boundary: func(g *ssa.Function) bool { return g != f && (n.source[g] || hasKey(n.copy, g)) },
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if !ev.Invoke || ev.Obj == nil || !n.sourceObj(ev.Obj) {
				return nil, false
			}
			var res []*eng.Term
			sig := ev.Obj.Type().(*types.Signature)
			for i := 0; i < sig.Results().Len(); i++ {
				T := sig.Results().At(i).Type()
				r := e.Pure(fmt.Sprintf("result %d of a source", i), T)
				if K := n.structOf(T); K != nil {
					_, fields := mergedFields(T)
					for _, j := range fields {
						e.HavocCell(ev.St, e.FieldAddr(r, derefT(T), j), ev.SiteID)
					}
				}
				res = append(res, r)
			}
			return []eng.Outcome{{St: ev.St, Res: res}}, true
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			if n.copy[ev.Callee] && len(res) == 1 {
				e.Assume(st, e.Eq(res[0], e.Nil()), false)
			}
		},
		OnInstr: func(st *eng.State, in ssa.Instruction) {
			if a, ok := in.(*ssa.Alloc); ok && n.structOf(a.Type()) != nil {
				n.created[in] = true
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			var T types.Type
			for _, x := range []*eng.Term{base, tail} {
				if x.Typ == nil {
					continue
				}
				if sl, ok := x.Typ.Underlying().(*types.Slice); ok {
					T = sl.Elem()
				}
			}
			if !n.isNode(T) || !complete && !types.IsInterface(T) {
				return
			}
			c.Count("nodes added to lists", 1)
			later(st)
			el, _ := e.Elems(st, tail)
			for _, x := range el {
				if types.IsInterface(T) {
					if what := n.noNode(st, x); what != "" {
						c.Violate("child:"+name, pos, "%s: a child of a node may be %s", name, what)
						continue
					}
				}
				for _, o := range []*eng.Term{x} {
					if what := n.missing(st, o); what != "" {
						// may be set a bit later
						st.Track["incomplete"] = o
						key := c.P.Pos(pos)
						n.texts[key] = fmt.Sprintf("%s (added at %s)", what, key)
						st.SetGhost("incomplete", key)
					}
				}
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KIndexAddr && isArrayVar(addr.Args[0]) {
				return // arguments of append
			}
			if addr.Kind == eng.KIndexAddr && n.isNode(T) && (complete || types.IsInterface(T)) {
				later(st)
				c.Count("nodes added to lists", 1)
				for _, o := range []*eng.Term{v} {
					if what := n.missing(st, o); what != "" {
						c.Violate("part:"+name, f.Pos(), "%s: %s, it is stored into a list (%s)", name, what, at)
					}
				}
				return
			}
			if addr.Kind != eng.KFieldAddr || addr.Args[0].Typ == nil || n.structOf(addr.Args[0].Typ) == nil {
				return
			}
			str, fields := mergedFields(addr.Args[0].Typ)
			for _, i := range fields {
				base := addr.Args[0]
				if addr != e.FieldAddr(base, derefT(base.Typ), i) {
					continue
				}
				c.Count("parts of nodes stored", 1)
				what := n.absent(st, v)
				if x := st.Track["incomplete"]; x != nil && what == "" && len(fields) == 1 {
					for x.Kind == eng.KIface || x.Kind == eng.KConv {
						x = x.Args[0]
					}
					if x == base {
						st.SetGhost("incomplete", "")
						delete(st.Track, "incomplete")
					}
				}
				if base.Kind == eng.KAlloc {
					k := [2]*eng.Term{addr, v}
					if old, ok := n.stored[k]; !ok || old {
						n.stored[k] = what == ""
					}
					continue
				}
				if what != "" {
					c.Violate("part:"+name, f.Pos(), "%s: %s of an existing node may become %s (%s)", name, str.Field(i).Name(), what, at)
				}
			}
		},
	})
	for _, o := range e.Run(f, st, args, nil, "nodes "+name) {
		if o.Panic {
			continue
		}
		later(o.St)
		for i, r := range o.Res {
			T := f.Signature.Results().At(i).Type()
			if !n.isNode(T) {
				continue
			}
			if _, ok := T.Underlying().(*types.Struct); ok {
				continue
			}
			c.Count("results that are nodes", 1)
			if !complete {
				continue
			}
			for _, x := range e.Origins(r) {
				if isnil, known := e.IsNil(o.St, x); known && isnil {
					if x.Kind == eng.KIface && x.Args[0].Kind != eng.KNil || types.IsInterface(T) && x.Kind == eng.KIface {
						c.Violate("result:"+name, f.Pos(), "%s: the result may be a nil pointer", name)
					}
					continue
				}
			}
			if what := n.missing(o.St, r); what != "" {
				c.Violate("part:"+name, f.Pos(), "%s: %s, it is the result", name, what)
			}
		}
	}
}

// noNode: the value stored to a list of children may be not a node.
func (n *treeNodes) noNode(st *eng.State, v *eng.Term) string {
	e := n.e
	for _, x := range e.Origins(v) {
		y := x
		for y.Kind == eng.KIface || y.Kind == eng.KConv {
			y = y.Args[0]
		}
		if y.Kind == eng.KInit && y == x || y.Kind == eng.KParam && y == x || y.Kind == eng.KIndex && y == x {
			continue // a child of another node
		}
		if isnil, known := e.IsNil(st, y); !known || isnil {
			if y == x && known == false && y.Kind == eng.KAssert {
				continue // checked assertions of interfaces give no nil
			}
			return "nil"
		}
	}
	return ""
}

func ruleC14(c *Ctx) {
	c.Rule = "Every combination of structures merged by the encoder of nodes (found by interpretation of MarshalJSON) has members of distinct names, exported fields only, and exactly one type. Functions that create nodes are interpreted abstractly: at the moment a node is added to a list of children, saved, or returned by the loader, parts merged into it must be proved to be non-nil (an interface with a non-nil pointer); copies keep parts of their originals."
	var replies []types.Type
	s := c.Server()
	if s == nil {
		return
	}
	name, fn := s.handlerOf("linkremark.urlMentions", "burl.urlMentions")
	if fn == nil {
		c.Missing("handler of urlMentions")
		return
	}
	replies = append(replies, s.Methods[name].Signature.Params().At(1).Type())
	n := &treeNodes{c: c, e: c.Engine(), created: map[ssa.Instruction]bool{}, source: map[*ssa.Function]bool{}, copy: map[*ssa.Function]bool{}, busy: map[*eng.Term]bool{}, stored: map[[2]*eng.Term]bool{}}
	seen := map[types.Type]bool{}
	for _, R := range replies {
		t := c.treeEncoding(R)
		if t == nil {
			return
		}
		t.distinct()
		for _, k := range t.kinds {
			for _, T := range k.parts {
				if _, l := mergedFields(T); len(l) != 0 && !seen[T] {
					seen[T] = true
					n.kinds = append(n.kinds, T)
				}
			}
		}
	}
	c.Count("structures with merged parts", len(n.kinds))
	c.Need("structures with merged parts", 2)
	c.keepParts(n)
	// functions that make nodes
	done := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	extract := n.source
	for _, f := range c.P.extractors("Extract") {
		extract[f] = true
		if obj, ok := f.Object().(*types.Func); ok {
			if g := c.P.Prog.FuncValue(obj); g != nil && g != f {
				extract[g] = true
				f = g
			}
		}
		roots = append(roots, f)
	}
	load := c.P.loaders()
	g := c.P.Graph()
	for _, f := range c.P.ModuleFuncs() {
		if extract[f] || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		res := f.Signature.Results()
		gives := res.Len() > 0 && n.isNode(res.At(0).Type())
		if _, ok := f.Signature.Params(), true; !ok {
			continue
		}
		takes := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			takes = takes || isFilterT(f.Signature.Params().At(i).Type())
		}
		if gives && f.Signature.Recv() == nil && (load[f] || takes) {
			outside := false
			for from, es := range g.Edges {
				for _, ed := range es {
					outside = outside || ed.To == f && fnPkg(from) != fnPkg(f)
				}
			}
			if outside {
				roots = append(roots, f)
			}
		}
	}
	run := func(f *ssa.Function, complete bool) {
		if done[f] {
			return
		}
		done[f] = true
		c.Count("functions that make trees", 1)
		n.run(f, complete)
	}
	for _, f := range roots {
		run(f, !extract[f])
	}
	c.Need("functions that make trees", 4)
	c.Need("nodes added to lists", 6)
	// nodes made elsewhere
	var rest []*ssa.Function
	for _, f := range c.P.ModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && n.structOf(a.Type()) != nil && !n.created[in] {
					if st := paramSpill(a); st {
						continue
					}
					rest = append(rest, f)
				}
			}
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Pos() < rest[j].Pos() })
	for _, f := range rest {
		if f.Signature.Results().Len() == 1 {
			if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Struct); ok {
				continue // a value, not a node of a tree yet
			}
		}
		run(f, true)
	}
	c.Count("places where nodes are created", len(n.created))
	c.Need("places where nodes are created", 3)
}

// paramSpill: the variable keeps a parameter of the function.
func paramSpill(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			if _, ok := st.Val.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

// keepParts: copies of nodes have the same merged parts.
func (c *Ctx) keepParts(n *treeNodes) {
	e := n.e
	for _, f := range c.P.cloneMethods() {
		recvT := f.Signature.Recv().Type()
		str, fields := mergedFields(recvT)
		n.copy[f] = false
		if len(fields) == 0 {
			continue
		}
		always := true
		name := relName(c.P, f)
		st := eng.NewState()
		recv := e.Param("node to copy", recvT)
		filter := e.Param("filter", f.Signature.Params().At(0).Type())
		part := map[int]*eng.Term{}
		ptr := false
		if _, ptr = recvT.Underlying().(*types.Pointer); ptr {
			e.Assume(st, e.Eq(recv, e.Nil()), false)
		}
		for _, i := range fields {
			if ptr {
				part[i] = e.Load(st, e.FieldAddr(recv, derefT(recvT), i), str.Field(i).Type())
			} else {
				part[i] = e.FieldOf(st, recv, recvT, i)
			}
		}
		e.SetHooks(&eng.Hooks{})
		for _, o := range e.Run(f, st, []*eng.Term{recv, filter}, nil, "parts "+name) {
			if o.Panic || len(o.Res) != 1 {
				continue
			}
			c.Count("copies of nodes", 1)
			isnil, known := e.IsNil(o.St, o.Res[0])
			if !known || isnil {
				always = false
			}
			if known && isnil {
				continue
			}
			p := resultPtr(e, o.St, o.Res[0])
			if n.structOf(p.Typ) == nil {
				c.Violate("copy:"+name, f.Pos(), "%s: the copy is another structure: %v", name, p.Typ)
				continue
			}
			for _, i := range fields {
				v := e.Load(o.St, e.FieldAddr(p, derefT(p.Typ), i), str.Field(i).Type())
				if v != part[i] {
					c.Violate("copy-part:"+name, f.Pos(), "%s: %s of the copy is not that of the original node", name, str.Field(i).Name())
				}
			}
		}
		n.copy[f] = always
	}
	c.Need("copies of nodes", 1)
}

func hasKey(m map[*ssa.Function]bool, f *ssa.Function) bool {
	_, ok := m[f]
	return ok
}

// isArrayVar: a local array, in particular that of variadic arguments.
func isArrayVar(x *eng.Term) bool {
	if x.Kind != eng.KAlloc || x.Typ == nil {
		return false
	}
	_, ok := derefT(x.Typ).Underlying().(*types.Array)
	return ok
}
