package chk

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C15"] = ruleC15 }

const (
	ghHeadings = "length of the list of open headings"
	ghNodes    = "length of the list of nodes"
)

// starGroup finds the group of leading asterisks in a pattern of headings.
func starGroup(pattern string) (group, groups int, ok bool) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 3 {
		return 0, 0, false
	}
	i := 0
	if op := re.Sub[0].Op; op != syntax.OpBeginText && op != syntax.OpBeginLine {
		return 0, 0, false
	}
	i++
	g := re.Sub[i]
	if g.Op != syntax.OpCapture || g.Sub[0].Op != syntax.OpPlus {
		return 0, 0, false
	}
	star := g.Sub[0].Sub[0]
	if star.Op != syntax.OpLiteral || len(star.Rune) != 1 || star.Rune[0] != '*' {
		return 0, 0, false
	}
	next := re.Sub[i+1]
	if next.Op == syntax.OpPlus {
		next = next.Sub[0]
	}
	switch next.Op {
	case syntax.OpLiteral:
		ok = next.Rune[0] == ' '
	case syntax.OpCharClass:
		ok = true
		for k := 0; k+1 < len(next.Rune); k += 2 {
			for r := next.Rune[k]; r <= next.Rune[k+1]; r++ {
				if r != ' ' && (r < '\t' || r > '\r') {
					ok = false
					break
				}
			}
		}
	}
	return g.Cap, re.MaxCap(), ok
}

type outline struct {
	c        *Ctx
	e        *eng.Engine
	name     string
	heading  types.Type // struct of headings
	node     types.Type // struct of nodes
	link     types.Type
	props    int // the field of nodes with headings
	roots    map[*eng.Term]bool
	patterns int
}

func isPtrTo(T, elem types.Type) bool {
	if T == nil || elem == nil {
		return false
	}
	p, ok := T.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), elem)
}

func isListOf(T, elem types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	return ok && isPtrTo(s.Elem(), elem)
}

func (o *outline) bad(key string, pos token.Pos, format string, args ...interface{}) {
	o.c.Violate(key+":"+o.name, pos, o.name+": "+format, args...)
}

// level is the number of asterisks of the heading on the current line.
func (o *outline) level(st *eng.State) *eng.Term {
	if st.Ghost["heading"] == "" {
		return nil
	}
	return o.e.Slot(st, "level")
}

func (o *outline) isLevel(st *eng.State, t *eng.Term, d int64) bool {
	l := o.level(st)
	return l != nil && o.e.LE(st, t, l, d) && o.e.LE(st, l, t, -d)
}

// fresh tells that nodes of finished sections are dropped before nodes are used.
func (o *outline) settle(st *eng.State, pos token.Pos) {
	if st.Ghost["section"] == "" {
		return
	}
	if !o.e.LE(st, o.e.Ghost(ghNodes), o.e.Ghost(ghHeadings), 0) {
		o.bad("finished", pos, "links may be added to nodes of sections finished by a heading")
	}
	st.SetGhost("section", "")
}

func (o *outline) tracked(st *eng.State, base *eng.Term, gh string, pos token.Pos) {
	if !sameIdx(o.e, st, o.e.Len(base), o.e.Ghost(gh)) {
		o.bad("list", pos, "a list with other elements than the %s is used", strings.TrimPrefix(gh, "length of the "))
	}
}

func (o *outline) appended(st *eng.State, base, tail *eng.Term, T types.Type, pos token.Pos) {
	e := o.e
	gh := ghNodes
	if isListOf(T, o.heading) {
		gh = ghHeadings
	}
	el, exact := e.Elems(st, tail)
	if !exact {
		o.bad("append", pos, "elements added to the list are not known")
		return
	}
	o.tracked(st, base, gh, pos)
	g := e.Ghost(gh)
	for _, x := range el {
		isnil, known := e.IsNil(st, x)
		if gh == ghHeadings {
			o.c.Count("entries of the list of headings", 1)
			l := o.level(st)
			switch {
			case l == nil || st.Ghost["heading"] != "open":
				o.bad("no-heading", pos, "the list of headings is extended without a heading on the line")
			case known && isnil:
				if !e.LE(st, g, l, -2) {
					o.bad("padding", pos, "a missing level may be added below the heading")
				}
				e.GhostInc(st, gh, 1)
			default:
				if !o.isLevel(st, g, -1) {
					o.bad("level", pos, "a heading is put not to its level")
				}
				e.GhostInc(st, gh, 1)
				st.SetGhost("heading", "done")
				st.SetGhost("section", "new")
				if e.LE(st, e.Ghost(ghNodes), e.Ghost(ghHeadings), 0) {
					st.SetGhost("section", "")
				}
			}
			continue
		}
		o.c.Count("entries of the list of nodes", 1)
		o.settle(st, pos)
		if st.Ghost["pending"] != "" {
			o.bad("detached", pos, "a node may be not added to the node of its parent heading")
		}
		head, parent := e.Slot(st, "head"), e.Slot(st, "parent")
		if head == nil {
			o.bad("heading-of-node", pos, "the node is not made for the next open heading")
		} else if hnil, hk := e.IsNil(st, head); hk && hnil {
			if x != parent {
				o.bad("skipped", pos, "a missing level has a node that is not the node of the enclosing heading")
			}
		} else {
			p := e.Load(st, e.FieldAddr(x, o.node, o.props), o.propsType())
			for p.Kind == eng.KIface || p.Kind == eng.KConv {
				p = p.Args[0]
			}
			if p != head {
				o.bad("props", pos, "the node has properties of another heading")
			}
			if !hk {
				o.bad("missing-level", pos, "a node may be made for a missing level")
			}
			if e.Slot(st, "attached") != x {
				st.SetGhost("pending", "1")
				e.SetSlot(st, "pending", x)
				e.SetSlot(st, "grand", parent)
			}
		}
		e.SetSlot(st, "attached", nil)
		e.SetSlot(st, "head", nil)
		e.SetSlot(st, "parent", x)
		e.GhostInc(st, gh, 1)
	}
}

func (o *outline) propsType() types.Type {
	return o.node.Underlying().(*types.Struct).Field(o.props).Type()
}

func (o *outline) sliced(st *eng.State, in *ssa.Slice) {
	e := o.e
	if a, ok := in.X.(*ssa.Alloc); ok {
		if a.Comment == "varargs" {
			return
		}
	}
	gh := ghNodes
	if isListOf(in.Type(), o.heading) {
		gh = ghHeadings
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			n := e.Int(arr.Len())
			if in.High != nil {
				n = e.Val(st, in.High)
			}
			o.made(st, gh, n)
		}
		return
	}
	o.c.Count("truncations of lists", 1)
	o.tracked(st, e.Val(st, in.X), gh, in.Pos())
	if in.Low != nil {
		if n, ok := eng.ConstInt(e.Val(st, in.Low)); !ok || n != 0 {
			o.bad("low", in.Pos(), "outer headings are dropped from a list")
		}
	}
	if in.High == nil {
		return
	}
	h := e.Val(st, in.High)
	g := e.Ghost(gh)
	d := int64(-1) // headings of upper levels remain
	if gh == ghNodes {
		d = 0 // and the node of the file
	}
	if sameIdx(e, st, h, g) {
		return
	}
	if st.Ghost["heading"] == "" {
		o.bad("truncated", in.Pos(), "entries are dropped from a list without a heading")
	}
	if !e.LE(st, h, g, 0) {
		o.bad("extended", in.Pos(), "dropped entries may get back to a list")
	}
	for _, x := range e.Origins(h) {
		if !sameIdx(e, st, x, g) && !o.isLevel(st, x, d) {
			o.bad("truncated", in.Pos(), "a list is not truncated to the levels above the heading")
		}
	}
	e.GhostAssign(st, gh, h)
	if gh == ghNodes {
		for _, k := range []string{"head", "parent", "grand", "attached"} {
			e.SetSlot(st, k, nil)
		}
		if st.Ghost["section"] != "" && e.LE(st, g, e.Ghost(ghHeadings), 0) {
			st.SetGhost("section", "")
		}
	}
}

func (o *outline) made(st *eng.State, gh string, n *eng.Term) {
	if st.Ghost["made "+gh] != "" {
		return
	}
	st.SetGhost("made "+gh, "1")
	o.e.GhostAssign(st, gh, n)
}

func (o *outline) loaded(st *eng.State, base, idx *eng.Term, elem types.Type, pos token.Pos) {
	e := o.e
	gh := ghNodes
	if isPtrTo(elem, o.heading) {
		gh = ghHeadings
	}
	n := e.Ghost(ghNodes)
	at := func(d int64) bool { return e.LE(st, idx, n, d) && e.LE(st, n, idx, -d) }
	v := e.Load(st, e.IndexAddr(base, idx, elem), elem)
	if gh == ghHeadings {
		o.tracked(st, base, gh, pos)
		if at(-1) {
			e.SetSlot(st, "head", v)
		}
		return
	}
	o.tracked(st, base, gh, pos)
	o.settle(st, pos)
	if first, ok := eng.ConstInt(idx); ok && first == 0 {
		// Nothing but the node of the file is put there, see sliced and stores.
		o.roots[v] = true
	}
	if at(-1) {
		e.SetSlot(st, "parent", v)
	} else if at(-2) && st.Ghost["pending"] != "" {
		e.SetSlot(st, "grand", v)
	}
}

func (o *outline) entered(st *eng.State, fn *ssa.Function, args []*eng.Term) {
	if fn.Signature.Recv() == nil || len(args) < 2 || !isPtrTo(fn.Params[0].Type(), o.node) {
		return
	}
	e := o.e
	for _, x := range args[1:] {
		for x.Kind == eng.KIface || x.Kind == eng.KConv {
			x = x.Args[0]
		}
		switch {
		case isPtrTo(x.Typ, o.link):
			o.c.Count("links added", 1)
			o.settle(st, fn.Pos())
			if st.Ghost["heading"] == "open" {
				o.bad("before-heading", fn.Pos(), "a link of a heading line is added to the section before it")
			}
			st.SetGhost("linked", "1")
			if st.Ghost["pending"] != "" {
				o.bad("detached", fn.Pos(), "a node may be not added to the node of its parent heading")
			}
			h, n := e.Ghost(ghHeadings), e.Ghost(ghNodes)
			if !e.LE(st, n, h, 1) || !e.LE(st, h, n, -1) {
				o.bad("tip-missing", fn.Pos(), "a link is added though some of open headings have no nodes")
			}
			if e.Slot(st, "parent") != args[0] {
				o.bad("tip", fn.Pos(), "a link is added not to the node of the last heading")
			}
		case isPtrTo(x.Typ, o.node):
			o.c.Count("nodes added to their parents", 1)
			o.settle(st, fn.Pos())
			want := "parent"
			if st.Ghost["pending"] != "" {
				if e.Slot(st, "pending") != x {
					o.bad("child", fn.Pos(), "a node that is not new is added to another node")
				}
				want = "grand"
				st.SetGhost("pending", "")
			} else {
				e.SetSlot(st, "attached", x)
			}
			if e.Slot(st, want) != args[0] {
				o.bad("parent", fn.Pos(), "a node is added not to the node of the enclosing heading")
			}
			e.SetSlot(st, "grand", nil)
		}
	}
}

func (c *Ctx) outlineOf(f *ssa.Function, heading types.Type) {
	e := c.Engine()
	o := &outline{c: c, e: e, name: relName(c.P, f), heading: heading, roots: map[*eng.Term]bool{}, props: -1}
	o.node = derefT(f.Signature.Results().At(0).Type())
	if S, ok := o.node.Underlying().(*types.Struct); ok {
		for i := 0; i < S.NumFields(); i++ {
			if in, ok := S.Field(i).Type().Underlying().(*types.Interface); ok && in.NumMethods() > 0 && types.Implements(types.NewPointer(heading), in) {
				o.props = i
			}
		}
	}
	for _, p := range f.Params {
		if isFilterT(p.Type()) {
			o.link = derefT(p.Type().Underlying().(*types.Signature).Params().At(0).Type())
		}
	}
	if o.props < 0 || o.link == nil {
		c.Missing("types of nodes and links of " + o.name)
		return
	}
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(o.name+" "+p.Name(), p.Type()))
	}
	strT := types.Typ[types.String]
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			switch {
			case ev.Name == "(*bufio.Scanner).Scan" || lineReaders[ev.Name]:
				if ev.St.Ghost["heading"] == "open" {
					o.bad("dropped", ev.Pos, "a heading may be not added to the list of open headings")
				}
				more, end := ev.St.Clone(), ev.St
				for _, s := range []*eng.State{more, end} {
					for _, k := range []string{"heading", "linked"} {
						s.SetGhost(k, "")
					}
					for _, k := range []string{"level", "head", "parent", "grand", "attached", "pending"} {
						e.SetSlot(s, k, nil)
					}
				}
				if lineReaders[ev.Name] {
					return nil, false
				}
				return []eng.Outcome{{St: more, Res: []*eng.Term{e.Bool(true)}}, {St: end, Res: []*eng.Term{e.Bool(false)}}}, true
			case ev.Name == "(*regexp.Regexp).FindStringSubmatch" || ev.Name == "(*regexp.Regexp).FindSubmatch":
				p, ok := patternOf(e, ev.Args[0])
				if !ok || !strings.Contains(p, "*") {
					return nil, false
				}
				g, n, ok := starGroup(p)
				if !ok {
					return nil, false
				}
				o.patterns++
				c.Count("tests for headings", 1)
				no, yes := ev.St.Clone(), ev.St
				m := e.Unknown(yes, "heading "+ev.SiteID, ev.Res[0])
				e.Assume(yes, e.Eq(m, e.Nil()), false)
				e.Assume(yes, e.Eq(e.Len(m), e.Int(int64(n+1))), true)
				l := e.Len(e.Load(yes, e.IndexAddr(m, e.Int(int64(g)), strT), strT))
				e.Assume(yes, e.Less(e.Int(0), l), true)
				if yes.Ghost["linked"] != "" {
					o.bad("after-links", ev.Pos, "links of a heading line are added to the section before it")
				}
				yes.SetGhost("heading", "open")
				e.SetSlot(yes, "level", l)
				return []eng.Outcome{{St: yes, Res: []*eng.Term{m}}, {St: no, Res: []*eng.Term{e.Nil()}}}, true
			}
			if ev.Callee == nil && !ev.Invoke && len(ev.Res) == 1 && isBoolT(ev.Res[0]) {
				other := ev.St.Clone()
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Bool(true)}}, {St: other, Res: []*eng.Term{e.Bool(false)}}}, true
			}
			return nil, false
		},
		OnInstr: func(st *eng.State, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.MakeSlice:
				if isListOf(in.Type(), o.heading) {
					o.made(st, ghHeadings, e.Val(st, in.Len))
				} else if isListOf(in.Type(), o.node) {
					o.made(st, ghNodes, e.Val(st, in.Len))
				}
			case *ssa.Slice:
				if isListOf(in.Type(), o.heading) || isListOf(in.Type(), o.node) {
					o.sliced(st, in)
				}
			case *ssa.UnOp:
				if ia, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL && (isListOf(ia.X.Type(), o.heading) || isListOf(ia.X.Type(), o.node)) {
					o.loaded(st, e.Val(st, ia.X), e.Val(st, ia.Index), in.Type(), in.Pos())
				}
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok || !isPtrTo(in.Val.Type(), o.heading) && !isPtrTo(in.Val.Type(), o.node) {
					return
				}
				if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
					return
				}
				n, ok := eng.ConstInt(e.Val(st, ia.Index))
				if !ok || n != 0 || !isPtrTo(in.Val.Type(), o.node) {
					o.bad("replaced", in.Pos(), "an entry of a list is replaced")
					return
				}
				o.roots[e.Val(st, in.Val)] = true
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			for _, x := range []*eng.Term{base, tail} {
				if isListOf(x.Typ, o.heading) || isListOf(x.Typ, o.node) {
					o.appended(st, base, tail, x.Typ, pos)
					return
				}
			}
		},
		OnEnter: o.entered,
	})
	e.GhostSet(st, ghHeadings, 0)
	e.GhostSet(st, ghNodes, 0)
	for _, x := range e.Run(f, st, args, nil, "outline "+o.name) {
		if x.Panic {
			continue
		}
		c.Count("outcomes", 1)
		for _, t := range e.Origins(x.Res[0]) {
			if !o.roots[t] && t != e.Nil() {
				o.bad("root", f.Pos(), "the result is not the node of the file")
			}
		}
	}
	if o.patterns == 0 {
		c.Missing("pattern of headings of " + o.name)
	}
}

func ruleC15(c *Ctx) {
	c.Rule = "Extraction of links from outlines is interpreted with lengths of the lists of open headings and their nodes: a heading is put to the position of its level after dropping that and lower levels, missing levels are padded, nodes of finished sections are dropped before nodes are used, a node is made for the next open heading and added to the node of the enclosing one, a link is added to the node of the last heading, after the heading on its line."
	n := 0
	for _, f := range c.P.extractors("Extract") {
		if obj, ok := f.Object().(*types.Func); ok {
			if g := c.P.Prog.FuncValue(obj); g != nil {
				f = g
			}
		}
		var heading types.Type
		own := fnPkg(f)
		for _, T := range c.P.moduleNamed() {
			if nt, ok := T.(*types.Named); !ok || nt.Obj().Pkg() != own {
				continue
			}
			if S, _ := numbered(T); S == nil || !allocates(c, f, T, map[*ssa.Function]bool{}) {
				continue
			}
			if N, ok := derefStruct(f.Signature.Results().At(0).Type()); ok {
				for i := 0; i < N.NumFields(); i++ {
					if in, ok := N.Field(i).Type().Underlying().(*types.Interface); ok && in.NumMethods() > 0 && types.Implements(types.NewPointer(T), in) {
						heading = T
					}
				}
			}
		}
		if heading == nil {
			continue
		}
		n++
		c.outlineOf(f, heading)
	}
	if n == 0 {
		c.Missing("extraction of links with headings")
		return
	}
	c.Need("tests for headings", 1)
	c.Need("entries of the list of headings", 2)
	c.Need("entries of the list of nodes", 2)
	c.Need("truncations of lists", 2)
	c.Need("links added", 1)
	c.Need("nodes added to their parents", 1)
}

// allocates: the function or its callees in the package make objects of the type.
func allocates(c *Ctx, f *ssa.Function, T types.Type, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && isPtrTo(a.Type(), T) {
				return true
			}
		}
	}
	for _, ed := range c.P.Graph().Edges[f] {
		if ed.To != nil && fnPkg(ed.To) == fnPkg(f) && allocates(c, ed.To, T, seen) {
			return true
		}
	}
	return false
}
