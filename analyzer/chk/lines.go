package chk

import (
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C16"] = ruleC16 }

const ghLines = "lines read"

// numbered returns the index of the field with the line number of a type reported to clients.
func numbered(T types.Type) (*types.Struct, int) {
	st, ok := derefStruct(T)
	if !ok {
		return nil, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if jsonName(st, i) == "lineNo" {
			return st, i
		}
	}
	return nil, -1
}

var lineReaders = map[string]bool{
	"(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true,
}

// lineNumbers interprets an extractor with the number of read lines.
func (c *Ctx) lineNumbers(f *ssa.Function, stores map[ssa.Instruction]bool) {
	name := relName(c.P, f)
	e := c.Engine()
	st := eng.NewState()
	var args []*eng.Term
	src := map[*eng.Term]bool{}
	for _, p := range f.Params {
		a := e.Param(name+" "+p.Name(), p.Type())
		if isReader(p.Type()) {
			src[a] = true
		}
		args = append(args, a)
	}
	if f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.Assume(st, e.Eq(args[0], e.Nil()), false)
		}
	}
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	byLine := true
	reads := 0
	current := func(st *eng.State, v *eng.Term) bool { return sameIdx(e, st, v, e.Ghost(ghLines)) }
	check := func(st *eng.State, x *eng.Term, pos token.Pos) {
		if x.Typ == nil || x == e.Nil() {
			return
		}
		pt, ok := x.Typ.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		S, i := numbered(pt.Elem())
		if S == nil {
			return
		}
		if isnil, known := e.IsNil(st, x); known && isnil {
			return
		}
		c.Count("collected objects with line numbers", 1)
		v := e.Load(st, e.FieldAddr(x, pt.Elem(), i), S.Field(i).Type())
		if !current(st, v) {
			c.Violate("number:"+name+":"+typeName(pt.Elem()), pos, "%s collects a %s with the line number that is not the number of lines read", name, typeName(pt.Elem()))
		}
	}
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			var recv *eng.Term
			if len(ev.Args) > 0 {
				recv = strip(ev.Args[0])
			}
			switch {
			case ev.Name == "(*bufio.Scanner).Split":
				g := ev.Args[1]
				for g.Kind == eng.KConv {
					g = g.Args[0]
				}
				if g.Kind != eng.KFunc || g.Fn == nil || g.Fn.Object() == nil || g.Fn.Object().(*types.Func).FullName() != "bufio.ScanLines" {
					byLine = false
				}
				return []eng.Outcome{{St: ev.St}}, true
			case ev.Name == "(*bufio.Scanner).Scan":
				reads++
				more, end := ev.St.Clone(), ev.St
				e.GhostInc(more, ghLines, 1)
				return []eng.Outcome{{St: more, Res: []*eng.Term{e.Bool(true)}}, {St: end, Res: []*eng.Term{e.Bool(false)}}}, true
			case lineReaders[ev.Name]:
				reads++
				if v, ok := eng.ConstInt(ev.Args[1]); !ok || v != '\n' {
					byLine = false
				}
				var outs []eng.Outcome
				for _, good := range []bool{true, false} {
					o := outcome(e, ev, good)
					e.GhostInc(o.St, ghLines, 1)
					outs = append(outs, o)
				}
				return outs, true
			case ev.Name == "bufio.NewScanner" || rewrap[ev.Name]:
				return nil, false
			}
			if ev.Callee != nil && len(ev.Callee.Blocks) > 0 && c.P.InModule(pkgOf(ev.Callee)) {
				return nil, false
			}
			if ev.Callee == nil && !ev.Invoke && len(ev.Res) == 1 && types.Identical(ev.Res[0].Underlying(), types.Typ[types.Bool]) {
				// filters do not change line numbers, see below
				other := ev.St.Clone()
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Bool(true)}}, {St: other, Res: []*eng.Term{e.Bool(false)}}}, true
			}
			if recv != nil && src[recv] {
				c.Violate("unknown:"+name, ev.Pos, "%s passes the file to %s, lines can not be counted", name, ev.Name)
			}
			return nil, false
		},
		OnInstr: func(st *eng.State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				S, i := numbered(fa.X.Type())
				if S == nil || i != fa.Field {
					return
				}
				stores[in] = true
				v := e.Val(st, s.Val)
				if n, ok := eng.ConstInt(v); ok && n == 0 {
					return // the object is not collected before the number is set
				}
				c.Count("assignments of line numbers", 1)
				if !current(st, v) {
					c.Violate("value:"+name+":"+typeName(fa.X.Type()), s.Pos(), "%s assigns the line number that is not the number of lines read", name)
				}
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			if el, exact := e.Elems(st, tail); exact {
				for _, x := range el {
					check(st, x, pos)
				}
			}
		},
	})
	e.GhostSet(st, ghLines, 0)
	e.Run(f, st, args, nil, "lines "+name)
	c.Count("extractors", 1)
	if reads == 0 {
		c.Violate("reads:"+name, f.Pos(), "%s: reading of lines is not recognized", name)
	}
	if !byLine {
		c.Violate("lines:"+name, f.Pos(), "%s reads something else than lines, so it can not report their numbers", name)
	}
}

func typeName(T types.Type) string {
	s := derefT(T)
	if s == nil {
		s = T
	}
	n := types.TypeString(s, func(*types.Package) string { return "" })
	return strings.TrimPrefix(n, "*")
}

func ruleC16(c *Ctx) {
	c.Rule = "Extractors are interpreted with a counter of lines read from the file: each assigned line number and the line number of each collected link or heading is that counter. No other code assigns line numbers of links and headings."
	stores := map[ssa.Instruction]bool{}
	src := c.P.extractors("Extract")
	for _, f := range src {
		if obj, ok := f.Object().(*types.Func); ok {
			if g := c.P.Prog.FuncValue(obj); g != nil {
				f = g
			}
		}
		c.lineNumbers(f, stores)
	}
	c.Need("extractors", 2)
	c.Need("assignments of line numbers", 3)
	c.Need("collected objects with line numbers", 3)
	if len(src) == 0 {
		return
	}
	own := fnPkg(src[0])
	for _, f := range c.P.ModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || stores[in] {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				S, i := numbered(fa.X.Type())
				if S == nil || i != fa.Field {
					continue
				}
				pt := derefT(fa.X.Type())
				if n, ok := pt.(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != own {
					continue
				}
				c.Violate("elsewhere:"+relName(c.P, f), s.Pos(), "%s changes the line number of a %s", relName(c.P, f), typeName(pt))
			}
		}
	}
}
