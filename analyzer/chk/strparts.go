package chk

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

// part of a text: a constant or a variable value.
type part struct {
	lit string
	t   *eng.Term // nil for constant text
	// strings.Join of a list whose elements are not known one by one
	list *eng.Term
	sep  string
	// the same for a text built by a loop
	elems [][]part
}

const maxTexts = 128

// texts expands a string into alternative sequences of constant and variable parts.
func texts(e *eng.Engine, st *eng.State, t *eng.Term) [][]part {
	return (&expander{e: e, st: st}).textsOf(t, 0)
}

// loopTexts is texts with a text that is extended by a loop represented as a joined list.
func loopTexts(e *eng.Engine, st *eng.State, t *eng.Term) [][]part {
	return (&expander{e: e, st: st, open: map[*eng.Term]bool{}}).textsOf(t, 0)
}

type expander struct {
	e    *eng.Engine
	st   *eng.State
	open map[*eng.Term]bool // texts of loops that are considered, nil if it is not necessary
}

// loop represents a text that is extended by a loop.
func (x *expander) loop(t *eng.Term, depth int) (r [][]part, ok bool) {
	if x.open[t] {
		return oneText(part{t: t}), true
	}
	x.open[t] = true
	defer delete(x.open, t)
	var base, step [][]part
	for _, in := range x.e.Incoming(t) {
		for _, s := range x.textsOf(in, depth+1) {
			n := 0
			for _, p := range s {
				if p.t == t {
					n++
				}
			}
			switch {
			case n == 0:
				base = append(base, s)
			case n == 1 && s[0].t == t:
				if len(s) > 1 {
					step = append(step, s[1:])
				}
			default:
				return nil, false
			}
		}
	}
	if len(base) == 0 || len(step) == 0 {
		return nil, false
	}
	sep := ""
	for _, s := range step {
		if s[0].t == nil {
			if sep != "" && sep != s[0].lit {
				return nil, false
			}
			sep = s[0].lit
		}
	}
	var elems [][]part
	for _, s := range step {
		if s[0].t == nil {
			s = s[1:]
		}
		if len(s) > 0 {
			elems = append(elems, s)
		}
	}
	if sep == "" {
		return nil, false
	}
	// a base may already have the first element
	var start, first [][]part
	for _, b := range base {
		if len(b) == 0 || len(b) == 1 && b[0].t == nil {
			start = append(start, b)
		} else {
			first = append(first, b)
		}
	}
	for _, b := range first {
		best := -1
		for i, s := range start {
			switch {
			case len(s) == 0 || s[0].lit == "":
				if best < 0 {
					best = i
				}
			case b[0].t == nil && strings.HasPrefix(b[0].lit, s[0].lit):
				best = i
			}
		}
		if best < 0 {
			return nil, false
		}
		el := b
		if s := start[best]; len(s) > 0 && s[0].lit != "" {
			el = append([]part(nil), b...)
			if el[0].lit = strings.TrimPrefix(el[0].lit, s[0].lit); el[0].lit == "" {
				el = el[1:]
			}
		}
		elems = append(elems, el)
	}
	return crossTexts(start, [][]part{{{t: t, list: t, sep: sep, elems: elems}}}), true
}

func oneText(p part) [][]part { return [][]part{{p}} }

func crossTexts(a, b [][]part) [][]part {
	var r [][]part
	for _, x := range a {
		for _, y := range b {
			if len(r) >= maxTexts {
				return r
			}
			z := append([]part(nil), x...)
			for _, p := range y {
				if n := len(z); p.t == nil && n > 0 && z[n-1].t == nil {
					z[n-1] = part{lit: z[n-1].lit + p.lit}
				} else {
					z = append(z, p)
				}
			}
			r = append(r, z)
		}
	}
	return r
}

func (x *expander) textsOf(t *eng.Term, depth int) [][]part {
	e, st := x.e, x.st
	if depth > 30 {
		return oneText(part{t: t})
	}
	switch t.Kind {
	case eng.KConst:
		if s, ok := eng.ConstStr(t); ok {
			return oneText(part{lit: s})
		}
	case eng.KConv, eng.KIface:
		if a := t.Args[0]; a.Typ == nil || isTextType(a.Typ) {
			return x.textsOf(a, depth+1)
		}
	case eng.KPhi:
		if x.open != nil {
			if r, ok := x.loop(t, depth); ok {
				return r
			}
		}
		in := e.Incoming(t)
		if len(in) > 0 && len(in) <= 8 {
			var r [][]part
			for _, y := range in {
				r = append(r, x.textsOf(y, depth+6)...)
			}
			if len(r) <= maxTexts {
				return r
			}
		}
	case eng.KBin:
		if len(t.Args) == 2 && t.Typ != nil && isTextType(t.Typ) {
			return crossTexts(x.textsOf(t.Args[0], depth+1), x.textsOf(t.Args[1], depth+1))
		}
	case eng.KCall:
		switch t.CalleeName() {
		case "fmt.Sprintf":
			f, ok := eng.ConstStr(t.Args[0])
			if !ok {
				if c := x.textsOf(t.Args[0], depth+1); len(c) == 1 && len(c[0]) == 1 && c[0][0].t == nil {
					f, ok = c[0][0].lit, true
				}
			}
			var el []*eng.Term
			exact := true
			if len(t.Args) > 1 && t.Args[1].Kind != eng.KNil {
				el, exact = e.Elems(st, t.Args[1])
			}
			if !ok || !exact {
				break
			}
			r := oneText(part{lit: ""})
			i := 0
			for len(f) > 0 {
				k := strings.IndexByte(f, '%')
				if k < 0 || k+1 >= len(f) {
					r = crossTexts(r, oneText(part{lit: f}))
					f = ""
					break
				}
				r = crossTexts(r, oneText(part{lit: f[:k]}))
				verb := f[k+1]
				f = f[k+2:]
				if verb == '%' {
					r = crossTexts(r, oneText(part{lit: "%"}))
					continue
				}
				if i >= len(el) {
					return oneText(part{t: t})
				}
				inner := el[i]
				i++
				for inner.Kind == eng.KIface {
					inner = inner.Args[0]
				}
				switch {
				case (verb == 's' || verb == 'v') && (inner.Typ == nil || isTextType(inner.Typ)):
					r = crossTexts(r, x.textsOf(inner, depth+1))
				case strings.IndexByte("sdvxXqt", verb) >= 0:
					r = crossTexts(r, oneText(part{t: e.Pure("formatted %"+string(verb), t.Typ, inner)}))
				default:
					return oneText(part{t: t}) // flags and width
				}
			}
			return r
		case "strings.Join":
			sep, ok := eng.ConstStr(t.Args[1])
			if !ok {
				break
			}
			if el, exact := e.Elems(st, t.Args[0]); exact {
				r := oneText(part{lit: ""})
				for i, y := range el {
					if i > 0 {
						r = crossTexts(r, oneText(part{lit: sep}))
					}
					r = crossTexts(r, x.textsOf(y, depth+1))
				}
				return r
			}
			return oneText(part{t: t, list: t.Args[0], sep: sep})
		case "strings.ReplaceAll", "strings.Replace":
			v, ok1 := eng.ConstStr(t.Args[0])
			o, ok2 := eng.ConstStr(t.Args[1])
			n, ok3 := eng.ConstStr(t.Args[2])
			if ok1 && ok2 && ok3 && t.CalleeName() == "strings.ReplaceAll" {
				return oneText(part{lit: strings.ReplaceAll(v, o, n)})
			}
		}
	case eng.KList, eng.KCat:
		// append([]byte(text), '\n') and append([]byte(text), more...)
		if t.Kind == eng.KCat {
			return crossTexts(x.textsOf(t.Args[0], depth+1), x.textsOf(t.Args[1], depth+1))
		}
		if t.Args[0] != nil {
			r := x.textsOf(t.Args[0], depth+1)
			for _, y := range t.Args[1:] {
				n, ok := eng.ConstInt(y)
				if !ok {
					return oneText(part{t: t})
				}
				r = crossTexts(r, oneText(part{lit: string([]byte{byte(n)})}))
			}
			return r
		}
	}
	return oneText(part{t: t})
}

// replaced: the value with every occurrence of the constant text replaced by a constant one.
func replaced(e *eng.Engine, st *eng.State, t *eng.Term) (v *eng.Term, old, new string, ok bool) {
	if t.Kind != eng.KCall {
		return
	}
	str := func(o, n *eng.Term) (string, string, bool) {
		old, ok1 := eng.ConstStr(o)
		new, ok2 := eng.ConstStr(n)
		return old, new, ok1 && ok2
	}
	switch t.CalleeName() {
	case "strings.Replace":
		if n, isConst := eng.ConstInt(t.Args[3]); !isConst || n >= 0 {
			return
		}
		fallthrough
	case "strings.ReplaceAll":
		old, new, ok = str(t.Args[1], t.Args[2])
		return t.Args[0], old, new, ok
	case "strings.Join":
		if s := t.Args[0]; s.Kind == eng.KCall && s.CalleeName() == "strings.Split" {
			old, new, ok = str(s.Args[1], t.Args[1])
			return s.Args[0], old, new, ok
		}
	case "(*strings.Replacer).Replace":
		r := t.Args[0]
		if r.Kind == eng.KInit && r.Args[0].Kind == eng.KGlobal {
			if c, isCall := e.GlobalInit(r.Args[0].Glob).(*ssa.Call); isCall && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "strings.NewReplacer" {
				if a := constElems(c.Call.Args[0]); len(a) == 2 {
					return t.Args[1], a[0], a[1], true
				}
			}
		}
		if r.Kind == eng.KCall && r.CalleeName() == "strings.NewReplacer" {
			if a, exact := e.Elems(st, r.Args[0]); exact && len(a) == 2 {
				old, new, ok = str(a[0], a[1])
				return t.Args[1], old, new, ok
			}
		}
	}
	return
}

// constElems: constant strings of the list of variadic arguments.
func constElems(v ssa.Value) []string {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	r := make([]string, arr.Len())
	n := 0
	for _, u := range *a.Referrers() {
		if x, isIdx := u.(*ssa.IndexAddr); isIdx {
			i, isConst := x.Index.(*ssa.Const)
			for _, w := range *x.Referrers() {
				st, isStore := w.(*ssa.Store)
				if !isStore || !isConst {
					return nil
				}
				c, isC := st.Val.(*ssa.Const)
				if !isC || c.Value == nil || c.Value.Kind() != constant.String {
					return nil
				}
				r[i.Int64()] = constant.StringVal(c.Value)
				n++
			}
		}
	}
	if n != len(r) {
		return nil
	}
	return r
}

// listParts gathers all elements a list built by appends may have; unknown is
// a part of the list that is not understood.
func listParts(e *eng.Engine, st *eng.State, l *eng.Term) (elems []*eng.Term, unknown *eng.Term) {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term)
	walk = func(t *eng.Term) {
		if t == nil || seen[t] || t.Kind == eng.KNil {
			return
		}
		seen[t] = true
		switch t.Kind {
		case eng.KList:
			walk(t.Args[0])
			elems = append(elems, t.Args[1:]...)
			return
		case eng.KCat:
			walk(t.Args[0])
			walk(t.Args[1])
			return
		case eng.KPhi:
			if in := e.Incoming(t); len(in) > 0 {
				for _, x := range in {
					walk(x)
				}
				return
			}
		case eng.KMake:
			if n, ok := eng.ConstInt(t.Args[0]); ok && n == 0 {
				return
			}
		}
		if el, exact := e.Elems(st, t); exact {
			elems = append(elems, el...)
			return
		}
		if unknown == nil {
			unknown = t
		}
	}
	walk(l)
	return
}
