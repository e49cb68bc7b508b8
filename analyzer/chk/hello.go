package chk

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"
)

func init() { Rules["C24"] = ruleC24 }

// cells finds addresses below root whose type satisfies pred.
func (s *Server) cells(root *eng.Term, pred func(T types.Type) bool) []*eng.Term {
	var out []*eng.Term
	var walk func(a *eng.Term, T types.Type, depth int)
	walk = func(a *eng.Term, T types.Type, depth int) {
		if pred(T) {
			out = append(out, a)
			return
		}
		if str, ok := T.Underlying().(*types.Struct); ok && depth < 4 {
			for i := 0; i < str.NumFields(); i++ {
				walk(s.E.FieldAddr(a, T, i), str.Field(i).Type(), depth+1)
			}
		}
	}
	if p, ok := root.Typ.Underlying().(*types.Pointer); ok {
		walk(root, p.Elem(), 0)
	}
	return out
}

// isSourceList: a slice of objects with methods Name and Extract.
func (p *Program) isSourceList(T types.Type) bool {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	it, ok := sl.Elem().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i).Name(); m == "Name" || m == "Extract" {
			n++
		}
	}
	return n == 2
}

// sources is the configured list of source files of start state i.
func (s *Server) sources(st *eng.State, i int) *eng.Term {
	l := s.cells(s.Recv[i], s.c.P.isSourceList)
	if len(l) != 1 {
		return nil
	}
	return s.E.Load(st, l[0], l[0].Typ.Underlying().(*types.Pointer).Elem())
}

// flagTruth is the known value of a boolean option.
func (s *Server) flagTruth(st *eng.State, name string) (bool, bool) {
	p := s.Flags[name]
	if p == nil {
		return false, false
	}
	// facts about any load: the value does not change after options are parsed
	val, known := false, false
	for _, f := range s.E.Facts(st) {
		if (f.T.Kind == eng.KInit || f.T.Kind == eng.KOpaque) && len(f.T.Args) > 0 && f.T.Args[0] == p {
			if known && val != f.Val {
				return false, false
			}
			val, known = f.Val, true
		}
	}
	return val, known
}

// sibling is the term of another JSON member of the structure a term was loaded from.
func (s *Server) sibling(st *eng.State, t *eng.Term, name string) (own string, other *eng.Term) {
	for t.Kind == eng.KConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	var T types.Type
	var get func(i int) *eng.Term
	var n int
	switch {
	case t.Kind == eng.KField:
		T, n = t.Args[0].Typ, t.N
		get = func(i int) *eng.Term { return s.E.FieldOf(st, t.Args[0], T, i) }
	case t.Kind == eng.KInit && t.Args[0].Kind == eng.KFieldAddr:
		fa := t.Args[0]
		if fa.Args[0].Typ == nil {
			return "", nil
		}
		T, n = derefT(fa.Args[0].Typ), fa.N
		get = func(i int) *eng.Term {
			a := s.E.FieldAddr(fa.Args[0], T, i)
			return s.E.Load(st, a, derefT(a.Typ))
		}
	default:
		return "", nil
	}
	str, ok := T.Underlying().(*types.Struct)
	if !ok || n >= str.NumFields() {
		return "", nil
	}
	own = jsonName(str, n)
	for i := 0; i < str.NumFields(); i++ {
		if jsonName(str, i) == name {
			other = get(i)
		}
	}
	return
}

// errOutcome classifies the error result: definitely an error, or possibly success.
func (s *Server) maySucceed(o Result) bool {
	if o.Panic || len(o.Res) == 0 {
		return false
	}
	n, known := s.E.IsNil(o.St, o.Res[len(o.Res)-1])
	return !known || n
}

func (s *Server) replyCell(name, member string) *eng.Term {
	r := s.reply(name)
	p := r.Typ.Underlying().(*types.Pointer)
	str, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < str.NumFields(); i++ {
		if jsonName(str, i) == member {
			return s.E.FieldAddr(r, p.Elem(), i)
		}
	}
	return nil
}

func (s *Server) loadCell(st *eng.State, a *eng.Term) *eng.Term {
	return s.E.Load(st, a, derefT(a.Typ))
}

func ruleC24(c *Ctx) {
	c.Rule = "The handler of hello is interpreted abstractly with an arbitrary request from every start configuration, partitioned by the announced capabilities; on every path that may report success the format must be the constant \"org-protocol\", the version must be a non-empty member \"version\" of an element of formats whose member \"format\" is known to be \"org-protocol\" when it is selected, and the capabilities must be exactly visit and urlMentions if the list of sources is known to be non-empty, none if it is known to be empty, and linkSet in addition exactly if the option -disable-link-set is known to be off."
	s := c.Server("disable-link-set")
	if s == nil {
		return
	}
	e := s.E
	name, fn := s.handlerOf("hello", "linkremark.hello", "burl.hello")
	if fn == nil {
		c.Missing("handler of hello")
		return
	}
	format, version, caps := s.replyCell(name, "format"), s.replyCell(name, "version"), s.replyCell(name, "capabilities")
	if format == nil || version == nil || caps == nil {
		c.Missing("members of the hello reply")
		return
	}
	if s.Flags["disable-link-set"] == nil {
		c.Missing("option -disable-link-set")
		return
	}
	e.Watch = append(e.Watch, caps)
	pos := fn.Pos()
	for _, o := range s.Run(name, &eng.Hooks{}) {
		if !s.maySucceed(o) {
			c.Count("failing outcomes", 1)
			continue
		}
		c.Count("successful outcomes", 1)
		if f, ok := eng.ConstStr(s.loadCell(o.St, format)); !ok || f != "org-protocol" {
			c.Violate("format", pos, "hello may succeed with format %v instead of org-protocol", s.loadCell(o.St, format))
		}
		v := s.loadCell(o.St, version)
		if empty, known := e.Truth(o.St, e.Eq(v, e.Str(""))); !known || empty {
			c.Violate("version-empty", pos, "hello may succeed with an empty version")
		}
		for _, or := range e.OriginsWith(o.St, v) {
			if x, ok := eng.ConstStr(or.T); ok && x == "" {
				continue // excluded above
			}
			c.Count("version origins", 1)
			own, other := s.sibling(o.St, or.T, "format")
			ok := false
			if own == "version" && other != nil {
				if p, okp := s.jsonPathAny(or.T, o.Query); okp && strings.HasPrefix(p, "formats[]") {
					for _, f := range or.Facts {
						if f.Val && f.T == e.Eq(other, e.Str("org-protocol")) {
							ok = true
						}
					}
				}
			}
			if !ok {
				c.Violate("version-origin", pos, "hello may succeed with version %v that is not known to be offered for the org-protocol format", or.T)
			}
		}
		el, exact := e.Elems(o.St, s.loadCell(o.St, caps))
		set := map[string]bool{}
		for _, x := range el {
			k, ok := eng.ConstStr(x)
			if !ok || set[k] {
				exact = false
			}
			set[k] = true
		}
		if !exact {
			c.Violate("capabilities-unknown", pos, "announced capabilities are not a fixed list: %v", s.loadCell(o.St, caps))
			continue
		}
		var l []string
		for k := range set {
			l = append(l, k)
		}
		sort.Strings(l)
		got := strings.Join(l, " ")
		srcs := s.sources(o.St, o.Init)
		if srcs == nil {
			c.Missing("list of sources of the service object")
			return
		}
		has, known := e.Truth(o.St, e.Less(e.Int(0), e.Len(srcs)))
		off, knownOff := s.flagTruth(o.St, "disable-link-set")
		c.Count("capability sets", 1)
		switch {
		case !known && got != "":
			c.Violate("sources-unknown:"+got, pos, "hello announces %q without knowing that a source file is configured", got)
		case !known:
			c.Violate("sources-unknown", pos, "hello announces nothing although source files may be configured")
		case !has && got != "":
			c.Violate("no-sources:"+got, pos, "hello announces %q without any source file", got)
		case !has:
		case !knownOff:
			c.Violate("linkset-unknown:"+got, pos, "hello announces %q independently of the option -disable-link-set", got)
		case off && got != "urlMentions visit", !off && got != "linkSet urlMentions visit":
			c.Violate("capabilities:"+got, pos, "hello announces %q when source files are configured and linkSet is disabled=%v", got, off)
		}
	}
	c.Need("successful outcomes", 2)
	c.Need("version origins", 1)
	c.Need("capability sets", 2)
	c.Assume = append(c.Assume, "net/rpc passes a zero reply", "the value of -disable-link-set is not changed after parsing options")
}

// jsonPathAny is jsonPath also for members selected from loaded structures.
func (s *Server) jsonPathAny(t, q *eng.Term) (string, bool) {
	if t.Kind == eng.KField {
		b, ok := s.jsonPathAny(t.Args[0], q)
		if !ok {
			return "", false
		}
		str, ok := t.Args[0].Typ.Underlying().(*types.Struct)
		if !ok || t.N >= str.NumFields() {
			return "", false
		}
		n := jsonName(str, t.N)
		if n == "" {
			return b, true
		}
		return b + "." + n, true
	}
	return s.jsonPath(t, q)
}

var _ = token.EQL
