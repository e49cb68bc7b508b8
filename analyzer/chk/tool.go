package chk

import (
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C25"] = ruleC25 }

// errResult is the index of the result of type error, -1 if there is no such result.
func errResult(res []types.Type) int {
	for i, T := range res {
		if T != nil && eng.IsErrorType(T) {
			return i
		}
	}
	return -1
}

func isStdout(e *eng.Engine, t *eng.Term) bool {
	for _, o := range e.Origins(t) {
		for o.Kind == eng.KIface || o.Kind == eng.KConv {
			o = o.Args[0]
		}
		if o.Kind == eng.KInit && o.Args[0].Kind == eng.KGlobal && o.Args[0].Glob.Name() == "Stdout" && o.Args[0].Glob.Pkg.Pkg.Path() == "os" {
			return true
		}
	}
	return false
}

func ruleC25(c *Ctx) {
	c.Rule = "The main function of the query tool is interpreted abstractly. Trees written to stdout must be results of the function that copies a tree with a filter, the tree must come from the sources, and the filter, interpreted with an arbitrary link, must accept only links whose URL equals an element of the list of equivalents of the URL argument (or any link if this list is known to be empty, i.e. there is no URL). Lines printed when prefixes are given must be keys of the set extracted for exactly the given prefixes. On every path that ends with status 0, errors of all functions reading sources must be known to be nil."
	main := c.P.mainFunc("cmd/burl_tool")
	vf := c.P.variantsFn()
	if main == nil {
		c.Missing("main of cmd/burl_tool")
		return
	}
	if vf == nil {
		c.Missing("UrlVariants")
		return
	}
	e := c.Engine()
	load := c.P.loaders()
	// functions reading sets of links
	for _, f := range c.P.extractors("ExtractSet") {
		load[f] = true
	}
	g := c.P.Graph()
	for changed := true; changed; {
		changed = false
		for f, es := range g.Edges {
			for _, ed := range es {
				if ed.To != nil && load[ed.To] && !load[f] {
					load[f] = true
					changed = true
				}
			}
		}
	}
	own := fnPkg(main)
	argT := func(t *eng.Term) bool {
		if t.Kind == eng.KCall && t.CalleeName() == "flag.Arg" && len(t.Args) == 1 {
			n, ok := eng.ConstInt(t.Args[0])
			return ok && n == 0
		}
		l, i, ok := elemRef(t)
		if !ok {
			return false
		}
		n, isConst := eng.ConstInt(i)
		return isConst && n == 0 && l.Kind == eng.KCall && l.CalleeName() == "flag.Args"
	}
	k := &collector{c: c, e: e, fn: vf, key: "burl_tool"}
	k.single = func(st *eng.State, u *eng.Term) bool { return argT(u) }
	k.emptyOK = true
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv {
			t = t.Args[0]
		}
		return t
	}
	all := func(t *eng.Term, pred func(x *eng.Term) bool) bool {
		n := 0
		for _, o := range e.Origins(t) {
			for _, x := range e.Origins(strip(o)) {
				if x.Kind == eng.KNil {
					continue
				}
				if !pred(x) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	loaded := map[*eng.Term]bool{}
	copied := map[*eng.Term]bool{}
	sets := map[*eng.Term]bool{}
	type filt struct {
		st *eng.State
		f  *eng.Term
		ev eng.CallEvent
	}
	var filters []filt
	isLoader := func(f *ssa.Function) bool { return f != nil && load[f] && fnPkg(f) != own }
	// cells bound to options
	options := map[*eng.Term]bool{}
	fromOption := func(st *eng.State, t *eng.Term) bool {
		return all(t, func(x *eng.Term) bool {
			if x.Kind == eng.KInit && options[x.Args[0]] {
				return true
			}
			for a := range options {
				if e.Load(st, a, derefT(a.Typ)) == x {
					return true
				}
			}
			return false
		})
	}
	e.SetHooks(&eng.Hooks{
		Boundary:    func(f *ssa.Function) bool { return fnPkg(f) != own && (load[f] || returnsTree(f) || f == vf) },
		Model:       k.model,
		OnBranch:    func(st *eng.State, in *ssa.If, taken bool) { k.branch(st) },
		OnAppend:    k.append,
		OnMapUpdate: func(st *eng.State, m, key, v *eng.Term, at string) { k.mapUpdate(st, m, key, v) },
		OnCall: func(ev *eng.CallEvent) {
			st := ev.St
			if n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag."); n == "Var" && n != ev.Name {
				a := ev.Args
				if strings.HasPrefix(ev.Name, "(") {
					a = a[1:]
				}
				options[strip(a[0])] = true
			}
			if ev.Name == "os.Exit" {
				if n, ok := eng.ConstInt(ev.Args[0]); ok && n != 0 {
					c.Count("failing exits", 1)
				} else {
					c.checkErrs(e, st, "burl_tool", ev.Pos)
				}
				return
			}
			if isLoader(ev.Callee) {
				c.Count("reads of sources", 1)
				for _, a := range ev.Args {
					if a.Typ != nil && isStringList(a.Typ) {
						c.Count("sets of prefixes", 1)
						if !fromOption(st, a) {
							c.Violate("prefixes:"+relName(c.P, main), ev.Pos, "links are extracted for other prefixes than given ones: %v", a)
						}
					}
				}
				return
			}
			if ev.Callee != nil && fnPkg(ev.Callee) != own && !load[ev.Callee] && returnsTree(ev.Callee) {
				for _, a := range ev.Args {
					if isFilterArg(a) {
						c.Count("filtered copies of the tree", 1)
						filters = append(filters, filt{st.Clone(), a, *ev})
						ok := false
						for _, x := range ev.Args {
							if all(x, func(o *eng.Term) bool { return loaded[o] }) {
								ok = true
							}
						}
						if !ok {
							c.Violate("tree:burl_tool", ev.Pos, "the filtered tree is not that of the sources")
						}
					}
				}
				return
			}
			// output
			switch {
			case strings.HasPrefix(ev.Name, "fmt.Fprint") && isStdout(e, ev.Args[0]), strings.HasPrefix(ev.Name, "fmt.Print"):
				c.Count("printed lines", 1)
				for i, a := range ev.Args {
					if strings.HasPrefix(ev.Name, "fmt.F") && i == 0 {
						continue
					}
					el, exact := e.Elems(st, a)
					if a.Kind == eng.KConst || a.Kind == eng.KNil {
						continue
					}
					if !exact {
						el = []*eng.Term{a}
					}
					for _, x := range el {
						x = strip(x)
						if x.Kind == eng.KConst {
							continue
						}
						if !all(x, func(o *eng.Term) bool {
							return e.Reaches(st, o, func(y *eng.Term) bool { return sets[y] })
						}) {
							c.Violate("print:burl_tool", ev.Pos, "something else than an extracted link is printed: %v", x)
						}
					}
				}
			case ev.Name == "(*encoding/json.Encoder).Encode" || strings.HasPrefix(ev.Name, "encoding/json.Marshal"):
				i := 0
				if strings.HasPrefix(ev.Name, "(") {
					i = 1
				}
				c.Count("encoded trees", 1)
				if !all(ev.Args[i], func(o *eng.Term) bool { return copied[o] }) {
					c.Violate("encode:burl_tool", ev.Pos, "something else than a filtered tree is reported: %v", ev.Args[i])
				}
			}
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			if ev.Callee == nil || len(res) == 0 {
				return
			}
			if isLoader(ev.Callee) {
				if strings.Contains(types.TypeString(ev.Res[0], nil), "map[string]") || isStringList(ev.Res[0]) {
					sets[res[0]] = true
				} else {
					loaded[res[0]] = true
				}
				if i := errResult(ev.Res); i >= 0 {
					st.Track["err"+ev.SiteID] = res[i]
				}
				return
			}
			if fnPkg(ev.Callee) == own || !returnsTree(ev.Callee) {
				return
			}
			for _, a := range ev.Args {
				if isFilterArg(a) || all(a, func(o *eng.Term) bool { return copied[o] }) {
					copied[res[0]] = true
				}
			}
		},
	})
	st := eng.NewState()
	k.start(st)
	n := 0
	for _, o := range e.Run(main, st, nil, nil, "burl_tool") {
		if o.Panic {
			continue
		}
		n++
		c.checkErrs(e, o.St, "burl_tool", main.Pos())
	}
	c.Count("successful outcomes", n)
	for _, f := range filters {
		k.checkFilter(f.st, f.f, f.ev.Pos, "burl_tool")
	}
	c.Need("successful outcomes", 1)
	c.Need("failing exits", 1)
	c.Need("reads of sources", 2)
	c.Need("sets of prefixes", 1)
	c.Need("filtered copies of the tree", 1)
	c.Need("filter outcomes", 2)
	c.Need("encoded trees", 1)
	c.Need("printed lines", 1)
}

// checkErrs demands that tracked errors are known to be nil.
func (c *Ctx) checkErrs(e *eng.Engine, st *eng.State, what string, pos token.Pos) {
	for k, t := range st.Track {
		if !strings.HasPrefix(k, "err") {
			continue
		}
		c.Count("errors known to be nil on success", 1)
		if n, known := e.IsNil(st, t); !known || !n {
			c.Violate("error:"+what, t.Pos, "%s may finish successfully though reading of sources failed", what)
		}
	}
}

// returnsTree: the only result of the function is a tree of links.
func returnsTree(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 || f.Signature.Recv() != nil {
		return false
	}
	str, ok := derefStruct(res.At(0).Type())
	if !ok {
		return false
	}
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "Node" || jsonName(str, i) == "children" {
			return true
		}
	}
	return false
}

func isStringList(T types.Type) bool {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}
