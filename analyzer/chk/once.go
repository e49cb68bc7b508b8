package chk

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C10"] = ruleC10 }

// extractors lists methods Extract of source types.
func (p *Program) extractors(method string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, T := range p.moduleNamed() {
		for _, X := range []types.Type{T, types.NewPointer(T)} {
			if !implementsNamed(p, X, "Name", "Extract", "ExtractSet") {
				continue
			}
			if f := p.Method(X, method); f != nil && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}

// loaders are functions that may build the tree of links of source files.
func (p *Program) loaders() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.extractors("Extract") {
		r[f] = true
	}
	if len(r) == 0 {
		return r
	}
	g := p.Graph()
	for changed := true; changed; {
		changed = false
		for f, es := range g.Edges {
			if r[f] {
				continue
			}
			for _, e := range es {
				if e.To != nil && r[e.To] {
					r[f] = true
					changed = true
				}
			}
		}
	}
	return r
}

func ruleC10(c *Ctx) {
	c.Rule = "All service methods are interpreted abstractly from every start configuration. Functions of other packages that may call Extract of a source (the loader) are called only inside a function executed by Do of one sync.Once that is a member of the service object and is never assigned; the members assigned by the function are assigned nowhere else and, outside of it, are read only on paths on which Do has returned, in the goroutine of the request; the loader gets the configured sources and no filter; a method that executed Do may succeed only if the error returned by the loader is known to be nil and its tree is known to be non-nil."
	s := c.Server()
	if s == nil {
		return
	}
	e := s.E
	load := c.P.loaders()
	if len(load) == 0 {
		c.Missing("methods Extract of sources")
		return
	}
	own := fnPkg(s.Methods[s.Names[0]])
	var names []string
	for n := range s.Methods {
		names = append(names, n)
	}
	sort.Strings(names)
	boundary := func(f *ssa.Function) bool { return fnPkg(f) != own && !pureGetter(f) || fnPkg(f) != own && load[f] }
	rootIdx := func(a *eng.Term) int {
		for i, r := range s.Recv {
			if eng.Root(a) == r {
				return i
			}
		}
		return -1
	}
	// first pass: cells assigned by once functions
	cells := map[*eng.Term]bool{}
	for _, n := range names {
		s.Run(n, &eng.Hooks{Boundary: boundary, OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if strings.Contains(at, "!once") && (rootIdx(addr) >= 0 || addr.Kind == eng.KGlobal) {
				cells[addr] = true
			}
		}})
	}
	for a := range cells {
		e.Watch = append(e.Watch, a)
	}
	sort.Slice(e.Watch, func(i, j int) bool { return e.Watch[i].String() < e.Watch[j].String() })
	onces := map[string]bool{}
	type result struct{ tree, err *eng.Term }
	loads := map[string]result{} // by site
	users := 0
	for _, n := range names {
		fn := s.Methods[n]
		uses := false
		check := func(ev *eng.CallEvent) {
			if ev.Callee == nil || !load[ev.Callee] || fnPkg(ev.Callee) == own {
				return
			}
			c.Count("calls of the loader", 1)
			if !strings.Contains(ev.SiteID+ev.Ctx, "!once") {
				c.Violate("outside-once:"+relName(c.P, ev.Fn), ev.Pos, "%s may load source files outside of the one-time initializer", relName(c.P, fn))
			}
			if ev.St.Ghost["go"] != "" {
				c.Violate("go:"+relName(c.P, ev.Fn), ev.Pos, "source files are loaded in another goroutine, %s may continue before loading has finished", relName(c.P, fn))
			}
			onces[ev.St.Ghost["once"]] = true
			okList := false
			for i := range s.Inits {
				if l := s.sources(ev.St, i); l != nil && len(ev.Args) > 0 && ev.Args[0] == l {
					okList = true
				}
			}
			if !okList {
				c.Violate("sources:"+relName(c.P, ev.Fn), ev.Pos, "the loader is called with %v instead of the list of configured sources", ev.Args[0])
			}
			for _, a := range ev.Args[1:] {
				if isNil, known := e.IsNil(ev.St, a); !known || !isNil {
					c.Violate("filter:"+relName(c.P, ev.Fn), ev.Pos, "the loader is called with a filter, loaded links would be incomplete for other requests")
				}
			}
		}
		hooks := &eng.Hooks{
			Boundary: boundary,
			OnCall: func(ev *eng.CallEvent) {
				check(ev)
				if ev.Name == "(*sync.Once).Do" {
					ev.St.SetGhost("did", "1")
					o := ev.Args[0]
					if i := rootIdx(o); i < 0 && o.Kind != eng.KGlobal || o.Kind == eng.KInit {
						c.Violate("once-object:"+relName(c.P, ev.Fn), ev.Pos, "sync.Once used by %s is not a member of the service object: %v", relName(c.P, fn), o)
					}
					if ev.St.Ghost["go"] != "" {
						ev.St.SetGhost("did", "")
					}
					name := fieldName(o)
					if o.Kind == eng.KGlobal {
						name = o.String()
					}
					ev.St.SetGhost("once", name)
				}
			},
			AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
				if ev.Callee == nil || !load[ev.Callee] {
					return
				}
				st.SetGhost("loaded:"+ev.SiteID, "1")
				r := result{}
				for _, t := range res {
					if eng.IsErrorType(t.Typ) {
						r.err = t
					} else {
						r.tree = t
					}
				}
				loads[ev.SiteID] = r
			},
			OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
				if strings.Contains(at, "!once") {
					return
				}
				if cells[addr] || addr.Kind == eng.KFieldAddr && cells[addr.Args[0]] {
					c.ViolateAt("rewritten:"+n+":"+fieldName(addr), "?", "%s assigns %v that is set by the one-time initializer", relName(c.P, fn), addr)
				}
				if isOnce(T) && rootIdx(addr) >= 0 {
					c.ViolateAt("once-assigned:"+n, "?", "%s assigns sync.Once, so files may be loaded again", relName(c.P, fn))
				}
			},
			OnLoad: func(st *eng.State, addr *eng.Term, pos token.Pos) {
				if !cells[addr] {
					return
				}
				uses = true
				c.Count("reads of loaded data", 1)
				if st.Ghost["did"] == "" {
					c.Violate("early-read:"+n+":"+fieldName(addr), pos, "%s reads %v on a path where the one-time initializer might be not finished", relName(c.P, fn), addr)
				}
			},
		}
		for _, o := range s.Run(n, hooks) {
			did := o.St.Ghost["did"] != ""
			if !s.maySucceed(o) {
				c.Count("failing outcomes", 1)
				continue
			}
			if !did {
				continue
			}
			c.Count("successful outcomes after loading", 1)
			any := false
			for k := range o.St.Ghost {
				if !strings.HasPrefix(k, "loaded:") {
					continue
				}
				any = true
				r := loads[strings.TrimPrefix(k, "loaded:")]
				if r.tree == nil || r.err == nil {
					c.Missing("results of the loader")
					continue
				}
				if isNil, known := e.IsNil(o.St, r.err); !known || !isNil {
					c.Violate("load-error:"+n, fn.Pos(), "%s may succeed though loading of source files has failed", relName(c.P, fn))
				}
				if isNil, known := e.IsNil(o.St, r.tree); !known || isNil {
					c.Violate("no-links:"+n, fn.Pos(), "%s may succeed though no link has been loaded", relName(c.P, fn))
				}
			}
			if !any {
				c.Violate("not-loaded:"+n, fn.Pos(), "%s may succeed after initialization that has not loaded source files", relName(c.P, fn))
			}
		}
		if uses {
			users++
		}
	}
	if len(onces) > 1 {
		c.ViolateAt("two-once", "?", "%d different sync.Once objects guard loading", len(onces))
	}
	// goroutines and deferred initialization
	for _, f := range c.P.ModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, ed := range c.P.Graph().targets(g) {
					if ed.To != nil && load[ed.To] {
						c.Violate("goroutine:"+relName(c.P, f), in.Pos(), "source files are loaded in a separate goroutine")
					}
				}
			}
		}
	}
	c.Count("methods using loaded data", users)
	c.Need("methods using loaded data", 1)
	c.Need("calls of the loader", 1)
	c.Need("reads of loaded data", 2)
	c.Need("successful outcomes after loading", 1)
	// the operation urlMentions is one of users
	if n, fn := s.handlerOf("linkremark.urlMentions", "burl.urlMentions"); fn == nil {
		c.Missing("handler of urlMentions")
	} else if users == 0 {
		c.Violate("unused:"+n, fn.Pos(), "urlMentions does not use loaded data")
	}
}

func isOnce(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Once"
}

func fieldName(a *eng.Term) string {
	if a.Kind == eng.KFieldAddr {
		if str, ok := derefStruct(a.Args[0].Typ); ok && a.N < str.NumFields() {
			return str.Field(a.N).Name()
		}
	}
	return "?"
}
