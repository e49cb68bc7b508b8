package chk

import (
	"go/token"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C12"] = ruleC12 }

func ruleC12(c *Ctx) {
	c.Rule = "The handler of urlMentions is interpreted abstractly with an arbitrary request. The function that copies the tree must get the loaded tree and a filter, the reply must be derived from its result only; when it is called all elements of variants have been handled (invariant 'the first g elements are empty or their UrlVariants are collected', g at least the length), the collected list or set has no other elements and nothing is dropped; the filter is interpreted with an arbitrary link: it may return true only if the URL of the link is known to be equal to a collected element, false only if it is known to differ from all of them; success requires a non-empty element. Copying of nodes: Clone of a node with links keeps exactly the links accepted by the filter (invariant over the list) and is nil exactly if there is none; in the copying function all children of a node are visited, the total of a new node starts from the number of its own links, and adding the total of a child to its parent and attaching the child to the same parent happen together and only for positive totals; no other code assigns totals."
	s := c.Server()
	if s == nil {
		return
	}
	e := s.E
	name, fn := s.handlerOf("linkremark.urlMentions", "burl.urlMentions")
	if fn == nil {
		c.Missing("handler of urlMentions")
		return
	}
	vf := c.P.variantsFn()
	if vf == nil {
		c.Missing("UrlVariants")
		return
	}
	q := s.query(name)
	own := fnPkg(fn)
	load := c.P.loaders()
	k := &collector{c: c, e: e, fn: vf, key: name}
	k.isList = func(l *eng.Term) bool {
		p, ok := s.jsonPath(l, q)
		return ok && p == "variants"
	}
	type filt struct {
		st  *eng.State
		f   *eng.Term
		pos token.Pos
	}
	var filters []filt
	derived := map[*eng.Term]bool{}
	loaded := map[*eng.Term]bool{}
	copiers := map[*ssa.Function]bool{}
	boundary := func(f *ssa.Function) bool { return fnPkg(f) != own && !pureGetter(f) || fnPkg(f) != own && load[f] }
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv {
			t = t.Args[0]
		}
		return t
	}
	hooks := &eng.Hooks{
		Boundary:    boundary,
		Model:       k.model,
		OnBranch:    func(st *eng.State, in *ssa.If, taken bool) { k.branch(st) },
		OnAppend:    k.append,
		OnMapUpdate: func(st *eng.State, m, key, v *eng.Term, at string) { k.mapUpdate(st, m, key, v) },
		OnCall: func(ev *eng.CallEvent) {
			if ev.Callee == nil || load[ev.Callee] || fnPkg(ev.Callee) == own {
				return
			}
			for _, a := range ev.Args {
				if a.Typ == nil && a.Fn == nil || !isFilterArg(a) {
					continue
				}
				copiers[ev.Callee] = true
				c.Count("filtered copies of the tree", 1)
				filters = append(filters, filt{ev.St.Clone(), a, ev.Pos})
				if !k.complete(ev.St) {
					c.Violate("incomplete:"+name, ev.Pos, "the tree is filtered though equivalents of some URLs of the request may be not collected")
				}
				okTree := false
				for _, x := range ev.Args {
					n := 0
					for _, o := range e.Origins(x) {
						for _, y := range e.Origins(strip(o)) {
							if loaded[y] {
								n++
							} else if y.Kind != eng.KNil {
								n -= 1000
							}
						}
					}
					if n > 0 {
						okTree = true
					}
				}
				if !okTree {
					c.Violate("tree:"+name, ev.Pos, "the filtered tree is not the loaded one: %v", ev.Args[0])
				}
			}
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			if ev.Callee == nil {
				return
			}
			if load[ev.Callee] && len(res) > 0 {
				loaded[res[0]] = true
				return
			}
			if fnPkg(ev.Callee) == own {
				return
			}
			for _, a := range ev.Args {
				if copiers[ev.Callee] && isFilterArg(a) || derived[strip(a)] {
					for _, r := range res {
						derived[r] = true
					}
				}
			}
		},
	}
	for _, st := range s.Inits {
		k.start(st)
	}
	r := s.reply(name)
	for _, o := range s.Run(name, hooks) {
		if !s.maySucceed(o) {
			c.Count("failing outcomes", 1)
			continue
		}
		c.Count("successful outcomes", 1)
		if o.St.Ghost["nonempty"] == "" {
			c.Violate("no-url", fn.Pos(), "urlMentions may succeed for a request without non-empty URL")
		}
		str, ok := derefStruct(r.Typ)
		if !ok {
			c.Missing("reply structure of urlMentions")
			continue
		}
		for i := 0; i < str.NumFields(); i++ {
			v := e.Load(o.St, e.FieldAddr(r, derefT(r.Typ), i), str.Field(i).Type())
			ok := false
			for _, x := range e.Origins(v) {
				ok = x.Kind == eng.KInit && derived[eng.Root(x.Args[0])] || x.Kind == eng.KField && derived[x.Args[0]]
				if !ok {
					break
				}
			}
			if !ok {
				c.Violate("reply:"+str.Field(i).Name(), fn.Pos(), "member %s of the reply is not that of the filtered tree: %v", str.Field(i).Name(), v)
			}
		}
	}
	for _, f := range filters {
		k.checkFilter(f.st, f.f, f.pos, "urlMentions")
	}
	c.Need("filtered copies of the tree", 1)
	c.Need("filter outcomes", 2)
	c.Need("successful outcomes", 1)
	c.Need("failing outcomes", 2)
	c.Need("calls of UrlVariants", 1)
	for f := range copiers {
		c.treeCopy(f)
	}
	c.cloneNodes()
}

func isFilterArg(a *eng.Term) bool {
	if a.Fn != nil {
		return isFilterT(a.Fn.Signature)
	}
	return a.Typ != nil && isFilterT(a.Typ)
}
