package chk

import (
	"go/types"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// CallGraph is a conservative call graph of the module: calls through interfaces lead to all
// methods of module types implementing them, calls of function values to all functions of the
// same signature whose address is taken. Library functions are leaves; functions given to them
// are considered to be called at the same place.
type CallGraph struct {
	p     *Program
	Edges map[*ssa.Function][]Edge
	taken []*ssa.Function
}

// Edge is a call site.
type Edge struct {
	Site ssa.CallInstruction
	To   *ssa.Function // nil: library function or unknown
	Name string        // name of a library function
}

// Graph builds the call graph.
func (p *Program) Graph() *CallGraph {
	if p.graph != nil {
		return p.graph
	}
	g := &CallGraph{p: p, Edges: map[*ssa.Function][]Edge{}}
	p.graph = g
	fns := p.ModuleFuncs()
	isTaken := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && (*op != callee || isArg(in, fn)) {
						isTaken[fn] = true
					}
				}
			}
		}
	}
	for fn := range isTaken {
		g.taken = append(g.taken, fn)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g.Edges[f] = append(g.Edges[f], g.targets(call)...)
			}
		}
	}
	return g
}

func isArg(in ssa.Instruction, fn *ssa.Function) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return true
	}
	for _, a := range c.Common().Args {
		if a == fn {
			return true
		}
	}
	return false
}

func (g *CallGraph) targets(call ssa.CallInstruction) []Edge {
	c := call.Common()
	var l []Edge
	if c.IsInvoke() {
		l = append(l, Edge{call, nil, c.Method.FullName()})
		for _, T := range g.p.moduleNamed() {
			for _, use := range []types.Type{T, types.NewPointer(T)} {
				I := c.Value.Type().Underlying().(*types.Interface)
				if !types.Implements(use, I) {
					continue
				}
				if fn := g.p.Prog.LookupMethod(use, c.Method.Pkg(), c.Method.Name()); fn != nil {
					l = append(l, Edge{call, fn, eng.FuncName(fn)})
				}
			}
		}
		return l
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if fn := c.StaticCallee(); fn != nil {
		l = append(l, Edge{call, fn, eng.FuncName(fn)})
		if len(fn.Blocks) == 0 {
			for _, a := range c.Args {
				for _, t := range g.values(a) {
					l = append(l, Edge{call, t, eng.FuncName(t)})
				}
			}
		}
		return l
	}
	l = append(l, Edge{call, nil, ""})
	for _, fn := range g.taken {
		if types.Identical(sigOf(fn), c.Signature()) {
			l = append(l, Edge{call, fn, eng.FuncName(fn)})
		}
	}
	return l
}

func sigOf(fn *ssa.Function) types.Type {
	s := fn.Signature
	if s.Recv() != nil {
		return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
	}
	return s
}

// values lists functions a value may be: closures, functions and (for other values) all of its type.
func (g *CallGraph) values(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return g.values(x.X)
	}
	if sig, ok := v.Type().Underlying().(*types.Signature); ok {
		var l []*ssa.Function
		for _, fn := range g.taken {
			if types.Identical(sigOf(fn), sig) {
				l = append(l, fn)
			}
		}
		return l
	}
	return nil
}

func (p *Program) moduleNamed() []types.Type {
	if p.named != nil {
		return p.named
	}
	for _, x := range p.Pkgs {
		sc := x.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if _, isI := nt.Underlying().(*types.Interface); !isI {
						p.named = append(p.named, nt)
					}
				}
			}
		}
	}
	return p.named
}

// Reach lists functions reachable from the roots; stop prunes.
func (g *CallGraph) Reach(roots []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || stop != nil && stop(f) {
			return
		}
		seen[f] = true
		for _, e := range g.Edges[f] {
			walk(e.To)
		}
		for _, a := range f.AnonFuncs {
			_ = a
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// CanReach lists module functions that may call a library function accepted by pred.
func (g *CallGraph) CanReach(pred func(name string) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f, es := range g.Edges {
			if r[f] {
				continue
			}
			for _, e := range es {
				if e.To != nil && r[e.To] || pred(e.Name) {
					r[f] = true
					changed = true
					break
				}
			}
		}
	}
	return r
}
