package chk

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// Debug prints statistics.
var Debug = os.Getenv("BURLCHECK_DEBUG") != ""

// Server is the backend as it is configured when it starts to serve requests.
type Server struct {
	c        *Ctx
	E        *eng.Engine
	Inits    []*eng.State // states at registration
	Recv     []*eng.Term
	T        types.Type
	Service  string
	Methods  map[string]*ssa.Function // suitable RPC methods by name
	Names    []string
	negative map[*eng.Term]bool   // integers that were formatted when they might be negative
	Flags    map[string]*eng.Term // targets of command line options
	runs     int
	Mutable  []*eng.Term // fields of the service object written by requests outside of sync.Once
}

const backendPkg = "cmd/burl_backend"

// reaches computes module functions that may call one of the named functions.
func (p *Program) reaching(targets map[string]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	fns := p.ModuleFuncs()
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if r[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if cal := call.Common().StaticCallee(); cal != nil {
							if r[cal] || targets[eng.FuncName(cal)] {
								hit = true
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if g, ok := mc.Fn.(*ssa.Function); ok && r[g] {
							hit = true
						}
					}
				}
			}
			if hit {
				r[f] = true
				changed = true
			}
		}
	}
	return r
}

// mainFunc is the main function of a command.
func (p *Program) mainFunc(rel string) *ssa.Function { return p.Func(rel, "main") }

// Server interprets the start of the backend till its service is registered;
// states with different values of the named options are kept apart.
func (c *Ctx) Server(split ...string) *Server {
	main := c.P.mainFunc(backendPkg)
	if main == nil {
		c.Missing("main of " + backendPkg)
		return nil
	}
	s := &Server{c: c, E: c.Engine(), Methods: map[string]*ssa.Function{}, Flags: map[string]*eng.Term{}}
	install := c.P.reaching(map[string]bool{"os.Rename": true, "io/ioutil.TempFile": true, "os.CreateTemp": true})
	serve := c.P.reaching(map[string]bool{"net/rpc.RegisterName": true, "net/rpc.Register": true, "(*net/rpc.Server).RegisterName": true, "(*net/rpc.Server).Register": true})
	s.E.SetHooks(&eng.Hooks{
		Boundary: func(f *ssa.Function) bool { return install[f] && !serve[f] },
		OnCall: func(ev *eng.CallEvent) {
			// BoolVar(p, name, value, usage) and similar functions
			n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
			if n == ev.Name || !strings.HasSuffix(n, "Var") {
				return
			}
			a := ev.Args
			if strings.HasPrefix(ev.Name, "(") && len(a) > 0 {
				a = a[1:]
			}
			if len(a) > 1 {
				if name, ok := eng.ConstStr(a[1]); ok {
					s.Flags[name] = a[0]
					for _, x := range split {
						if x == name {
							s.E.Watch = append(s.E.Watch, a[0])
						}
					}
				}
			}
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			switch ev.Name {
			case "(*flag.FlagSet).Bool", "(*flag.FlagSet).String", "flag.Bool", "flag.String":
				a := ev.Args
				if strings.HasPrefix(ev.Name, "(") {
					a = a[1:]
				}
				if name, ok := eng.ConstStr(a[0]); ok && len(res) == 1 {
					s.Flags[name] = res[0]
				}
			}
		},
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			var recv, name *eng.Term
			switch ev.Name {
			case "net/rpc.RegisterName":
				name, recv = ev.Args[0], ev.Args[1]
			case "net/rpc.Register":
				recv = ev.Args[0]
			case "(*net/rpc.Server).RegisterName":
				name, recv = ev.Args[1], ev.Args[2]
			case "(*net/rpc.Server).Register":
				recv = ev.Args[1]
			default:
				return nil, false
			}
			if recv.Kind != eng.KIface {
				c.Violate("anchor:service object", ev.Pos, "registered service object is not known: %v", recv)
				return nil, true
			}
			if name != nil {
				s.Service, _ = eng.ConstStr(name)
			} else if n := namedOf(recv.Typ); n != nil {
				s.Service = n.Obj().Name()
			}
			s.T = recv.Typ
			s.Inits = append(s.Inits, ev.St.Clone())
			s.Recv = append(s.Recv, recv.Args[0])
			return nil, true // registration and serving end the scenario
		},
	})
	s.E.Run(main, eng.NewState(), nil, nil, "main")
	if len(s.Inits) == 0 || s.Service == "" {
		c.Missing("registration of the RPC service in main of " + backendPkg)
		return nil
	}
	s.setup()
	return s
}

// setup finds operations of the service.
func (s *Server) setup() {
	c := s.c
	// operations that are not in the table of published names can not be reached (C03)
	pub := map[string]bool{"Hello": true, "Capture": true, "Visit": true, "UrlMentions": true, "LinkSet": true}
	if m, ok := methodTable(c.P, s.Service); ok {
		for _, v := range m {
			pub[strings.TrimPrefix(v, s.Service+".")] = true
		}
	}
	ms := c.P.Prog.MethodSets.MethodSet(s.T)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		if !f.Exported() || sig.Params().Len() != 2 || sig.Results().Len() != 1 || !eng.IsErrorType(sig.Results().At(0).Type()) {
			continue
		}
		if _, ok := sig.Params().At(1).Type().(*types.Pointer); !ok {
			continue
		}
		fn := c.P.Prog.MethodValue(ms.At(i))
		if fn == nil {
			continue
		}
		s.Methods[f.Name()] = fn
		if pub[f.Name()] {
			s.Names = append(s.Names, f.Name())
		}
	}
	sort.Strings(s.Names)
	s.E.OnceExact = true
	s.E.Watch = nil
	s.findMutable()
	c.Count("RPC methods", len(s.Names))
	c.Count("start configurations", len(s.Inits))
}

func namedOf(T types.Type) *types.Named {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, _ := T.(*types.Named)
	return n
}

// Params of a handler.
func (s *Server) query(name string) *eng.Term {
	fn := s.Methods[name]
	return s.E.Param("query of "+name, fn.Signature.Params().At(0).Type())
}

func (s *Server) reply(name string) *eng.Term {
	fn := s.Methods[name]
	return s.E.Param("reply of "+name, fn.Signature.Params().At(1).Type())
}

func (s *Server) noteFormatted(ev *eng.CallEvent) {
	e := s.E
	var l []*eng.Term
	for _, a := range ev.Args {
		if el, exact := e.Elems(ev.St, a); exact && a.Kind != eng.KConst {
			l = append(l, el...)
		}
		l = append(l, a)
	}
	for _, t := range l {
		if t.Kind == eng.KIface {
			t = t.Args[0]
		}
		if t.Typ == nil {
			continue
		}
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !e.LE(ev.St, e.Int(0), t, 0) {
			if s.negative == nil {
				s.negative = map[*eng.Term]bool{}
			}
			s.negative[t] = true
		}
	}
}

// Result is an outcome of a handler run.
type Result struct {
	eng.Outcome
	Query, Reply *eng.Term
	Init         int // number of the start state
}

// Run interprets a handler from all start states.
func (s *Server) Run(name string, h *eng.Hooks) []Result {
	fn := s.Methods[name]
	q, r := s.query(name), s.reply(name)
	inner := h.Model
	hooks := *h
	hooks.Model = func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		if strings.HasPrefix(ev.Name, "fmt.Sprint") || strings.HasPrefix(ev.Name, "strconv.") {
			s.noteFormatted(ev)
		}
		if inner != nil {
			if o, ok := inner(ev); ok {
				return o, ok
			}
		}
		return nil, false
	}
	s.E.SetHooks(&hooks)
	var out []Result
	for i, st := range s.Inits {
		// terms of different runs have to be distinct
		s.runs++
		st = st.Clone()
		s.E.Assume(st, s.E.Eq(q, s.E.Nil()), false)
		s.E.Assume(st, s.E.Eq(r, s.E.Nil()), false)
		for _, a := range s.Mutable {
			s.E.HavocCell(st, a, "requests")
		}
		// the reply is a zero value created by net/rpc
		if p, ok := r.Typ.Underlying().(*types.Pointer); ok {
			s.E.StoreQuiet(st, r, s.E.Zero(p.Elem()), p.Elem())
		}
		start, steps := time.Now(), s.E.Steps
		for _, o := range s.E.Run(fn, st, []*eng.Term{s.Recv[i], q, r}, nil, fmt.Sprintf("handler %s %d", name, s.runs)) {
			out = append(out, Result{o, q, r, i})
		}
		if Debug {
			fmt.Fprintf(os.Stderr, "run %s from state %d/%d: %v, %d steps, %d outcomes\n", name, i, len(s.Inits), time.Since(start), s.E.Steps-steps, len(out))
		}
	}
	return out
}

// Tainted tells whether a value depends on the request.
func (s *Server) Tainted(st *eng.State, t *eng.Term, q *eng.Term) bool {
	return s.E.Reaches(st, t, func(x *eng.Term) bool { return x == q })
}

// jsonPath names the member of a request a term was loaded from, e.g. "data.url".
func (s *Server) jsonPath(t, q *eng.Term) (string, bool) {
	if t.Kind == eng.KConv && len(t.Args) == 1 {
		return s.jsonPath(t.Args[0], q)
	}
	if t.Kind != eng.KInit || len(t.Args) == 0 {
		return "", false
	}
	return addrPath(t.Args[0], q)
}

func addrPath(a, q *eng.Term) (string, bool) {
	if a == q {
		return "", true
	}
	switch a.Kind {
	case eng.KFieldAddr:
		base, ok := addrPath(a.Args[0], q)
		if !ok {
			return "", false
		}
		st, ok := derefStruct(a.Args[0].Typ)
		if !ok || a.N >= st.NumFields() {
			return "", false
		}
		n := jsonName(st, a.N)
		if n == "" {
			return base, true
		}
		if base != "" {
			n = base + "." + n
		}
		return n, true
	case eng.KIndexAddr:
		base, ok := addrPath(a.Args[0], q)
		if !ok && a.Args[0].Kind == eng.KInit {
			base, ok = addrPath(a.Args[0].Args[0], q)
		}
		return base + "[]", ok
	case eng.KInit:
		return addrPath(a.Args[0], q)
	}
	return "", false
}

func derefStruct(T types.Type) (*types.Struct, bool) {
	if T == nil {
		return nil, false
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	st, ok := T.Underlying().(*types.Struct)
	return st, ok
}

func jsonName(st *types.Struct, i int) string {
	tag := reflect.StructTag(st.Tag(i))
	if v, ok := tag.Lookup("json"); ok {
		n := strings.Split(v, ",")[0]
		if n == "-" {
			return "-"
		}
		if n != "" {
			return n
		}
	}
	if st.Field(i).Embedded() {
		return ""
	}
	return st.Field(i).Name()
}

// published maps client visible names to service methods: strings "Service.Method" written into maps of the backend.
func (s *Server) handlerOf(published ...string) (string, *ssa.Function) {
	m, _ := methodTable(s.c.P, s.Service)
	for _, p := range published {
		if v, ok := m[p]; ok {
			n := strings.TrimPrefix(v, s.Service+".")
			if fn := s.Methods[n]; fn != nil {
				return n, fn
			}
		}
	}
	for _, p := range published {
		for n, fn := range s.Methods {
			if strings.EqualFold(n, p[strings.LastIndexByte(p, '.')+1:]) {
				return n, fn
			}
		}
	}
	return "", nil
}

// methodTable collects constant entries stored to maps of strings in the backend whose values name service methods.
func methodTable(p *Program, service string) (map[string]string, bool) {
	m := map[string]string{}
	for _, f := range p.ModuleFuncs() {
		if fnPkg(f).Path() != p.Mod+"/"+backendPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok {
					k, v := ssaStr(u.Key), ssaStr(u.Value)
					if k != nil && v != nil && strings.HasPrefix(*v, service+".") {
						m[*k] = *v
					}
				}
			}
		}
	}
	return m, len(m) > 0
}

func ssaStr(v ssa.Value) *string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		s := constant.StringVal(c.Value)
		return &s
	}
	return nil
}

// findMutable collects fields of the service object changed while requests are served,
// except by functions executed through sync.Once.
func (s *Server) findMutable() {
	seen := map[*eng.Term]bool{}
	own := fnPkg(s.Methods[s.Names[0]])
	for _, n := range s.Names {
		// fields of the object can be changed only by its package
		s.Run(n, &eng.Hooks{Boundary: func(f *ssa.Function) bool { return fnPkg(f) != own }, OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if strings.Contains(at, "!once") {
				return
			}
			for _, r := range s.Recv {
				if eng.Root(addr) == r && addr.Kind == eng.KFieldAddr && !seen[addr] {
					seen[addr] = true
					s.Mutable = append(s.Mutable, addr)
				}
			}
		}})
	}
}

// execOnly is a boundary that skips code which can not start processes.
func (s *Server) execOnly() func(f *ssa.Function) bool {
	r := s.c.P.Graph().CanReach(func(n string) bool {
		return execMake[n] != 0 || n == "os/exec.Command" || execRaw[n] || strings.HasPrefix(n, "(*os/exec.Cmd).")
	})
	own := fnPkg(s.Methods[s.Names[0]])
	return func(f *ssa.Function) bool { return fnPkg(f) != own && !r[f] && !pureGetter(f) }
}

// pureGetter: small functions without calls are always interpreted.
func pureGetter(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n <= 12 && len(f.Blocks) == 1
}
