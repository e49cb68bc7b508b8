package chk

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C05"] = ruleC05 }

// stdout finds uses of the standard output.
type stdout struct {
	c       *Ctx
	globals map[*ssa.Global]bool // variables made from os.Stdout
	values  []*types.Signature   // of functions of libraries used as values
}

func isStdoutGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout"
}

// aliases are other names of the standard output.
var stdoutFiles = map[string]bool{"/dev/stdout": true, "/dev/fd/1": true, "/proc/self/fd/1": true}

// printers write to the standard output.
var printers = map[string]bool{"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true}

// harmless calls make values that still refer to the standard output or do not write.
var harmlessStdout = map[string]bool{
	"bufio.NewWriter": true, "bufio.NewWriterSize": true, "bufio.NewReadWriter": true, "io.MultiWriter": true, "encoding/json.NewEncoder": true,
	"log.New": true, "(*os.File).Fd": true, "(*os.File).Name": true, "(*os.File).Stat": true,
	"net/rpc/jsonrpc.NewServerCodec": true, "os.NewFile": true,
}

func isServe(name string) bool {
	return strings.HasPrefix(name, "net/rpc.Serve") || strings.HasPrefix(name, "(*net/rpc.Server).Serve")
}

func newStdout(c *Ctx) *stdout {
	s := &stdout{c: c, globals: map[*ssa.Global]bool{}}
	fns := c.P.ModuleFuncs()
	for _, p := range c.P.Prog.AllPackages() {
		if f := p.Func("init"); f != nil && c.P.InModule(p.Pkg) {
			fns = append(fns, f)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for g := range s.taint(f).globals {
				if !s.globals[g] && !isStdoutGlobal(g) {
					s.globals[g] = true
					changed = true
				}
			}
		}
	}
	return s
}

type tainted struct {
	values  map[ssa.Value]bool
	globals map[*ssa.Global]bool
	uses    []ssa.Instruction
}

// taint follows values made from the standard output inside of a function.
func (s *stdout) taint(f *ssa.Function) *tainted {
	t := &tainted{map[ssa.Value]bool{}, map[*ssa.Global]bool{}, nil}
	root := func(a ssa.Value) ssa.Value {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			default:
				return a
			}
		}
	}
	add := func(v ssa.Value) bool {
		if v == nil || t.values[v] {
			return false
		}
		t.values[v] = true
		return true
	}
	isFile := func(v ssa.Value) bool {
		k := ssaStr(v)
		return k != nil && stdoutFiles[*k]
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && (isStdoutGlobal(g) || s.globals[g]) {
						changed = add(x) || changed
						continue
					}
				case *ssa.Call:
					n := ""
					if fn := x.Common().StaticCallee(); fn != nil {
						n = eng.FuncName(fn)
					}
					if n == "os.NewFile" {
						if k, ok := unwrapConv(x.Call.Args[0]).(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
							changed = add(x) || changed
						}
					}
					if strings.HasPrefix(n, "os.Open") || n == "os.Create" {
						if isFile(x.Call.Args[0]) {
							changed = add(x) || changed
						}
					}
				case *ssa.Store:
					if !t.values[x.Val] {
						continue
					}
					switch r := root(x.Addr).(type) {
					case *ssa.Global:
						t.globals[r] = true
					default:
						changed = add(r) || changed
					}
					continue
				}
				used := false
				for _, op := range in.Operands(nil) {
					if *op != nil && t.values[*op] {
						used = true
					}
				}
				if v, ok := in.(ssa.Value); ok && used {
					if b, isBin := in.(*ssa.BinOp); isBin && b.Op != token.ADD {
						continue
					}
					changed = add(v) || changed
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil || !t.values[*op] {
					continue
				}
				switch in.(type) {
				case ssa.CallInstruction, *ssa.Store, *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
					t.uses = append(t.uses, in)
				}
			}
		}
	}
	return t
}

func unwrapConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		v = c.X
	}
}

// refers tells whether a value is made from the standard output.
func (s *stdout) refers(e *eng.Engine, st *eng.State, t *eng.Term, deep bool) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		switch t.Kind {
		case eng.KInit:
			if g := t.Args[0].Glob; t.Args[0].Kind == eng.KGlobal && g != nil && (isStdoutGlobal(g) || s.globals[g]) {
				return true
			}
		case eng.KBin, eng.KUn:
			return false
		case eng.KCall:
			n := t.CalleeName()
			if n == "os.NewFile" {
				if k, ok := eng.ConstInt(unconv(t.Args[0])); ok && k == 1 {
					return true
				}
			}
			if strings.HasPrefix(n, "os.Open") || n == "os.Create" {
				if k, ok := eng.ConstStr(t.Args[0]); ok && stdoutFiles[k] {
					return true
				}
				return false
			}
			if eng.IsErrorType(t.Typ) {
				return false
			}
		}
		if t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Basic); ok {
				return false
			}
		}
		for _, x := range t.Args {
			if walk(x) {
				return true
			}
		}
		for _, x := range e.Incoming(t) {
			if walk(x) {
				return true
			}
		}
		if t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Slice); ok {
				el, _ := e.Elems(st, t)
				for _, x := range el {
					if walk(x) {
						return true
					}
				}
			}
		}
		if deep {
			cells := e.Cells(st, t)
			keys := make([]*eng.Term, 0, len(cells))
			for a := range cells {
				keys = append(keys, a)
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
			for _, a := range keys {
				if walk(cells[a]) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

// writes tells whether a call may write to the standard output.
func (s *stdout) writes(e *eng.Engine, ev *eng.CallEvent) (string, bool) {
	if printers[ev.Name] {
		return ev.Name + " writes to the standard output", true
	}
	if strings.HasPrefix(ev.Name, "syscall.") || strings.HasPrefix(ev.Name, "golang.org/x/sys/") {
		switch n := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]; n {
		case "Write", "Sendfile", "Dup2", "Dup3", "Dup":
			for _, x := range ev.Args {
				if k, ok := eng.ConstInt(unconv(x)); ok && k == 1 {
					return ev.Name + " is called for the standard output", true
				}
			}
		case "Exec", "ForkExec", "StartProcess":
			return ev.Name + " may pass the standard output to another program", true
		}
	}
	if ev.Callee != nil && s.c.P.InModule(fnPkg(ev.Callee)) && len(ev.Callee.Blocks) > 0 {
		return "", false // is followed
	}
	if harmlessStdout[ev.Name] || isServe(ev.Name) || ev.Name == "" {
		return "", false
	}
	for _, x := range ev.Args {
		if s.refers(e, ev.St, x, true) {
			return "the standard output is passed to " + ev.Name, true
		}
	}
	return "", false
}

// stores tells whether the standard output is stored to an object of a library.
func (s *stdout) stores(e *eng.Engine, st *eng.State, addr, v *eng.Term) (string, bool) {
	base := addr
	for base.Kind == eng.KIndexAddr {
		base = base.Args[0]
	}
	if base.Kind != eng.KFieldAddr || !s.refers(e, st, v, false) {
		return "", false
	}
	T := base.Args[0].Typ
	if T == nil {
		return "", false
	}
	n := namedOf(T)
	if n == nil || n.Obj().Pkg() == nil || s.c.P.InModule(n.Obj().Pkg()) {
		return "", false
	}
	return "the standard output is stored in an object of the type " + n.String(), true
}

// calmPackages have functions that do not write to files they are not given.
var calmPackages = map[string]bool{
	"strings": true, "bytes": true, "sort": true, "slices": true, "maps": true, "errors": true, "strconv": true, "unicode": true,
	"unicode/utf8": true, "regexp": true, "math": true, "container/list": true, "container/heap": true, "sync": true,
}

// calm finds functions that need no interpretation: they have loops and neither
// they nor functions they may call write anything but log messages.
func (s *stdout) calm() func(f *ssa.Function) bool {
	g := s.c.P.Graph()
	own := map[*ssa.Function]bool{}
	ownCalm := func(f *ssa.Function) bool {
		if r, ok := own[f]; ok {
			return r
		}
		r := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					r = false
				}
			}
		}
		for _, ed := range g.Edges[f] {
			if ed.To != nil && len(ed.To.Blocks) != 0 && s.c.P.InModule(fnPkg(ed.To)) {
				continue
			}
			if cc := ed.Site.Common(); cc.StaticCallee() == nil {
				// unknown targets of a dynamic call
				if cc.IsInvoke() {
					if x := namedOf(cc.Value.Type()); x != nil && s.c.P.InModule(x.Obj().Pkg()) && !libraryMethods[cc.Method.Name()] {
						continue
					}
				} else if !s.borrowed(cc.Signature()) {
					continue
				}
			}
			pkg := ""
			if ed.To != nil && fnPkg(ed.To) != nil {
				pkg = fnPkg(ed.To).Path()
			}
			n := ed.Name
			if !(calmPackages[pkg] || strings.HasPrefix(n, "fmt.Sprint") || n == "fmt.Errorf" || strings.HasPrefix(n, "log.Print")) {
				r = false
			}
		}
		if r && len(s.taint(f).uses) != 0 {
			r = false
		}
		own[f] = r
		return r
	}
	memo := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		r := s.c.P.InModule(fnPkg(f)) && len(f.Blocks) > 0 && f.Parent() == nil
		loop := false
		if r {
			for x := range g.Reach([]*ssa.Function{f}, nil) {
				if len(x.Blocks) == 0 || !s.c.P.InModule(fnPkg(x)) {
					continue
				}
				r = r && ownCalm(x)
				loop = loop || hasLoop(x)
			}
		}
		r = r && loop
		memo[f] = r
		if r {
			s.c.analysed[relName(s.c.P, f)] = true
			s.c.Count("functions that write nothing", 1)
		}
		return r
	}
}

// libraryMethods may be implemented by libraries.
var libraryMethods = map[string]bool{
	"Write": true, "WriteString": true, "WriteByte": true, "WriteRune": true, "WriteTo": true, "ReadFrom": true, "Flush": true, "Encode": true,
	"Print": true, "Printf": true, "Println": true, "Output": true, "Close": true, "Sync": true, "Run": true, "Start": true, "Do": true,
}

// borrowed tells whether functions of libraries are used as values of a function type.
func (s *stdout) borrowed(sig *types.Signature) bool {
	if s.values == nil {
		s.values = []*types.Signature{}
		fns := s.c.P.ModuleFuncs()
		for _, p := range s.c.P.Prog.AllPackages() {
			if f := p.Func("init"); f != nil && s.c.P.InModule(p.Pkg) {
				fns = append(fns, f)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if x, ok := in.(ssa.CallInstruction); ok && !x.Common().IsInvoke() {
						callee = x.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if x, ok := (*op).(*ssa.Function); ok && *op != callee && !(s.c.P.InModule(fnPkg(x)) && x.Synthetic == "") {
							s.values = append(s.values, x.Signature)
						}
					}
				}
			}
		}
	}
	for _, x := range s.values {
		if types.Identical(types.NewSignatureType(nil, nil, nil, x.Params(), x.Results(), x.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			return true
		}
	}
	return false
}

func hasLoop(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, t := range b.Succs {
			if t.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func ruleC05(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly with a ghost 'standard output used' for calls that print, calls of library functions given os.Stdout or a value or object made from it (aliases by descriptor or file name included) and for stores of it in library objects (exec.Cmd, log.Logger): it must not be set when serving starts and not become set later. All handlers are interpreted from the states of registration under the same rule. Functions that may be called by methods of the server codec and its connection, by loading of source files and by goroutines are scanned over the call graph for printing functions and for values made from os.Stdout other than the writer they were given."
	s := newStdout(c)
	// start
	main := c.P.mainFunc(backendPkg)
	if main == nil {
		c.Missing("main of " + backendPkg)
		return
	}
	e := c.Engine()
	use := func(st *eng.State, fn *ssa.Function, pos token.Pos, what string) {
		where := "main"
		if fn != nil {
			where = relName(c.P, fn)
		}
		if st.Ghost["serving"] != "" {
			c.Violate("output:"+where, pos, "%s after serving has started", what)
			return
		}
		if st.Ghost["stdout"] == "" {
			st.SetGhost("stdout", what+" at "+c.P.Pos(pos)+" in "+where)
		}
	}
	e.SetHooks(&eng.Hooks{
		OnCall: func(ev *eng.CallEvent) {
			c.Count("calls in main", 1)
			if isServe(ev.Name) {
				c.Count("serving calls", 1)
				if what := ev.St.Ghost["stdout"]; what != "" {
					c.Violate("before:"+relName(c.P, ev.Fn), ev.Pos, "the backend may serve a client though %s", what)
				}
				ev.St.SetGhost("serving", "yes")
				return
			}
			if what, ok := s.writes(e, ev); ok {
				use(ev.St, ev.Fn, ev.Pos, what)
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if what, ok := s.stores(e, st, addr, v); ok {
				use(st, nil, main.Pos(), what+" ("+at+")")
			}
		},
	})
	e.Run(main, eng.NewState(), nil, nil, "main")
	// handlers
	srv := c.Server()
	if srv == nil {
		return
	}
	load := map[*ssa.Function]bool{} // are scanned below
	for _, n := range []string{"Extract", "ExtractSet"} {
		for _, f := range c.P.extractors(n) {
			load[f] = true
			if o, ok := f.Object().(*types.Func); ok {
				if f := c.P.Prog.FuncValue(o); f != nil {
					load[f] = true // instead of its wrapper
				}
			}
		}
	}
	if f := c.P.variantsFn(); f != nil {
		load[f] = true
	}
	calm := s.calm()
	for _, name := range srv.Names {
		h := &eng.Hooks{Boundary: func(f *ssa.Function) bool { return load[f] || calm(f) }}
		h.OnCall = func(ev *eng.CallEvent) {
			c.Count("calls in handlers", 1)
			if what, ok := s.writes(srv.E, ev); ok {
				c.Violate("output:"+relName(c.P, ev.Fn), ev.Pos, "%s when a request is handled", what)
			}
		}
		h.OnStore = func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if what, ok := s.stores(srv.E, st, addr, v); ok {
				c.Violate("output:"+name, srv.Methods[name].Pos(), "%s when a request is handled (%s)", what, at)
			}
		}
		srv.Run(name, h)
	}
	// codec and goroutines
	g := c.P.Graph()
	var roots []*ssa.Function
	pkgs := map[*types.Package]bool{}
	for _, T := range c.P.moduleNamed() {
		if c.P.hasMethod(types.NewPointer(T), "ReadRequestHeader") {
			pkgs[T.(*types.Named).Obj().Pkg()] = true
		}
	}
	c.Count("packages of codecs", len(pkgs))
	c.Need("packages of codecs", 1)
	for _, f := range c.P.ModuleFuncs() {
		if pkgs[fnPkg(f)] && f.Signature.Recv() != nil {
			roots = append(roots, f)
		}
	}
	for f := range load {
		roots = append(roots, f)
	}
	fromMain := g.Reach([]*ssa.Function{main}, nil)
	for f := range fromMain {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Go); ok {
					for _, ed := range g.targets(x) {
						if ed.To != nil {
							roots = append(roots, ed.To)
						}
					}
				}
			}
		}
	}
	for f := range g.Reach(roots, nil) {
		if len(f.Blocks) == 0 || !c.P.InModule(fnPkg(f)) {
			continue
		}
		c.Count("functions of codecs and goroutines", 1)
		for _, ed := range g.Edges[f] {
			if ed.To != nil && len(ed.To.Blocks) == 0 && printers[ed.Name] {
				c.Violate("output:"+relName(c.P, f), ed.Site.Pos(), "%s writes to the standard output", ed.Name)
			}
		}
		for _, in := range s.taint(f).uses {
			if call, ok := in.(ssa.CallInstruction); ok {
				if fn := call.Common().StaticCallee(); fn != nil && harmlessStdout[eng.FuncName(fn)] {
					continue
				}
			}
			c.Violate("output:"+relName(c.P, f), in.Pos(), "the standard output is used while a client is served")
		}
	}
	c.Need("serving calls", 1)
	c.Need("calls in handlers", 20)
	c.Need("functions of codecs and goroutines", 5)
}
