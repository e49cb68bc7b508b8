package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

func init() { Rules["C27"] = ruleC27 }

// effect follows options from the command line till the backend starts to serve.
type effect struct {
	c     *Ctx
	e     *eng.Engine
	cells map[string]*eng.Term // variables of options
	objs  map[string]*eng.Term // flag.Value objects
	// lists of values or of sources filled by options
	lists map[string]*eng.Term
	// pointers to the lists, methods Set do not change them
	fixed    map[*eng.Term]*eng.Term
	patterns []*ssa.Global
	service  string
	recv     *eng.Term
	recvT    types.Type // of the service object
	served   int
	inits    []*eng.State
	regs     map[string]*eng.State // when options are registered
}

const (
	ghArgs    = "arguments made sources"
	ghSchemes = "schemes put to patterns"
	ghWords   = "arguments of the editor"
)

// isArgs: non-option arguments of the command line.
func isArgs(t *eng.Term) bool {
	return t != nil && t.Kind == eng.KCall && (t.CalleeName() == "flag.Args" || t.CalleeName() == "(*flag.FlagSet).Args")
}

// argOf: the text is an argument of the command line.
func argOf(t *eng.Term) (idx *eng.Term, ok bool) {
	t = unconv(t)
	if t.Kind == eng.KCall && (t.CalleeName() == "flag.Arg" || t.CalleeName() == "(*flag.FlagSet).Arg") {
		return t.Args[len(t.Args)-1], true
	}
	l, idx, ok := elemRef(t)
	if !ok || !isArgs(l) {
		return nil, false
	}
	return idx, true
}

func (x *effect) cell(name string, st *eng.State) *eng.Term {
	if a := x.cells[name]; a != nil {
		return x.e.Load(st, a, derefT(a.Typ))
	}
	return nil
}

// list is the current value of the list filled by an option.
func (x *effect) list(name string, st *eng.State) *eng.Term {
	if a := x.lists[name]; a != nil {
		return x.e.Load(st, a, derefT(a.Typ))
	}
	return nil
}

func (x *effect) register(ev *eng.CallEvent) {
	n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
	if n == ev.Name || !strings.HasSuffix(n, "Var") {
		return
	}
	a := ev.Args
	if strings.HasPrefix(ev.Name, "(") {
		a = a[1:]
	}
	if len(a) < 3 {
		return
	}
	name, ok := eng.ConstStr(a[1])
	if !ok {
		return
	}
	if ev.St.Ghost["parsed"] != "" {
		x.c.Violate("late:"+name, ev.Pos, "the option %q may be registered when the command line has been parsed already", name)
	}
	x.c.Count("options", 1)
	if n != "Var" {
		x.cells[name] = a[0]
		return
	}
	x.regs[name] = ev.St.Clone()
	obj := unconv(a[0])
	x.objs[name] = obj
	S, ok := derefPointer(obj.Typ)
	if !ok {
		return
	}
	str, ok := S.Underlying().(*types.Struct)
	for i := 0; ok && i < str.NumFields(); i++ {
		ptr, ok := derefPointer(str.Field(i).Type())
		if ok && (isTextSlice(ptr) || isSourceSlice(ptr)) {
			a := x.e.FieldAddr(obj, S, i)
			x.lists[name] = x.e.Load(ev.St, a, str.Field(i).Type())
			x.fixed[a] = x.lists[name]
		}
	}
}

// suffixFact: it is known whether the argument has the suffix of Org files.
func suffixFact(facts []eng.Fact, arg *eng.Term) (org, known bool) {
	arg = unconv(arg)
	for _, f := range facts {
		if a := suffixOf(f.T); a != nil && a == arg {
			return f.Val, true
		}
	}
	return false, false
}

// suffixOf returns the text whose suffix is compared with the one of Org files.
func suffixOf(t *eng.Term) *eng.Term {
	switch {
	case t.Kind == eng.KCall && t.CalleeName() == "strings.HasSuffix" && len(t.Args) == 2:
		if s, ok := eng.ConstStr(t.Args[1]); ok && s == ".org" {
			return unconv(t.Args[0])
		}
	case t.Kind == eng.KBin && t.Op == token.EQL:
		for i := range t.Args {
			s, ok := eng.ConstStr(t.Args[i])
			y := t.Args[1-i]
			if ok && s == ".org" && y.Kind == eng.KCall && (y.CalleeName() == "path/filepath.Ext" || y.CalleeName() == "path.Ext") {
				return unconv(y.Args[0])
			}
		}
	}
	return nil
}

// source is added to a list.
func (x *effect) source(st *eng.State, v *eng.Term, pos token.Pos) {
	e := x.e
	for v.Kind == eng.KConv {
		v = v.Args[0]
	}
	var l []eng.Origin
	if v.Kind == eng.KPhi {
		l = e.OriginsWith(st, v)
	} else {
		l = []eng.Origin{{T: v, Facts: e.Facts(st)}}
	}
	var idx, stale *eng.Term
	for _, o := range l {
		t := o.T
		for t.Kind == eng.KConv {
			t = t.Args[0]
		}
		if t.Kind != eng.KIface {
			return
		}
		i, ok := x.argSource(st, t, append(append([]eng.Fact{}, o.Facts...), e.Facts(st)...), pos)
		if !ok {
			return
		}
		if i.Kind == eng.KConst {
			stale = i // another pass of a loop
			continue
		}
		if idx != nil && idx != i {
			return
		}
		idx = i
	}
	if idx == nil {
		idx = stale
	}
	if idx == nil {
		return
	}
	if !sameIdx(e, st, idx, e.Ghost(ghArgs)) {
		x.c.Violate("arguments", pos, "arguments may be used as source files in another order or some of them may be skipped")
		return
	}
	e.GhostInc(st, ghArgs, 1)
	st.SetGhost("suffix", "")
}

// argSource checks the type of a source made of an argument.
func (x *effect) argSource(st *eng.State, v *eng.Term, facts []eng.Fact, pos token.Pos) (idx *eng.Term, ok bool) {
	e, c := x.e, x.c
	recv := v.Args[0]
	if recv.Kind == eng.KAlloc || recv.Typ != nil && isPointer(recv.Typ) {
		recv = e.Load(st, recv, derefT(recv.Typ))
	}
	if idx, ok = argOf(recv); !ok {
		return nil, false
	}
	c.Count("sources made of arguments", 1)
	flag, ok := c.sourceFlag(ifaceType(v))
	org, known := suffixFact(facts, recv)
	switch {
	case !ok:
		c.Violate("format", pos, "the format of a source file given by an argument is not known")
	case !known || org != (flag == "org") || !org && flag != "txt":
		c.Violate("format", pos, "an argument may be read as a file of the format %q though its suffix requires another one", flag)
	}
	return idx, true
}

func isPointer(T types.Type) bool {
	_, ok := T.Underlying().(*types.Pointer)
	return ok
}

// scheme: the text has been made from a configured scheme.
func (x *effect) scheme(st *eng.State, t *eng.Term) (idx *eng.Term, ok bool) {
	l := x.list("scheme", st)
	for depth := 0; t != nil && depth < 8; depth++ {
		if base, i, ok := elemRef(t); ok && base == l && l != nil {
			return i, true
		}
		switch {
		case t.Kind == eng.KConv || t.Kind == eng.KSlice:
			t = t.Args[0]
		case t.Kind == eng.KCall && strings.HasPrefix(t.CalleeName(), "strings.Trim"):
			t = t.Args[0]
		case t.Kind == eng.KPhi:
			var found, stale *eng.Term
			for _, o := range x.e.Origins(t) {
				if o == t {
					return nil, false
				}
				i, ok := x.scheme(st, o)
				if !ok {
					return nil, false
				}
				if i.Kind == eng.KConst {
					stale = i // another pass of a loop
					continue
				}
				if found != nil && found != i {
					return nil, false
				}
				found = i
			}
			if found == nil {
				found = stale
			}
			return found, found != nil
		default:
			return nil, false
		}
	}
	return nil, false
}

func (x *effect) schemeDone(st *eng.State, t *eng.Term) {
	idx, ok := x.scheme(st, t)
	if !ok {
		return
	}
	e := x.e
	if e.LE(st, idx, e.Int(0), 0) {
		e.GhostSet(st, ghSchemes, 1)
	} else if sameIdx(e, st, idx, e.Ghost(ghSchemes)) {
		e.GhostInc(st, ghSchemes, 1)
	}
}

// skipped schemes: empty ones and duplicates
func (x *effect) branch(st *eng.State) {
	e := x.e
	for _, f := range e.Facts(st) {
		t := f.T
		if arg := suffixOf(t); arg != nil {
			if idx, ok := argOf(arg); ok && sameIdx(e, st, idx, e.Ghost(ghArgs)) {
				st.SetGhost("suffix", fmt.Sprint(f.Val)) // to handle alternatives independently
			}
		}
		var arg *eng.Term
		switch {
		case t.Kind == eng.KBin && t.Op == token.EQL && f.Val:
			for i := range t.Args {
				if s, ok := eng.ConstStr(t.Args[i]); ok && s == "" {
					arg = t.Args[1-i]
				} else if n, ok := eng.ConstInt(t.Args[i]); ok && n == 0 && t.Args[1-i].Kind == eng.KLen {
					arg = t.Args[1-i].Args[0]
				}
			}
		case (t.Kind == eng.KLookup || t.Kind == eng.KLookupOk) && f.Val && len(t.Args) > 1:
			arg = t.Args[1]
		}
		if arg == nil {
			continue
		}
		if idx, ok := x.scheme(st, arg); ok && sameIdx(e, st, idx, e.Ghost(ghSchemes)) {
			e.GhostInc(st, ghSchemes, 1)
		}
	}
	if st.Ghost["parsed"] == "" {
		return
	}
	if l := x.list("scheme", st); l != nil && e.LE(st, e.Len(l), e.Ghost(ghSchemes), 0) {
		st.SetGhost("schemes", "all")
	}
	if t := st.Track["nargs"]; t != nil && e.LE(st, t, e.Ghost(ghArgs), 0) {
		st.SetGhost("args", "all")
	}
	if t := st.Track["args"]; t != nil && e.LE(st, e.Len(t), e.Ghost(ghArgs), 0) {
		st.SetGhost("args", "all")
	}
}

// dependsOn: the initial value of a package variable is computed from another variable.
func (x *effect) dependsOn(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v == ssa.Value(g) {
		return true
	}
	if h, ok := v.(*ssa.Global); ok {
		return x.dependsOn(x.initial(h), g, seen)
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && x.dependsOn(*op, g, seen) {
			return true
		}
	}
	return false
}

// initial is the value assigned to a variable by its package initializer.
func (x *effect) initial(g *ssa.Global) ssa.Value {
	if f := g.Pkg.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					return s.Val
				}
			}
		}
	}
	return nil
}

// patternsOf finds compiled patterns made from the default list of schemes.
func (x *effect) patternsOf(list *eng.Term) {
	if list == nil || list.Kind != eng.KGlobal {
		return
	}
	for _, p := range x.c.P.Prog.AllPackages() {
		if !x.c.P.InModule(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || derefT(g.Type()).String() != "*regexp.Regexp" {
				continue
			}
			if x.dependsOn(x.initial(g), list.Glob, map[ssa.Value]bool{}) {
				x.patterns = append(x.patterns, g)
			}
		}
	}
	sort.Slice(x.patterns, func(i, j int) bool { return x.patterns[i].Name() < x.patterns[j].Name() })
}

// compiled: the pattern is a result of successful compilation.
func (x *effect) compiled(st *eng.State, v *eng.Term) string {
	for _, o := range x.e.Origins(v) {
		call := o
		if o.Kind == eng.KExtract {
			call = o.Args[0]
		}
		if call.Kind != eng.KCall {
			return "is not updated"
		}
		switch call.CalleeName() {
		case "regexp.Compile":
			err := x.e.Extract(call, 1, types.Universe.Lookup("error").Type())
			if n, known := x.e.IsNil(st, err); !known || !n {
				return "may be not valid"
			}
		case "regexp.MustCompile":
		default:
			return "is not updated"
		}
	}
	return ""
}

// joinedWhole: the list is passed to a library function as a whole.
func (x *effect) joinedWhole(st *eng.State, v, list *eng.Term) bool {
	return x.e.Reaches(st, v, func(t *eng.Term) bool {
		if t.Kind != eng.KCall {
			return false
		}
		for _, a := range t.Args {
			if a == list {
				return true
			}
		}
		return false
	})
}

// kept: values of an option for source files are added to preceding ones.
func (x *effect) kept() {
	e := x.e
	e.SetHooks(&eng.Hooks{})
	for name, l := range x.lists {
		T := derefT(l.Typ)
		obj := x.objs[name]
		set := x.c.P.Method(obj.Typ, "Set")
		if !isSourceSlice(T) || set == nil {
			continue
		}
		st := x.regs[name].Clone()
		given := e.Param("given sources", T)
		e.StoreQuiet(st, l, given, T)
		for _, o := range e.Run(set, st, []*eng.Term{obj, e.Param("value of "+name, types.Typ[types.String])}, nil, "Set "+name) {
			if o.Panic || len(o.Res) != 1 {
				continue
			}
			if n, known := e.IsNil(o.St, o.Res[0]); known && !n {
				continue
			}
			x.c.Count("added sources", 1)
			if cur := e.Load(o.St, l, T); !x.whole(o.St, cur, given, true, map[*eng.Term]bool{}) {
				x.c.Violate("source option "+name, set.Pos(), "a value of the option %q may discard preceding ones: %v", name, cur)
			}
		}
	}
	x.c.Need("added sources", 2)
}

// whole: the list starts with all elements of another one.
func (x *effect) whole(st *eng.State, v, part *eng.Term, prefix bool, seen map[*eng.Term]bool) bool {
	if v == part {
		return true
	}
	if v == nil || seen[v] {
		return true
	}
	seen[v] = true
	e := x.e
	empty := func(t *eng.Term) bool {
		if n, known := e.IsNil(st, t); known && n {
			return true
		}
		return t.Kind != eng.KPhi && e.LE(st, e.Len(t), e.Int(0), 0)
	}
	switch v.Kind {
	case eng.KConv, eng.KIface:
		return x.whole(st, v.Args[0], part, prefix, seen)
	case eng.KCat:
		if !empty(v.Args[0]) && x.whole(st, v.Args[0], part, prefix, seen) {
			return true
		}
		return (!prefix || empty(v.Args[0])) && x.whole(st, v.Args[1], part, prefix, seen)
	case eng.KList:
		return !empty(v.Args[0]) && x.whole(st, v.Args[0], part, prefix, seen)
	case eng.KSlice:
		// l[:len(l):len(l)]
		base, a := v.Args[0], v.Args
		if a[1] != nil && !e.LE(st, a[1], e.Int(0), 0) || a[2] != nil && a[2] != e.Len(base) {
			return false
		}
		return x.whole(st, base, part, prefix, seen)
	case eng.KPhi:
		in := e.Incoming(v)
		for _, y := range in {
			if !x.whole(st, y, part, prefix, seen) {
				return false
			}
		}
		return len(in) > 0
	}
	return false
}

// logTo describes the destination of the log.
func (x *effect) logTo(ev *eng.CallEvent) {
	var w *eng.Term
	switch ev.Name {
	case "log.SetOutput", "log.New":
		w = ev.Args[0]
	case "(*log.Logger).SetOutput":
		w = ev.Args[1]
	default:
		return
	}
	kind := ""
	for _, o := range x.e.Origins(w) {
		k := x.destination(ev.St, o)
		if kind != "" && k != kind {
			k = "mixed"
		}
		kind = k
	}
	x.c.Count("log destinations", 1)
	ev.St.SetGhost("log", kind)
}

func (x *effect) destination(st *eng.State, t *eng.Term) string {
	t = unconv(t)
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KGlobal {
		switch g := t.Args[0].Glob; {
		case g.Name() == "Discard":
			return "discard"
		case g.Name() == "Stderr":
			return "stderr"
		}
		return "other"
	}
	if t.Kind == eng.KExtract && t.Args[0].Kind == eng.KCall {
		call := t.Args[0]
		if call.CalleeName() != "os.OpenFile" {
			return "other"
		}
		if n, known := x.e.IsNil(st, x.e.Extract(call, 1, types.Universe.Lookup("error").Type())); !known || !n {
			return "unopened"
		}
		if call.Args[0] != x.cell("log", st) {
			return "other"
		}
		flags, ok := eng.ConstInt(call.Args[1])
		if !ok {
			return "other"
		}
		if flags&x.osFlag("O_APPEND") == 0 || flags&x.osFlag("O_TRUNC") != 0 || flags&x.osFlag("O_CREATE") == 0 || flags&(x.osFlag("O_WRONLY")|x.osFlag("O_RDWR")) == 0 {
			return "not appended"
		}
		return "file"
	}
	return "other"
}

func (x *effect) osFlag(name string) int64 {
	for _, p := range x.c.P.Prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, _ := constant.Int64Val(constant.ToInt(k.Val()))
				return n
			}
		}
	}
	return 0
}

// logged compares the destination of the log with the option.
func (x *effect) logged(st *eng.State, pos token.Pos) {
	e := x.e
	name := x.cell("log", st)
	if name == nil {
		x.c.Missing("option -log")
		return
	}
	want := map[string]bool{}
	off, offKnown := e.Truth(st, e.Eq(name, e.Str("")))
	std, stdKnown := e.Truth(st, e.Eq(name, e.Str("-")))
	if !offKnown || off {
		want["discard"] = true
	}
	if (!stdKnown || std) && !(offKnown && off) {
		want["stderr"] = true
	}
	if !(offKnown && off) && !(stdKnown && std) {
		want["file"] = true
	}
	got := st.Ghost["log"]
	if got == "" {
		got = "stderr"
	}
	if len(want) != 1 || !want[got] {
		var l []string
		for k := range want {
			l = append(l, k)
		}
		sort.Strings(l)
		x.c.Violate("log:"+got, pos, "the log may go not to the configured destination: %s instead of %s", got, strings.Join(l, " or "))
	}
}

// serve checks a state in which the backend starts to serve clients.
func (x *effect) serve(st *eng.State, pos token.Pos) {
	c, e := x.c, x.e
	x.served++
	if st.Ghost["parsed"] == "" {
		c.Violate("not-parsed", pos, "clients may be served before the command line is parsed")
		return
	}
	// sources
	var srcs *eng.Term
	for name, l := range x.lists {
		if isSourceSlice(derefT(l.Typ)) {
			srcs = x.list(name, st)
		}
	}
	if srcs == nil || x.recv == nil {
		c.Missing("options for source files or the service of the backend")
		return
	}
	parsed := st.Track["sources"]
	n := 0
	for _, v := range x.sourceLists(st, x.recv, 0) {
		n++
		c.Count("lists of sources", 1)
		if parsed == nil || !x.whole(st, v, parsed, true, map[*eng.Term]bool{}) {
			c.Violate("sources", pos, "source files given by options may be not used: %v", v)
		}
		if f := foreign(e, st, v, func(t *eng.Term) (bool, bool) { return t == parsed, t == parsed }, func(t *eng.Term) bool {
			t = unconv(t)
			if t.Kind == eng.KAlloc {
				t = e.Load(st, t, derefT(t.Typ))
			}
			_, ok := argOf(t)
			return ok
		}); f != nil {
			c.Violate("other-source", pos, "a source that has not been requested may be used: %v", f)
		}
	}
	if n == 0 {
		c.Missing("list of sources of the service")
	}
	if st.Ghost["args"] == "" {
		c.Violate("arguments", pos, "some arguments of the command line may be not used as source files")
	}
	x.logged(st, pos)
	x.schemes(st, pos)
	x.inits = append(x.inits, st.Clone())
}

// editor checks commands executed by handlers of requests.
func (x *effect) editor() {
	c, e := x.c, x.e
	if len(x.inits) == 0 {
		return
	}
	if x.cells["emacsclient"] == nil || x.lists["emacsarg"] == nil {
		c.Missing("options of the editor")
		return
	}
	s := &Server{c: c, E: e, Methods: map[string]*ssa.Function{}, Flags: x.cells, Service: x.service, T: x.recvT}
	for _, st := range x.inits {
		s.Inits = append(s.Inits, st)
		s.Recv = append(s.Recv, x.recv)
	}
	s.setup()
	for _, name := range s.Names {
		for _, st := range s.Inits {
			e.GhostSet(st, ghWords, 0)
			st.SetGhost("words", "")
		}
		word := func(st *eng.State, v *eng.Term) {
			l, idx, ok := elemRef(unconv(v))
			if ok && l == x.list("emacsarg", st) && sameIdx(e, st, idx, e.Ghost(ghWords)) {
				e.GhostInc(st, ghWords, 1)
			}
		}
		s.Run(name, &eng.Hooks{Boundary: s.execOnly(), OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			if el, exact := e.Elems(st, tail); exact {
				for _, v := range el {
					word(st, v)
				}
			}
		}, OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KIndexAddr && isTextType(T) {
				word(st, v)
			}
		}, OnCopy: func(st *eng.State, dst, src *eng.Term, pos token.Pos) {
			if src == x.list("emacsarg", st) && e.LE(st, e.Len(src), e.Len(dst), 0) {
				st.SetGhost("words", "all")
			}
		}, OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			if l := x.list("emacsarg", st); e.LE(st, e.Len(l), e.Ghost(ghWords), 0) {
				st.SetGhost("words", "all")
			}
		}, OnCall: func(ev *eng.CallEvent) {
			i, ok := execMake[ev.Name]
			if !ok || len(ev.Args) < i+2 {
				return
			}
			c.Count("commands", 1)
			if p := ev.Args[i]; unconv(p) != x.cell("emacsclient", ev.St) {
				c.Violate("program", ev.Pos, "another program than the configured one may be executed: %v", p)
			}
			if l := x.list("emacsarg", ev.St); ev.St.Ghost["words"] == "" && !x.whole(ev.St, ev.Args[i+1], l, false, map[*eng.Term]bool{}) {
				c.Violate("editor arguments", ev.Pos, "configured arguments may be not passed to the editor: %v", ev.Args[i+1])
			}
		}})
	}
	c.Need("commands", 2)
}

// sourceLists finds lists of sources stored in an object.
func (x *effect) sourceLists(st *eng.State, obj *eng.Term, depth int) (l []*eng.Term) {
	if depth > 3 {
		return nil
	}
	S, ok := derefStruct(obj.Typ)
	if !ok {
		return nil
	}
	for i := 0; i < S.NumFields(); i++ {
		T := S.Field(i).Type()
		v := x.e.Load(st, x.e.FieldAddr(obj, derefT(obj.Typ), i), T)
		if isSourceSlice(T) {
			l = append(l, v)
		} else if v.Kind == eng.KAlloc {
			l = append(l, x.sourceLists(st, v, depth+1)...)
		}
	}
	return l
}

func (x *effect) schemes(st *eng.State, pos token.Pos) {
	c, e := x.c, x.e
	obj := x.objs["scheme"]
	if obj == nil || x.lists["scheme"] == nil {
		c.Missing("option -scheme")
		return
	}
	var isModified *ssa.Function
	ms := c.P.Prog.MethodSets.MethodSet(obj.Typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "IsModified" {
			isModified = c.P.Prog.MethodValue(ms.At(i))
		}
	}
	list := x.list("scheme", st)
	if isModified == nil {
		c.Missing("method IsModified of the option -scheme")
		return
	}
	if x.patterns == nil {
		x.patternsOf(x.lists["scheme"])
		if len(x.patterns) == 0 {
			c.Missing("patterns made from the default list of schemes")
			return
		}
		c.Count("patterns of schemes", len(x.patterns))
	}
	for _, o := range e.Run(isModified, st.Clone(), []*eng.Term{obj}, nil, "IsModified") {
		s := o.St
		if o.Panic || len(o.Res) != 1 || !e.Assume(s, o.Res[0], true) {
			continue
		}
		c.Count("states with configured schemes", 1)
		whole := true
		for _, g := range x.patterns {
			v := e.Load(s, e.GlobalTerm(g), derefT(g.Type()))
			why := s.Ghost["pattern "+g.Name()]
			if why == "" {
				why = "is not updated"
			}
			if why != "ok" {
				c.Violate("scheme:"+g.Name(), pos, "schemes are configured but the pattern %s %s", g.Name(), why)
			}
			if !x.joinedWhole(s, v, list) {
				whole = false
			}
		}
		if !whole && s.Ghost["schemes"] == "" {
			c.Violate("schemes", pos, "some of configured schemes may be missing in patterns")
		}
	}
}

func ruleC27(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly from registration of options till rpc.ServeCodec with arbitrary values after parsing of the command line. In every state that serves clients: the list of sources of the service is the list filled by options followed by a source of the proper format for each argument, patterns made from the default schemes are successfully compiled from the list of the option if it is modified and every scheme is put there, the log goes where it is requested. Handlers start the configured editor with all configured arguments. Objects of options are checked with the rule C19."
	main := c.P.mainFunc(backendPkg)
	if main == nil {
		c.Missing("main of " + backendPkg)
		return
	}
	e := c.Engine()
	x := &effect{c: c, e: e, cells: map[string]*eng.Term{}, objs: map[string]*eng.Term{}, lists: map[string]*eng.Term{}, fixed: map[*eng.Term]*eng.Term{}, regs: map[string]*eng.State{}}
	start := eng.NewState()
	e.GhostSet(start, ghArgs, 0)
	e.GhostSet(start, ghSchemes, 0)
	e.SetHooks(&eng.Hooks{
		NoUnroll: true,
		OnCall: func(ev *eng.CallEvent) {
			x.register(ev)
			x.logTo(ev)
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			switch ev.Name {
			case "flag.Parse", "(*flag.FlagSet).Parse":
				st.SetGhost("parsed", "1")
				c.Count("parsed command lines", 1)
				for a, v := range x.fixed {
					e.StoreQuiet(st, a, v, v.Typ)
				}
				for name, l := range x.lists {
					if isSourceSlice(derefT(l.Typ)) {
						st.Track["sources"] = x.list(name, st)
					}
				}
			case "flag.NArg", "(*flag.FlagSet).NArg":
				if len(res) == 1 {
					st.Track["nargs"] = res[0]
				}
			case "flag.Args", "(*flag.FlagSet).Args":
				if len(res) == 1 {
					st.Track["args"] = res[0]
				}
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			el, exact := e.Elems(st, tail)
			if !exact {
				return
			}
			for _, v := range el {
				x.source(st, v, pos)
				x.schemeDone(st, v)
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KGlobal && T.String() == "*regexp.Regexp" {
				why := x.compiled(st, v)
				if l := x.list("scheme", st); why == "" && !e.Reaches(st, v, func(t *eng.Term) bool { return t == l && l != nil }) {
					why = "does not depend on configured schemes"
				}
				if why == "" {
					why = "ok"
				}
				st.SetGhost("pattern "+addr.Glob.Name(), why)
			}
			if addr.Kind == eng.KIndexAddr && isTextType(T) {
				x.schemeDone(st, v)
			}
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) { x.branch(st) },
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			var recv *eng.Term
			switch ev.Name {
			case "os.Rename", "io/ioutil.TempFile", "os.CreateTemp":
				return nil, true // generation of files
			case "net/rpc.RegisterName":
				recv = ev.Args[1]
				x.service, _ = eng.ConstStr(ev.Args[0])
			case "(*net/rpc.Server).Register":
				recv = ev.Args[1]
			case "net/rpc.Register":
				recv = ev.Args[0]
			case "(*net/rpc.Server).RegisterName":
				recv = ev.Args[2]
				x.service, _ = eng.ConstStr(ev.Args[1])
			case "net/rpc.ServeCodec", "(*net/rpc.Server).ServeCodec":
				x.serve(ev.St, ev.Pos)
				return nil, true
			}
			if recv == nil {
				return nil, false
			}
			if recv.Kind == eng.KIface {
				x.recv, x.recvT = recv.Args[0], recv.Typ
				if n := namedOf(recv.Typ); n != nil && x.service == "" {
					x.service = n.Obj().Name()
				}
			}
			return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Nil()}}}, true
		},
	})
	e.Run(main, start, nil, nil, "main")
	c.Count("states that serve clients", x.served)
	x.editor()
	x.kept()
	c.Need("states that serve clients", 3)
	c.Need("options", 10)
	c.Need("log destinations", 2)
	c.Need("sources made of arguments", 2)
	c.Need("patterns of schemes", 2)
	c.Need("states with configured schemes", 1)
	// methods of options given several times
	c.Only = func(key string) bool {
		for _, k := range []string{"values:", "modified:", "refused:", "states:", "undecided_values:", "source_option", "source_flag"} {
			if strings.HasPrefix(key, k) {
				return true
			}
		}
		return false
	}
	rule := c.Rule
	ruleC19(c)
	c.Rule = rule
	c.Only = nil
}
