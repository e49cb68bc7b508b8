package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C26"] = ruleC26 }

// openers acquire a file.
var openers = map[string]bool{
	"os.Open": true, "os.OpenFile": true, "os.Create": true, "os.CreateTemp": true, "io/ioutil.TempFile": true,
}

// starters start a process, the receiver must be waited for.
var starters = map[string]bool{"(*os/exec.Cmd).Start": true}

// uses of a file that do not need the descriptor
var descriptorFree = map[string]bool{"(*os.File).Name": true}

// lifetimes follows what functions do to files they open and processes they start.
type lifetimes struct {
	c         *Ctx
	touch     map[*ssa.Function]bool // functions that open or close something
	processes bool
}

// calls tells whether the function itself calls one of functions.
func callsAny(f *ssa.Function, names map[string]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil {
				if o, ok := g.Object().(*types.Func); ok && names[o.FullName()] {
					return true
				}
			}
			for _, a := range in.Operands(nil) {
				if g, ok := (*a).(*ssa.Function); ok && g.Object() != nil {
					if o, ok := g.Object().(*types.Func); ok && names[o.FullName()] {
						return true
					}
				}
			}
		}
	}
	return false
}

func callsRelease(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if com.IsInvoke() && (com.Method.Name() == "Close" || com.Method.Name() == "Sync") {
				return true
			}
			if g := com.StaticCallee(); g != nil {
				switch g.Name() {
				case "Close", "Sync", "Wait":
					return true
				}
			}
		}
	}
	return false
}

func newLifetimes(c *Ctx) *lifetimes {
	l := &lifetimes{c: c, touch: map[*ssa.Function]bool{}}
	fns := c.P.ModuleFuncs()
	for _, f := range fns {
		if callsAny(f, openers) || callsAny(f, starters) || callsRelease(f) {
			l.touch[f] = true
		}
	}
	g := c.P.Graph()
	for changed := true; changed; {
		changed = false
		for f, es := range g.Edges {
			if l.touch[f] {
				continue
			}
			for _, ed := range es {
				if ed.To != nil && l.touch[ed.To] && c.P.InModule(pkgOf(ed.To)) {
					l.touch[f] = true
					changed = true
				}
			}
		}
		// closures are parts of functions that make them
		for _, f := range fns {
			if p := f.Parent(); p != nil && l.touch[f] && !l.touch[p] {
				l.touch[p] = true
				changed = true
			}
		}
	}
	return l
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// check interprets the function; the result tells that an opened object is given to the caller.
func (l *lifetimes) check(f *ssa.Function) (given bool) {
	c := l.c
	e := c.Engine()
	name := relName(c.P, f)
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(name+" "+p.Name(), p.Type()))
	}
	type object struct {
		t       *eng.Term
		key     string
		process bool
		pos     token.Pos
	}
	var objs []*object
	byTerm := map[*eng.Term]*object{}
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	obj := func(t *eng.Term) *object { return byTerm[strip(t)] }
	refers := func(st *eng.State, t *eng.Term, o *object) bool {
		for _, x := range e.Origins(strip(t)) {
			if strip(x) == o.t {
				return true
			}
		}
		return false
	}
	what := func(o *object) string {
		if o.process {
			return "the process started at " + c.P.Pos(o.pos)
		}
		return "the file opened at " + c.P.Pos(o.pos)
	}
	leak := func(st *eng.State, o *object, pos token.Pos, how string) {
		c.Violate("leak:"+name, pos, "%s: %s %s", name, what(o), how)
	}
	acquire := func(st *eng.State, o *object, pos token.Pos) {
		if st.Ghost[o.key] == "open" {
			leak(st, o, pos, "may be not released before another one is acquired in its place")
		}
		st.SetGhost(o.key, "open")
		st.SetGhost(o.key+" synced", "")
	}
	model := func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		if openers[ev.Name] {
			ok, bad := outcome(e, ev, true), outcome(e, ev, false)
			if len(ok.Res) == 0 {
				return nil, false
			}
			// a failed call gives no file
			bad.Res[0] = e.Nil()
			t := ok.Res[0]
			e.Assume(ok.St, e.Eq(t, e.Nil()), false)
			o := byTerm[t]
			if o == nil {
				o = &object{t: t, key: "file " + fmt.Sprint(len(objs)), pos: ev.Pos}
				byTerm[t] = o
				objs = append(objs, o)
				c.Count("places where files are opened", 1)
			}
			acquire(ok.St, o, ev.Pos)
			return []eng.Outcome{ok, bad}, true
		}
		if l.processes && starters[ev.Name] && len(ev.Args) == 1 {
			ok, bad := outcome(e, ev, true), outcome(e, ev, false)
			t := strip(ev.Args[0])
			o := byTerm[t]
			if o == nil {
				o = &object{t: t, key: "process " + fmt.Sprint(len(objs)), process: true, pos: ev.Pos}
				byTerm[t] = o
				objs = append(objs, o)
				c.Count("places where processes are started", 1)
			}
			acquire(ok.St, o, ev.Pos)
			return []eng.Outcome{ok, bad}, true
		}
		st := ev.St
		method := ""
		if ev.Obj != nil && len(ev.Args) > 0 && ev.Obj.Type().(*types.Signature).Recv() != nil {
			method = ev.Obj.Name()
		}
		logging := false
		if strings.HasPrefix(ev.Name, "log.") || strings.HasPrefix(ev.Name, "(*log.Logger).") {
			logging = strings.Contains(ev.Name, "Print") || strings.Contains(ev.Name, "Output") && !strings.Contains(ev.Name, "SetOutput")
		}
		handled := false
		for _, o := range objs {
			if logging && st.Ghost[o.key+" log"] != "" {
				if st.Ghost[o.key] == "closed" {
					c.Violate("use:"+name, ev.Pos, "%s: a message is logged after the log file was closed", name)
				}
				st.SetGhost(o.key+" synced", "")
			}
			isRecv := method != "" && refers(st, ev.Args[0], o)
			if isRecv && (o.process && method == "Wait" || !o.process && method == "Close") {
				if !o.process && st.Ghost[o.key+" log"] != "" && st.Ghost[o.key] != "closed" && st.Ghost[o.key+" synced"] == "" {
					c.Violate("sync:"+name, ev.Pos, "%s: the log file opened at %s may be closed before its content is synchronized", name, c.P.Pos(o.pos))
				}
				if obj(ev.Args[0]) == o {
					if o.process && st.Ghost[o.key] == "closed" {
						c.Violate("again:"+name, ev.Pos, "%s: %s is waited for once more", name, what(o))
					}
					st.SetGhost(o.key, "closed")
					c.Count("releases", 1)
				}
				handled = true
				continue
			}
			for i, a := range ev.Args {
				if a == nil || !refers(st, a, o) {
					continue
				}
				if i == 0 && descriptorFree[ev.Name] || ev.Callee != nil && l.touch[ev.Callee] {
					continue
				}
				c.Count("uses", 1)
				if !o.process && st.Ghost[o.key] == "closed" {
					c.Violate("use:"+name, ev.Pos, "%s: %s may be used after it was closed", name, what(o))
				}
				if ev.Name == "log.SetOutput" || ev.Name == "(*log.Logger).SetOutput" || ev.Name == "log.New" {
					st.SetGhost(o.key+" log", "1")
				}
				if i == 0 && method == "Sync" {
					st.SetGhost(o.key+" synced", "1")
					c.Count("synchronizations", 1)
				}
			}
		}
		if handled {
			return []eng.Outcome{outcome(e, ev, true), outcome(e, ev, false)}, true
		}
		return nil, false
	}
	later := func(st *eng.State, com *ssa.CallCommon) {
		vals := []*eng.Term{e.Val(st, com.Value)}
		for _, a := range com.Args {
			vals = append(vals, e.Val(st, a))
		}
		for _, o := range objs {
			for _, a := range vals {
				if a != nil && st.Ghost[o.key] == "open" && e.Reaches(st, a, func(x *eng.Term) bool { return x == o.t }) {
					// it is released at the end of the function, not before another iteration
					st.SetGhost(o.key, "deferred")
				}
			}
		}
	}
	std := map[*eng.Term]types.Type{}
	if pkg := c.P.Prog.ImportedPackage("os"); pkg != nil {
		for _, name := range []string{"Stdin", "Stdout", "Stderr"} {
			if g := pkg.Var(name); g != nil {
				std[e.GlobalTerm(g)] = derefT(g.Type())
			}
		}
	}
	e.SetHooks(&eng.Hooks{
		Model:    model,
		Boundary: func(g *ssa.Function) bool { return !l.touch[g] },
		OnLoad: func(st *eng.State, addr *eng.Term, pos token.Pos) {
			if std[addr] == nil {
				return
			}
			// opened files differ from standard streams
			v := e.Load(st, addr, std[addr])
			for _, o := range objs {
				if st.Ghost[o.key] != "" && !o.process {
					e.Assume(st, e.Eq(o.t, v), false)
				}
			}
		},
		OnInstr: func(st *eng.State, in ssa.Instruction) {
			if d, ok := in.(*ssa.Defer); ok {
				later(st, d.Common())
			}
			if g, ok := in.(*ssa.Go); ok && l.processes {
				for _, o := range objs {
					if o.process && st.Ghost[o.key] == "open" && waits(g.Common()) {
						st.SetGhost(o.key, "closed")
					}
				}
			}
		},
	})
	c.Count("functions that acquire", 1)
	for _, out := range e.Run(f, st, args, nil, "release "+name) {
		if out.Panic {
			continue
		}
		c.Count("outcomes", 1)
		for _, o := range objs {
			s := out.St.Ghost[o.key]
			if s == "" || s == "closed" {
				continue
			}
			held := false
			for _, r := range out.Res {
				held = held || holds(e, out.St, r, o.t)
			}
			if held && s == "open" {
				given = true
				continue
			}
			pos := f.Pos()
			if out.Ret != nil {
				pos = out.Ret.Pos()
			}
			leak(out.St, o, pos, "may be not released when the function returns")
		}
	}
	return given
}

// holds: the value is the object or a structure with a reference to it.
func holds(e *eng.Engine, st *eng.State, v, obj *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == obj {
			return true
		}
		switch t.Kind {
		case eng.KIface, eng.KConv, eng.KAssert, eng.KField, eng.KStruct, eng.KClosure, eng.KFieldAddr, eng.KList, eng.KSlice, eng.KCat:
			for _, a := range t.Args {
				if walk(a) {
					return true
				}
			}
		case eng.KPhi:
			for _, a := range e.Incoming(t) {
				if walk(a) {
					return true
				}
			}
		case eng.KAlloc:
			for _, x := range e.Cells(st, t) {
				if walk(x) {
					return true
				}
			}
		case eng.KCall, eng.KExtract:
			// objects made by constructors of other packages keep the file, errors do not
			for _, a := range t.Args {
				if t.Typ != nil && !eng.IsErrorType(t.Typ) && keeper(t) && walk(a) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// keeper: the call makes a reader or a writer over its argument.
func keeper(t *eng.Term) bool {
	n := t.CalleeName()
	return strings.HasPrefix(n, "bufio.New") || n == "log.New"
}

// waits: a goroutine waits for a process.
func waits(com *ssa.CallCommon) bool {
	if g := com.StaticCallee(); g != nil {
		if g.Name() == "Wait" {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Name() == "Wait" {
					return true
				}
			}
		}
	}
	return false
}

// releaseFiles checks functions that open files and those they are given to.
func (c *Ctx) releaseFiles() {
	l := newLifetimes(c)
	g := c.P.Graph()
	served := c.servedFuncs()
	done := map[*ssa.Function]bool{}
	var queue []*ssa.Function
	add := func(f *ssa.Function) {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !done[f] {
			done[f] = true
			queue = append(queue, f)
		}
	}
	for _, f := range c.P.ModuleFuncs() {
		if callsAny(f, openers) || served[f] && callsAny(f, starters) {
			add(f)
		}
	}
	sort.Slice(queue, func(i, j int) bool { return queue[i].Pos() < queue[j].Pos() })
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		l.processes = served[f]
		if !l.check(f) {
			continue
		}
		c.Count("functions that give what they acquired to callers", 1)
		n := 0
		for from, es := range g.Edges {
			for _, ed := range es {
				if ed.To == f && c.P.InModule(pkgOf(from)) && from.Synthetic == "" {
					n++
					add(from)
				}
			}
		}
		if n == 0 {
			c.Violate("given:"+relName(c.P, f), f.Pos(), "%s returns an open file but its callers are not known", relName(c.P, f))
		}
	}
	c.Need("places where files are opened", 5)
	c.Need("releases", 5)
	c.Need("synchronizations", 1)
}

// servedFuncs are functions that may run when a request is handled.
func (c *Ctx) servedFuncs() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	s := c.Server()
	if s == nil {
		return r
	}
	g := c.P.Graph()
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, ed := range g.Edges[f] {
			if ed.To != nil && c.P.InModule(pkgOf(ed.To)) {
				walk(ed.To)
			}
		}
	}
	for _, m := range s.Methods {
		walk(m)
	}
	return r
}

// closeMethod finds what is called to close an object of the dynamic type.
func (c *Ctx) closeMethod(T types.Type) *ssa.Function {
	ms := c.P.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Close" {
			return c.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// closes interprets the method Close of the object and checks that every part is closed exactly once
// whatever other calls return. Parts marked as processes are waited for after the rest.
func (c *Ctx) closes(e *eng.Engine, st *eng.State, object *eng.Term, name string, parts map[*eng.Term]string) {
	T := object.Typ
	if object.Kind == eng.KIface {
		object = object.Args[0]
		T = object.Typ
	}
	fn := c.closeMethod(T)
	if fn == nil {
		c.Missing("method Close of " + name)
		return
	}
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	key := func(p *eng.Term) string { return "closed " + parts[p] }
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if ev.Obj == nil || len(ev.Args) == 0 {
				return nil, false
			}
			p := strip(ev.Args[0])
			what, ok := parts[p]
			if !ok {
				return nil, false
			}
			process := strings.HasPrefix(what, "process")
			want := "Close"
			if process {
				want = "Wait"
			}
			if ev.Obj.Name() != want {
				return nil, false
			}
			c.Count("parts closed", 1)
			if ev.St.Ghost[key(p)] != "" {
				c.Violate("again:"+name+" "+what, ev.Pos, "%s: the %s may be released twice", name, what)
			}
			ev.St.SetGhost(key(p), "1")
			if process {
				for q := range parts {
					if q != p && ev.St.Ghost[key(q)] == "" {
						c.Violate("early:"+name+" "+what, ev.Pos, "%s: the %s is waited for before the %s is closed", name, what, parts[q])
					}
				}
			}
			return []eng.Outcome{outcome(e, ev, true), outcome(e, ev, false)}, true
		},
	})
	args := []*eng.Term{object}
	n := 0
	for _, o := range e.Run(fn, st.Clone(), args, nil, "close "+name) {
		if o.Panic {
			c.Violate("panic:"+name, fn.Pos(), "%s: Close may panic", name)
			continue
		}
		n++
		for p, what := range parts {
			if o.St.Ghost[key(p)] == "" {
				pos := fn.Pos()
				if o.Ret != nil && o.Ret.Pos() != token.NoPos {
					pos = o.Ret.Pos()
				}
				c.Violate("unclosed:"+name+" "+what, pos, "%s: Close may return though the %s is not released", name, what)
			}
		}
	}
	if n == 0 {
		c.Violate("close:"+name, fn.Pos(), "%s: Close never returns", name)
	}
	c.Count("outcomes of Close", n)
}

func ruleC26(c *Ctx) {
	c.Rule = "Every function that opens a file is interpreted abstractly, each call that opens, closes or uses it forks into success and failure: the file must be closed on all ways to return (or be given to the caller that is checked in turn), no call may get it after it was closed, and the log file must be synchronized after the last message. Close of the framed connection, of codecs and of clients of started backends is interpreted with every failure: each end is closed exactly once, processes are waited for after it."
	c.releaseFiles()
	// connections and codecs
	for _, f := range c.codecs() {
		c.closes(f.e, f.st, f.conn, "the connection made by "+f.name, map[*eng.Term]string{f.reader: "input", f.writer: "output"})
		c.closes(f.e, f.st, f.codec, "the codec made by "+f.name, map[*eng.Term]string{f.inner: "wrapped codec"})
		c.Count("codecs closed", 1)
	}
	c.Need("codecs closed", 2)
	c.factories()
	c.clients()
	c.Need("outcomes of Close", 8)
}

// factories: functions making codec factories give codecs that close the codec they wrap.
func (c *Ctx) factories() {
	for _, f := range c.P.ModuleFuncs() {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isCodecFactory(f.Signature.Results().At(0).Type()) {
			continue
		}
		e := c.Engine()
		name := relName(c.P, f)
		st := eng.NewState()
		var args []*eng.Term
		var inner *eng.Term
		var parents []*eng.Term
		for _, p := range f.Params {
			a := e.Param(name+" "+p.Name(), p.Type())
			if isCodecFactory(p.Type()) {
				parents = append(parents, a)
				e.Assume(st, e.Eq(a, e.Nil()), false)
				inner = e.Param("codec wrapped by "+name, p.Type().Underlying().(*types.Signature).Results().At(0).Type())
				e.Assume(st, e.Eq(inner, e.Nil()), false)
			}
			args = append(args, a)
		}
		if len(parents) != 1 {
			continue
		}
		h := &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if ev.FnTerm == parents[0] {
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{inner}}}, true
			}
			return nil, false
		}}
		e.SetHooks(h)
		for _, o := range e.Run(f, st, args, nil, name) {
			if o.Panic || len(o.Res) != 1 {
				continue
			}
			r := o.Res[0]
			for r.Kind == eng.KConv {
				r = r.Args[0]
			}
			if r.Kind != eng.KClosure {
				c.Missing("codec factory returned by " + name)
				continue
			}
			conn := e.Param("connection of "+name, r.Fn.Signature.Params().At(0).Type())
			e.Assume(o.St, e.Eq(conn, e.Nil()), false)
			e.SetHooks(h)
			for _, x := range e.Run(r.Fn, o.St, []*eng.Term{conn}, r.Args, name+" result") {
				if x.Panic || len(x.Res) != 1 {
					continue
				}
				if x.Res[0] == inner {
					continue
				}
				c.Count("factories", 1)
				c.closes(e, x.St, x.Res[0], "the codec of "+name, map[*eng.Term]string{inner: "wrapped codec"})
			}
		}
	}
	c.Need("factories", 1)
}

func isCodecFactory(T types.Type) bool {
	sig, ok := T.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return false
	}
	for _, X := range []types.Type{sig.Params().At(0).Type(), sig.Results().At(0).Type()} {
		in, ok := X.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		m, _, _ := types.LookupFieldOrMethod(in, false, nil, "Close")
		if _, ok := m.(*types.Func); !ok {
			return false
		}
	}
	return true
}

// clients: objects that own a process close the connection and then wait for the process.
func (c *Ctx) clients() {
	for _, T := range c.P.moduleNamed() {
		str, ok := T.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		cmd := -1
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Type().String() == "*os/exec.Cmd" {
				cmd = i
			}
		}
		if cmd < 0 {
			continue
		}
		name := types.TypeString(T, func(p *types.Package) string { return p.Name() })
		e := c.Engine()
		st := eng.NewState()
		obj := e.Param("client", types.NewPointer(T))
		e.Assume(st, e.Eq(obj, e.Nil()), false)
		parts := map[*eng.Term]string{}
		for i := 0; i < str.NumFields(); i++ {
			v := e.Load(st, e.FieldAddr(obj, T, i), str.Field(i).Type())
			if i == cmd {
				e.Assume(st, e.Eq(v, e.Nil()), false)
				parts[v] = "process " + str.Field(i).Name()
			} else if c.closeMethod(str.Field(i).Type()) != nil {
				e.Assume(st, e.Eq(v, e.Nil()), false)
				parts[v] = str.Field(i).Name()
			}
		}
		c.Count("clients of processes", 1)
		c.closes(e, st, obj, name, parts)
	}
	c.Need("clients of processes", 1)
}
