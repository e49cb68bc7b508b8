package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	Rules["C17"] = ruleC17
	Rules["C18"] = ruleC18
}

// Library functions that change files given by name.
var mutators = map[string][]int{
	"os.Rename": {0, 1}, "os.Link": {1}, "os.Symlink": {1}, "os.WriteFile": {0}, "io/ioutil.WriteFile": {0}, "os.Create": {0}, "os.OpenFile": {0},
	"os.Truncate": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "syscall.Rename": {0, 1}, "syscall.Unlink": {0},
	"io/ioutil.TempFile": {}, "os.CreateTemp": {}, "syscall.Chmod": {0}, "syscall.Open": {0}, "syscall.Creat": {0}, "syscall.Truncate": {0},
}

// replacers are the functions by which contents of a file may appear at a path.
var replacers = map[string]bool{"os.Rename": true, "os.Link": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Create": true, "os.OpenFile": true, "syscall.Rename": true}

func isFileMode(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Name() == "FileMode" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io/fs"
}

func isBytes(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// generator writes contents to a path.
type generator struct {
	fn                         *ssa.Function
	path, content, mode, force int // indexes of parameters, -1 if missing
}

// generators finds functions that are called from another package with a path and contents of a file to write.
func (c *Ctx) generators() []*generator {
	reach := c.P.reaching(replacers)
	called := map[*ssa.Function]bool{}
	for f, es := range c.P.Graph().Edges {
		for _, ed := range es {
			if ed.To != nil && fnPkg(ed.To) != fnPkg(f) {
				called[ed.To] = true
			}
		}
	}
	var l []*generator
	for _, f := range c.P.ModuleFuncs() {
		if !reach[f] || !called[f] || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		g := &generator{f, -1, -1, -1, -1}
		ps := f.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			T := ps.At(i).Type()
			switch {
			case isFileMode(T):
				g.mode = i
			case isBytes(T):
				g.content = i
			case types.Identical(T, types.Typ[types.String]) && g.path < 0:
				g.path = i
			case types.Identical(T, types.Typ[types.Bool]) && g.force < 0:
				g.force = i
			}
		}
		rs := f.Signature.Results()
		if g.path < 0 || g.content < 0 || rs.Len() == 0 || !eng.IsErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		l = append(l, g)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].fn.String() < l[j].fn.String() })
	return l
}

// writeSite is a call of a generator by the backend.
type writeSite struct {
	ev eng.CallEvent
	st *eng.State
	g  *generator
}

// Installer is the backend run with its installation options.
type Installer struct {
	c     *Ctx
	E     *eng.Engine
	Gen   []*generator
	Flags map[string]*eng.Term // cells of options
	Vars  map[string]*eng.Term // flag.Value objects of options
	Sites []writeSite
	modes map[int64]bool
}

// atomsOfInit are the cells whose contents a term is made of.
func (in *Installer) flagOf(st *eng.State, t *eng.Term) string {
	for name, cell := range in.Flags {
		if t.Kind == eng.KInit && t.Args[0] == cell {
			return name
		}
		if cell.Typ != nil && in.E.Load(st, cell, derefT(cell.Typ)) == t {
			return name
		}
	}
	return ""
}

// cell bound to an option.
func (in *Installer) cell(name string) *eng.Term { return in.Flags[name] }

// installer interprets main of the backend; calls of generators succeed or fail.
func (c *Ctx) installer(extra *eng.Hooks, created ...func(*eng.Engine)) *Installer {
	main := c.P.mainFunc(backendPkg)
	if main == nil {
		c.Missing("main of " + backendPkg)
		return nil
	}
	in := &Installer{c: c, E: c.Engine(), Gen: c.generators(), Flags: map[string]*eng.Term{}, Vars: map[string]*eng.Term{}, modes: map[int64]bool{}}
	if len(in.Gen) == 0 {
		c.Missing("the function writing generated files")
		return nil
	}
	e := in.E
	for _, f := range created {
		f(e)
	}
	gen := func(f *ssa.Function) *generator {
		for _, g := range in.Gen {
			if g.fn == f {
				return g
			}
		}
		return nil
	}
	ended := func(st *eng.State, pos token.Pos) {
		c.Count("successful ends of the backend", 1)
		if st.Ghost["generating"] == "failed" {
			c.Violate("error:main", pos, "the backend may finish successfully though writing a generated file failed")
		}
	}
	h := &eng.Hooks{
		OnCall: func(ev *eng.CallEvent) {
			if extra != nil && extra.OnCall != nil {
				extra.OnCall(ev)
			}
			if ev.Name == "os.Exit" {
				if n, ok := eng.ConstInt(ev.Args[0]); !ok || n == 0 {
					ended(ev.St, ev.Pos)
				}
			}
			if idx, ok := mutators[ev.Name]; ok {
				for _, i := range idx {
					if in.flagOf(ev.St, ev.Args[i]) == "log" {
						continue
					}
					c.Violate("change:"+relName(c.P, ev.Fn), ev.Pos, "%s changes a file outside of the function that protects existing files: %v", ev.Name, ev.Args[i])
				}
			}
			n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
			if n == ev.Name || !strings.HasSuffix(n, "Var") {
				return
			}
			a := ev.Args
			if strings.HasPrefix(ev.Name, "(") && len(a) > 0 {
				a = a[1:]
			}
			if len(a) > 1 {
				if name, ok := eng.ConstStr(a[1]); ok {
					if n == "Var" {
						in.Vars[name] = a[0]
					} else {
						in.Flags[name] = a[0]
					}
				}
			}
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			switch ev.Name {
			case "(*flag.FlagSet).Bool", "(*flag.FlagSet).String", "flag.Bool", "flag.String":
				a := ev.Args
				if strings.HasPrefix(ev.Name, "(") {
					a = a[1:]
				}
				if name, ok := eng.ConstStr(a[0]); ok && len(res) == 1 {
					in.Flags[name] = res[0]
				}
			}
			if extra != nil && extra.AfterCall != nil {
				extra.AfterCall(ev, st, res)
			}
		},
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			switch ev.Name {
			case "net/rpc.RegisterName", "net/rpc.Register", "(*net/rpc.Server).RegisterName", "(*net/rpc.Server).Register":
				return nil, true // it is not an installation
			}
			if ev.Callee != nil {
				if g := gen(ev.Callee); g != nil {
					c.Count("calls of functions writing generated files", 1)
					in.Sites = append(in.Sites, writeSite{*ev, ev.St.Clone(), g})
					if extra != nil && extra.OnCall != nil {
						extra.OnCall(ev)
					}
					if g.mode >= 0 {
						if n, ok := eng.ConstInt(ev.Args[g.mode]); ok {
							in.modes[n] = true
						} else {
							c.Violate("mode:"+relName(c.P, ev.Fn), ev.Pos, "permissions of a generated file are not constant: %v", ev.Args[g.mode])
						}
					}
					ok, bad := outcome(e, ev, true), outcome(e, ev, false)
					bad.St.SetGhost("generating", "failed")
					return []eng.Outcome{ok, bad}, true
				}
			}
			if extra != nil && extra.Model != nil {
				return extra.Model(ev)
			}
			return nil, false
		},
	}
	if extra != nil {
		h.OnBranch, h.OnAppend, h.OnStore, h.OnInstr, h.OnMapUpdate = extra.OnBranch, extra.OnAppend, extra.OnStore, extra.OnInstr, extra.OnMapUpdate
		h.Boundary = extra.Boundary
	}
	e.SetHooks(h)
	start := eng.NewState()
	for _, x := range installCounters {
		e.GhostSet(start, x, 0)
	}
	for _, o := range e.Run(main, start, nil, nil, "main") {
		if !o.Panic {
			ended(o.St, main.Pos())
		}
	}
	c.Need("calls of functions writing generated files", 2)
	c.Need("successful ends of the backend", 1)
	return in
}

// outcome of a call that succeeded or failed according to its error result.
func outcome(e *eng.Engine, ev *eng.CallEvent, ok bool) eng.Outcome {
	st := ev.St.Clone()
	o := eng.Outcome{St: st}
	for i, T := range ev.Res {
		var t *eng.Term
		switch {
		case !eng.IsErrorType(T):
			t = e.Pure(fmt.Sprintf("result of %s %v", ev.SiteID, ok), T, e.Int(int64(i)))
		case ok:
			t = e.Nil()
		default:
			t = e.Pure("failure of "+ev.SiteID, T)
			e.Assume(st, e.Eq(t, e.Nil()), false)
		}
		o.Res = append(o.Res, t)
	}
	return o
}

// ---- interpretation of a generator

type genRun struct {
	c                   *Ctx
	e                   *eng.Engine
	g                   *generator
	key                 string
	report17, report18  bool
	path, content, mode *eng.Term
	force               bool
	temps               map[*eng.Term]bool            // temporary files
	files               map[*eng.Term]bool            // files opened at the path
	sentinel            map[*eng.Term]string          // kinds of errors
	counts              map[*eng.Term][2]*eng.Term    // number of bytes read: buffer, file
	perms               map[string]map[uint32]bool    // possible permissions of the existing file
	chmods              map[string]func(uint32) int64 // permissions set
	exactSeen           bool
}

func (r *genRun) v17(key string, pos token.Pos, f string, a ...interface{}) {
	if r.report17 {
		r.c.Violate(key+":"+r.key, pos, f, a...)
	}
}

func (r *genRun) v18(key string, pos token.Pos, f string, a ...interface{}) {
	if r.report18 {
		r.c.Violate(key+":"+r.key, pos, f, a...)
	}
}

func (r *genRun) all(t *eng.Term, pred func(*eng.Term) bool) bool {
	os := r.e.Origins(t)
	for _, o := range os {
		if !pred(o) {
			return false
		}
	}
	return len(os) > 0
}

func (r *genRun) isPath(t *eng.Term) bool {
	return r.all(t, func(o *eng.Term) bool {
		for o.Kind == eng.KConv {
			o = o.Args[0]
		}
		if o == r.path {
			return true
		}
		if o.Kind == eng.KCall && (o.CalleeName() == "path/filepath.Clean" || o.CalleeName() == "strings.Clone") {
			return r.isPath(o.Args[0])
		}
		return false
	})
}

func (r *genRun) isTemp(t *eng.Term) bool {
	return r.all(t, func(o *eng.Term) bool { return r.temps[o] })
}

func (r *genRun) isTempName(t *eng.Term) bool {
	return r.all(t, func(o *eng.Term) bool {
		return o.Kind == eng.KCall && o.CalleeName() == "(*os.File).Name" && r.isTemp(o.Args[0])
	})
}

func (r *genRun) isFile(t *eng.Term) bool {
	return r.all(t, func(o *eng.Term) bool { return r.files[o] })
}

func unconv(t *eng.Term) *eng.Term {
	for t.Kind == eng.KConv || t.Kind == eng.KIface {
		t = t.Args[0]
	}
	return t
}

func (r *genRun) isContent(t *eng.Term) bool {
	return r.all(t, func(o *eng.Term) bool { return unconv(o) == r.content })
}

// whole: the value holds complete contents of the existing file, provided it is equal to the generated one.
func (r *genRun) whole(st *eng.State, t *eng.Term) bool {
	e := r.e
	return r.all(t, func(o *eng.Term) bool {
		o = unconv(o)
		if o.Kind == eng.KCall && o.CalleeName() == "contents of the file" {
			return true
		}
		if o.Kind != eng.KSlice || len(o.Args) < 3 {
			return false
		}
		if lo := o.Args[1]; lo != nil {
			if n, ok := eng.ConstInt(lo); !ok || n != 0 {
				return false
			}
		}
		base, hi := o.Args[0], o.Args[2]
		if hi == nil {
			return false
		}
		if n, ok := eng.ConstInt(hi); ok && n == 0 {
			return st.Ghost["empty"] == fmt.Sprint(eng.Root(base).ID)
		}
		k, ok := r.counts[hi]
		if !ok || eng.Root(k[0]) != eng.Root(base) {
			return false
		}
		// a longer file would fill more of the buffer
		return e.LE(st, e.Len(r.content), e.Len(k[0]), -1)
	})
}

// result makes an outcome with an error of the given kind, "" is no error.
func (r *genRun) result(ev *eng.CallEvent, kind string, vals ...*eng.Term) eng.Outcome {
	e := r.e
	st := ev.St.Clone()
	o := eng.Outcome{St: st}
	k := 0
	for i, T := range ev.Res {
		if eng.IsErrorType(T) {
			t := e.Nil()
			if kind != "" {
				t = e.Pure(kind+" of "+ev.SiteID, T)
				if g := r.global(kind); g != nil {
					t = e.Load(st, g, T)
				}
				r.sentinel[t] = kind
				e.Assume(st, e.Eq(t, e.Nil()), false)
				for x, n := range r.sentinel {
					if n != kind && x != t {
						e.Assume(st, e.Eq(t, x), false)
					}
				}
			}
			o.Res = append(o.Res, t)
			continue
		}
		if k < len(vals) && vals[k] != nil {
			o.Res = append(o.Res, vals[k])
		} else {
			o.Res = append(o.Res, e.Pure(fmt.Sprintf("result %s of %s", kind, ev.SiteID), T, e.Int(int64(i))))
		}
		k++
	}
	return o
}

func (r *genRun) global(kind string) *eng.Term {
	pkg, name := "", ""
	switch kind {
	case "EOF", "ErrUnexpectedEOF":
		pkg, name = "io", kind
	case "ErrNotExist", "ErrExist", "ErrPermission":
		pkg, name = "os", kind
	default:
		return nil
	}
	p := r.c.P.Prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return r.e.GlobalTerm(g)
}

// kindOf names the kind of an error value.
func (r *genRun) kindOf(t *eng.Term) string {
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KGlobal {
		return t.Args[0].Glob.Name()
	}
	return r.sentinel[t]
}

func (r *genRun) absent(ev *eng.CallEvent, vals ...*eng.Term) eng.Outcome {
	o := r.result(ev, "absent", vals...)
	o.St.SetGhost("absent", "yes")
	return o
}

func (r *genRun) failed(ev *eng.CallEvent, vals ...*eng.Term) eng.Outcome {
	return r.result(ev, "failure", vals...)
}

// bits evaluates a value or condition over permissions; p are the permissions of the existing file.
func (r *genRun) bits(t *eng.Term, p uint32) (int64, bool) {
	switch t.Kind {
	case eng.KConst:
		if b, ok := eng.ConstBool(t); ok {
			if b {
				return 1, true
			}
			return 0, true
		}
		if t.Val != nil {
			v, ok := constant.Int64Val(constant.ToInt(t.Val))
			return v, ok
		}
	case eng.KConv:
		return r.bits(t.Args[0], p)
	case eng.KNot:
		v, ok := r.bits(t.Args[0], p)
		return 1 - v, ok
	case eng.KUn:
		v, ok := r.bits(t.Args[0], p)
		if t.Op == token.XOR {
			return int64(uint32(^v)), ok
		}
	case eng.KCall:
		switch t.CalleeName() {
		case "(io/fs.FileMode).Perm":
			v, ok := r.bits(t.Args[0], p)
			return v & 0777, ok
		case "(io/fs.FileInfo).Mode", "(os.FileInfo).Mode":
			return int64(p), r.all(t.Args[0], func(o *eng.Term) bool { return o.Kind == eng.KCall && o.CalleeName() == "information of the file" })
		}
	case eng.KBin:
		a, ok1 := r.bits(t.Args[0], p)
		b, ok2 := r.bits(t.Args[1], p)
		if !ok1 || !ok2 {
			return 0, false
		}
		cond := func(c bool) (int64, bool) {
			if c {
				return 1, true
			}
			return 0, true
		}
		switch t.Op {
		case token.AND:
			return a & b, true
		case token.OR:
			return a | b, true
		case token.XOR:
			return a ^ b, true
		case token.AND_NOT:
			return a &^ b, true
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.SHR:
			return a >> uint(b&63), true
		case token.SHL:
			return a << uint(b&63), true
		case token.EQL:
			return cond(a == b)
		case token.LSS:
			return cond(a < b)
		}
	}
	return 0, false
}

func (r *genRun) permSet(st *eng.State) map[uint32]bool {
	if s := r.perms[st.Ghost["perms"]]; s != nil {
		return s
	}
	s := map[uint32]bool{}
	for i := uint32(0); i < 512; i++ {
		s[i] = true
	}
	return s
}

func (r *genRun) branch(st *eng.State, in *ssa.If, taken bool) {
	cond := r.e.Val(st, in.Cond)
	if cond.Kind == eng.KConst {
		return
	}
	// text comparison of contents
	if x := cond; x.Kind == eng.KBin && x.Op == token.EQL || x.Kind == eng.KNot {
		pos := taken
		for x.Kind == eng.KNot {
			x, pos = x.Args[0], !pos
		}
		if x.Kind == eng.KBin && x.Op == token.EQL && len(x.Args) == 2 {
			a, b := x.Args[0], x.Args[1]
			if r.isContent(b) {
				a, b = b, a
			}
			if pos && r.isContent(a) && r.whole(st, b) {
				st.SetGhost("same", "yes")
			}
		}
	}
	if _, ok := r.bits(cond, 0); !ok {
		return
	}
	old := r.permSet(st)
	s := map[uint32]bool{}
	for p := range old {
		if v, ok := r.bits(cond, p); ok && (v != 0) == taken {
			s[p] = true
		}
	}
	var l []int
	for p := range s {
		l = append(l, int(p))
	}
	sort.Ints(l)
	k := fmt.Sprint(l)
	r.perms[k] = s
	st.SetGhost("perms", k)
}

// overwrite is a change of the existing file.
func (r *genRun) overwrite(ev *eng.CallEvent, what string) {
	r.c.Count("changes of the target file", 1)
	if !r.force && ev.St.Ghost["absent"] != "yes" {
		r.v17("overwrite", ev.Pos, "%s may change an existing file though overwriting is not requested", what)
	}
}

func (r *genRun) setMode(ev *eng.CallEvent, m *eng.Term, ofTarget bool) []eng.Outcome {
	ok, bad := r.result(ev, ""), r.failed(ev)
	st := ev.St
	if st.Ghost["target"] == "renamed" || !ofTarget {
		mode, isConst := eng.ConstInt(r.mode)
		v, known := r.bits(m, 0)
		if m == r.mode || isConst && known && v == mode {
			ok.St.SetGhost("mode", "ok")
		} else {
			ok.St.SetGhost("mode", "")
		}
		return []eng.Outcome{ok, bad}
	}
	// permissions of the existing file
	if !r.force && st.Ghost["same"] != "yes" && st.Ghost["absent"] != "yes" {
		r.v17("chmod", ev.Pos, "permissions of an existing file that differs from the generated one are changed")
	}
	for p := range r.permSet(st) {
		v, known := r.bits(m, p)
		if !known {
			r.v17("chmod", ev.Pos, "permissions of the existing file are changed to %v", m)
			break
		}
		if !r.force && (uint32(v)&p != p || (uint32(v)&^p)&^0700 != 0) {
			r.v17("chmod", ev.Pos, "permissions of the existing file are changed from %#o to %#o", p, v)
			break
		}
	}
	k := fmt.Sprint(m.ID)
	r.chmods[k] = func(p uint32) int64 {
		v, _ := r.bits(m, p)
		return v
	}
	ok.St.SetGhost("chmod", k)
	return []eng.Outcome{ok, bad}
}

func (r *genRun) write(ev *eng.CallEvent, f, data *eng.Term) ([]eng.Outcome, bool) {
	ok, bad := r.result(ev, ""), r.failed(ev)
	switch {
	case r.isTemp(f):
		if ev.St.Ghost["temp"] == "closed" {
			r.v18("closed", ev.Pos, "the temporary file is written after it was closed")
		}
		s := "wrong"
		if r.isContent(data) && ev.St.Ghost["written"] == "" {
			s = "all"
		}
		ok.St.SetGhost("written", s)
		bad.St.SetGhost("written", "partial")
		return []eng.Outcome{ok, bad}, true
	case isStdout(r.e, f):
		if v, known := r.e.Truth(ev.St, r.e.Eq(r.path, r.e.Str("-"))); known && v && r.isContent(data) && ev.St.Ghost["target"] == "" {
			ok.St.SetGhost("target", "stdout")
		} else if known && v {
			ok.St.SetGhost("target", "wrong")
		}
		return []eng.Outcome{ok, bad}, true
	case r.isFile(f):
		r.overwrite(ev, ev.Name)
		r.v18("partial", ev.Pos, "contents are written to the file at the target path itself, a partially written file may appear there")
		return []eng.Outcome{ok, bad}, true
	}
	return nil, false
}

func (r *genRun) model(ev *eng.CallEvent) ([]eng.Outcome, bool) {
	e, st := r.e, ev.St
	a := ev.Args
	info := func() *eng.Term {
		for _, T := range ev.Res {
			if !eng.IsErrorType(T) {
				return e.Pure("information of the file", T, r.path)
			}
		}
		return nil
	}
	sure := func(o eng.Outcome, t *eng.Term) eng.Outcome {
		e.Assume(o.St, e.Eq(t, e.Nil()), false)
		return o
	}
	switch ev.Name {
	case "os.Stat", "os.Lstat":
		if !r.isPath(a[0]) {
			return nil, false
		}
		i := info()
		ok := sure(r.result(ev, "", i), i)
		if st.Ghost["absent"] == "yes" {
			return []eng.Outcome{r.absent(ev, e.Nil())}, true
		}
		ok.St.SetGhost("absent", "no")
		l := []eng.Outcome{ok, r.failed(ev, e.Nil())}
		if st.Ghost["absent"] == "" {
			l = append(l, r.absent(ev, e.Nil()))
		}
		return l, true
	case "os.Open", "os.OpenFile", "os.Create":
		flags := int64(0)
		known := true
		if ev.Name == "os.Create" {
			flags = 0x242
		} else if ev.Name == "os.OpenFile" {
			flags, known = eng.ConstInt(a[1])
		}
		const wr, create, excl, trunc = 3, 0x40, 0x80, 0x200
		writes := !known || flags&wr != 0
		if r.isTempName(a[0]) {
			f := e.Pure("file "+ev.SiteID, ev.Res[0])
			r.temps[f] = true
			return []eng.Outcome{sure(r.result(ev, "", f), f), r.failed(ev, e.Nil())}, true
		}
		if !r.isPath(a[0]) {
			if writes {
				r.v17("other", ev.Pos, "%s may change another file: %v", ev.Name, a[0])
			}
			return nil, false
		}
		f := e.Pure("file "+ev.SiteID, ev.Res[0])
		r.files[f] = true
		ok := sure(r.result(ev, "", f), f)
		if writes {
			if !known || flags&excl == 0 || flags&create == 0 {
				r.overwrite(ev, ev.Name)
			}
			if !known || flags&(create|trunc) != 0 {
				r.v18("partial", ev.Pos, "%s makes an incomplete file appear at the target path", ev.Name)
			}
		}
		if !known || flags&create == 0 {
			if st.Ghost["absent"] == "yes" {
				return []eng.Outcome{r.absent(ev, e.Nil())}, true
			}
			ok.St.SetGhost("absent", "no")
		}
		l := []eng.Outcome{ok, r.failed(ev, e.Nil())}
		if st.Ghost["absent"] == "" {
			l = append(l, r.absent(ev, e.Nil()))
		}
		return l, true
	case "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
		all := strings.HasSuffix(ev.Name, "ReadAll")
		if all && !r.isFile(unconv(a[0])) || !all && !r.isPath(a[0]) {
			return nil, false
		}
		data := e.Pure("contents of the file", ev.Res[0], r.path)
		l := []eng.Outcome{r.result(ev, "", data), r.failed(ev)}
		if !all && st.Ghost["absent"] != "no" {
			l = append(l, r.absent(ev))
		}
		return l, true
	case "(*os.File).Read", "io.ReadFull":
		f := unconv(a[0])
		if !r.isFile(f) {
			return nil, false
		}
		buf := a[1]
		n := e.Pure("number of bytes "+ev.SiteID, ev.Res[0], buf)
		some := func(kind string) eng.Outcome {
			o := r.result(ev, kind, n)
			e.Assume(o.St, e.Less(e.Len(buf), n), false)
			e.Assume(o.St, e.Less(n, e.Int(0)), false)
			return o
		}
		if st.Ghost["read"] == "" {
			r.counts[n] = [2]*eng.Term{buf, f}
		}
		ok := some("")
		ok.St.SetGhost("read", "yes")
		none := r.result(ev, "EOF", e.Int(0))
		if st.Ghost["read"] == "" {
			none.St.SetGhost("empty", fmt.Sprint(eng.Root(buf).ID))
		}
		none.St.SetGhost("read", "yes")
		bad := r.failed(ev)
		bad.St.SetGhost("read", "failed")
		l := []eng.Outcome{ok, none, bad}
		if ev.Name == "io.ReadFull" {
			o := some("ErrUnexpectedEOF")
			o.St.SetGhost("read", "yes")
			l = append(l, o)
		}
		return l, true
	case "bytes.Equal", "bytes.Compare", "reflect.DeepEqual":
		x, y := a[0], a[1]
		if r.isContent(y) {
			x, y = y, x
		}
		if !r.isContent(x) {
			return nil, false
		}
		r.c.Count("comparisons of contents", 1)
		yes, no := eng.Outcome{St: st.Clone()}, eng.Outcome{St: st.Clone()}
		if ev.Name == "bytes.Compare" {
			t := e.Pure("difference "+ev.SiteID, ev.Res[0])
			e.Assume(no.St, e.Eq(t, e.Int(0)), false)
			yes.Res, no.Res = []*eng.Term{e.Int(0)}, []*eng.Term{t}
		} else {
			yes.Res, no.Res = []*eng.Term{e.Bool(true)}, []*eng.Term{e.Bool(false)}
		}
		if r.whole(st, y) && st.Ghost["read"] != "failed" {
			yes.St.SetGhost("same", "yes")
			r.exactSeen = true
		}
		return []eng.Outcome{yes, no}, true
	case "errors.Is", "os.IsNotExist":
		want := "ErrNotExist"
		if ev.Name == "errors.Is" {
			want = r.kindOf(a[1])
		}
		k := r.kindOf(a[0])
		if nil_, known := e.IsNil(st, a[0]); known && nil_ {
			return []eng.Outcome{{St: st, Res: []*eng.Term{e.Bool(false)}}}, true
		}
		if k == "" || want == "" {
			return nil, false
		}
		is := k == want || k == "absent" && want == "ErrNotExist"
		if k == "failure" && want != "ErrNotExist" && want != "EOF" && want != "ErrUnexpectedEOF" {
			return nil, false
		}
		return []eng.Outcome{{St: st, Res: []*eng.Term{e.Bool(is)}}}, true
	case "io/ioutil.TempFile", "os.CreateTemp":
		r.c.Count("temporary files", 1)
		if !r.all(a[0], func(o *eng.Term) bool {
			return o.Kind == eng.KCall && o.CalleeName() == "path/filepath.Dir" && r.isPath(o.Args[0])
		}) {
			r.v18("dir", ev.Pos, "the temporary file is not created in the directory of the target: %v", a[0])
		}
		f := e.Pure("file "+ev.SiteID, ev.Res[0])
		r.temps[f] = true
		ok := sure(r.result(ev, "", f), f)
		if st.Ghost["temp"] == "created" || st.Ghost["temp"] == "closed" {
			r.v18("left", ev.Pos, "another temporary file is created though the first one is not removed")
		}
		ok.St.SetGhost("temp", "created")
		ok.St.SetGhost("written", "")
		ok.St.SetGhost("mode", "")
		return []eng.Outcome{ok, r.failed(ev, e.Nil())}, true
	case "(io/fs.FileInfo).Mode":
		if n, known := e.IsNil(st, a[0]); known && n {
			return nil, true // no information about the file, its opening fails as well
		}
		return nil, false
	case "(*os.File).Chmod":
		if r.isTemp(a[0]) {
			return r.setMode(ev, a[1], false), true
		}
		return r.setMode(ev, a[1], true), true
	case "os.Chmod":
		switch {
		case r.isTempName(a[0]):
			return r.setMode(ev, a[1], false), true
		case r.isPath(a[0]):
			return r.setMode(ev, a[1], true), true
		}
		r.v17("other", ev.Pos, "permissions of another file are changed: %v", a[0])
		return nil, false
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(io.Writer).Write":
		return r.write(ev, unconv(a[0]), a[1])
	case "(*os.File).Truncate", "(*os.File).WriteAt", "(*os.File).Seek", "(*os.File).ReadFrom":
		if r.isTemp(a[0]) {
			ok := r.result(ev, "")
			ok.St.SetGhost("written", "wrong")
			return []eng.Outcome{ok, r.failed(ev)}, true
		}
		return nil, false
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		f := unconv(a[0])
		if !r.isTemp(f) && !r.isFile(f) && !isStdout(e, f) {
			return nil, false
		}
		// only Fprint(f, string(content)) and Fprintf(f, "%s", content) are exact
		data := e.Str("")
		last := a[len(a)-1]
		if el, exact := e.Elems(st, last); exact && len(el) == 1 {
			if ev.Name == "fmt.Fprintf" {
				if s, ok := eng.ConstStr(a[1]); ok && s == "%s" {
					data = unconv(el[0])
				}
			} else if x := el[0]; ev.Name == "fmt.Fprint" && x.Kind == eng.KIface && types.Identical(x.Typ, types.Typ[types.String]) {
				data = unconv(x)
			}
		}
		return r.write(ev, f, data)
	case "io.Copy":
		f := unconv(a[0])
		src := unconv(a[1])
		if r.isTemp(f) || r.isFile(f) || isStdout(e, f) {
			data := e.Str("")
			if src.Kind == eng.KCall && strings.Contains(src.CalleeName(), ".NewReader") || src.Kind == eng.KCall && strings.HasPrefix(src.CalleeName(), "bytes.NewBuffer") {
				data = src.Args[0]
			}
			return r.write(ev, f, data)
		}
		return nil, false
	case "(*os.File).Close":
		if r.isTemp(a[0]) {
			ok := r.result(ev, "")
			if st.Ghost["temp"] == "created" {
				ok.St.SetGhost("temp", "closed")
			}
			return []eng.Outcome{ok, r.failed(ev)}, true
		}
		return nil, false
	case "os.Rename", "syscall.Rename":
		if r.isPath(a[0]) {
			r.overwrite(ev, ev.Name)
			r.v18("gone", ev.Pos, "the existing file is moved away from the target path")
			return nil, false
		}
		if !r.isPath(a[1]) {
			r.v17("other", ev.Pos, "%s changes another file: %v", ev.Name, a[1])
			r.v18("other", ev.Pos, "%s creates another file than the target: %v", ev.Name, a[1])
			return nil, false
		}
		r.overwrite(ev, ev.Name)
		r.c.Count("renames to the target path", 1)
		if !r.isTempName(a[0]) {
			r.v18("source", ev.Pos, "the target is replaced by a file that is not the temporary one: %v", a[0])
		} else if st.Ghost["written"] != "all" {
			r.v18("incomplete", ev.Pos, "the temporary file is renamed to the target path when its contents are not completely written (%s)", word(st.Ghost["written"]))
		}
		ok := r.result(ev, "")
		ok.St.SetGhost("target", "renamed")
		ok.St.SetGhost("temp", "renamed")
		return []eng.Outcome{ok, r.failed(ev)}, true
	case "os.Remove", "os.RemoveAll", "syscall.Unlink":
		switch {
		case r.isTempName(a[0]):
			ok := r.result(ev, "")
			if st.Ghost["temp"] != "renamed" {
				ok.St.SetGhost("temp", "removed")
			}
			bad := r.failed(ev)
			if st.Ghost["temp"] != "renamed" {
				bad.St.SetGhost("temp", "removed") // best effort
			}
			return []eng.Outcome{ok, bad}, true
		case r.isPath(a[0]):
			r.overwrite(ev, ev.Name)
			r.v18("gone", ev.Pos, "the file is removed from the target path")
		default:
			r.v17("other", ev.Pos, "another file is removed: %v", a[0])
		}
		return nil, false
	case "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.Link", "os.Symlink", "syscall.Open", "syscall.Creat", "syscall.Truncate":
		i := 0
		if ev.Name == "os.Link" || ev.Name == "os.Symlink" {
			i = 1
		}
		if ev.Name == "os.WriteFile" || ev.Name == "io/ioutil.WriteFile" {
			if r.isTempName(a[0]) {
				return r.write(ev, a[0].Args[0], a[1])
			}
		}
		if ev.Name != "os.Link" {
			r.overwrite(ev, ev.Name)
		}
		if r.isPath(a[i]) {
			r.v18("partial", ev.Pos, "%s makes an incomplete file appear at the target path", ev.Name)
		}
		return nil, false
	}
	return nil, false
}

func (c *Ctx) runGenerators(in *Installer, v17, v18 bool) {
	modes := []int64{}
	for m := range in.modes {
		modes = append(modes, m)
	}
	sort.Slice(modes, func(i, j int) bool { return modes[i] < modes[j] })
	if len(modes) == 0 {
		modes = []int64{0644, 0755}
	}
	for _, g := range in.Gen {
		ps := g.fn.Signature.Params()
		for _, mode := range modes {
			for _, force := range []bool{false, true} {
				e := c.Engine()
				r := &genRun{c: c, e: e, g: g, key: relName(c.P, g.fn), report17: v17, report18: v18, force: force,
					temps: map[*eng.Term]bool{}, files: map[*eng.Term]bool{}, sentinel: map[*eng.Term]string{}, counts: map[*eng.Term][2]*eng.Term{},
					perms: map[string]map[uint32]bool{}, chmods: map[string]func(uint32) int64{}}
				var args []*eng.Term
				for i := 0; i < ps.Len(); i++ {
					args = append(args, e.Param(ps.At(i).Name(), ps.At(i).Type()))
				}
				r.path, r.content = args[g.path], args[g.content]
				r.mode = e.Int(mode)
				if g.mode >= 0 {
					r.mode = e.Const(constant.MakeInt64(mode), ps.At(g.mode).Type())
					args[g.mode] = r.mode
				}
				if g.force >= 0 {
					args[g.force] = e.Bool(force)
				}
				st := eng.NewState()
				for _, k := range []string{"EOF", "ErrUnexpectedEOF", "ErrNotExist"} {
					if gl := r.global(k); gl != nil {
						t := e.Load(st, gl, derefT(gl.Typ))
						e.Assume(st, e.Eq(t, e.Nil()), false)
						for x := range r.sentinel {
							e.Assume(st, e.Eq(t, x), false)
						}
						r.sentinel[t] = k
					}
				}
				e.SetHooks(&eng.Hooks{Model: r.model, OnBranch: r.branch,
					OnReturn: func(st *eng.State, fn *ssa.Function, res []*eng.Term, pos token.Pos) {
						if len(res) == 0 {
							return
						}
						if n, known := e.IsNil(st, res[len(res)-1]); known && (fn == g.fn || eng.IsErrorType(fn.Signature.Results().At(len(res)-1).Type())) {
							st.SetGhost("returned "+fn.Name(), fmt.Sprint(n))
						}
					}})
				for _, o := range e.Run(g.fn, st, args, nil, fmt.Sprintf("%s %o %v", g.fn.Name(), mode, force)) {
					if o.Panic {
						continue
					}
					r.end(o)
				}
			}
		}
	}
	c.Need("changes of the target file", 1)
	c.Need("outcomes of writing", 3)
}

func (r *genRun) end(o eng.Outcome) {
	c, e := r.c, r.e
	c.Count("outcomes of writing", 1)
	g := o.St.Ghost
	pos := r.g.fn.Pos()
	if o.Ret != nil {
		pos = o.Ret.Pos()
	}
	n, known := e.IsNil(o.St, o.Res[len(o.Res)-1])
	if !known || !n {
		if g["temp"] == "created" || g["temp"] == "closed" {
			r.v18("left", pos, "the temporary file is not removed when writing fails")
		}
	}
	if known && !n {
		return
	}
	c.Count("successful outcomes of writing", 1)
	switch {
	case g["target"] == "stdout":
	case g["target"] == "renamed":
		if g["written"] != "all" {
			r.v18("incomplete", pos, "success is reported though the contents are not completely written")
		}
		if g["mode"] != "ok" {
			r.v18("permissions", pos, "success is reported though the new file has no requested permissions")
		}
	case g["same"] == "yes":
		mode, _ := eng.ConstInt(r.mode)
		need := uint32(mode) & 0500
		for p := range r.permSet(o.St) {
			v := p
			if f := r.chmods[g["chmod"]]; f != nil {
				v = uint32(f(p))
			}
			if v&need != need {
				r.v18("permissions", pos, "success is reported for an identical existing file with permissions %#o though %#o are requested", v, mode)
				break
			}
		}
	default:
		r.v18("nothing", pos, "success is reported though the target neither was found identical nor is replaced")
		r.v17("silent", pos, "success is reported though the contents of an existing file may differ")
	}
}

const installAssume = "os, io and bytes functions keep their documented contracts; another process does not create the target between the check and the rename"

func ruleC17(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly: files are changed only by functions that get path and contents of the file (generators), their switch allowing to overwrite is the value of the -force option or false, and no successful end follows a failed write. Generators are interpreted for every combination of outcomes of file operations: without force no operation that changes the target path (rename, create, open for writing, remove, ...) is reached unless a check found that the file does not exist, permissions of an existing file are changed only if its whole contents were found equal, and only by adding owner permissions (decided for all 512 values), and nil is returned only if contents are equal or were written."
	c.Assume = append(c.Assume, installAssume)
	in := c.installer(nil)
	if in == nil {
		return
	}
	for _, w := range in.Sites {
		if w.g.force < 0 {
			continue
		}
		f := w.ev.Args[w.g.force]
		for _, o := range in.E.Origins(f) {
			if v, ok := eng.ConstBool(o); ok && !v {
				continue
			}
			c.Count("overwrite switches", 1)
			if n := in.flagOf(w.st, o); n != "force" {
				c.Violate("force:"+relName(c.P, w.ev.Fn), w.ev.Pos, "overwriting is allowed by %v, not by the -force option", o)
			}
		}
	}
	c.Need("overwrite switches", 2)
	c.runGenerators(in, true, false)
}

func ruleC18(c *Ctx) {
	c.Rule = "Typestate of generated files: functions writing given contents to a path (generators) are interpreted for every combination of outcomes of file operations. The only operation that makes contents appear at the target path is a rename of the temporary file that was created in its directory, after the whole contents were written to it; on every failure the temporary file is removed; nil is returned only if such rename succeeded and the requested permissions were set, or the whole contents of the existing file (the read buffer is larger than the generated contents) were compared with the generated ones and found equal and it has owner permissions (decided for all 512 values), or everything was written to stdout on request. In main no successful end follows a failed write."
	c.Assume = append(c.Assume, installAssume)
	in := c.installer(nil)
	if in == nil {
		return
	}
	c.runGenerators(in, false, true)
	c.Need("temporary files", 1)
	c.Need("renames to the target path", 1)
}
