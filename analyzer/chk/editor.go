package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- commands started by handlers

// execMake creates a command, execRun runs it till its end.
var execMake = map[string]int{"os/exec.Command": 0, "os/exec.CommandContext": 1}
var execRun = map[string]bool{"(*os/exec.Cmd).Run": true, "(*os/exec.Cmd).Output": true, "(*os/exec.Cmd).CombinedOutput": true}
var execStart = map[string]bool{"(*os/exec.Cmd).Start": true}
var execWait = map[string]bool{"(*os/exec.Cmd).Wait": true}
var execRaw = map[string]bool{"os.StartProcess": true, "syscall.Exec": true, "syscall.ForkExec": true, "syscall.StartProcess": true}

// argKind classifies one argument of an editor command.
type argKind int

const (
	argFixed   argKind = iota // does not depend on the request
	argURI                    // org-protocol URI
	argFile                   // name of a configured file
	argLine                   // +N
	argUnknown                // something else made of request data
)

func isNameCall(t *eng.Term) bool {
	if t.Kind != eng.KCall || len(t.Args) != 1 || t.Obj == nil {
		return t.Kind == eng.KCall && strings.HasSuffix(t.CalleeName(), ".Name")
	}
	return t.Obj.Name() == "Name"
}

// nameOf tells whether t is the name of a configured source: a value that belongs to the
// configuration, not to the request.
func (s *Server) nameOf(st *eng.State, t, q *eng.Term) bool {
	ok := false
	for _, o := range s.E.Origins(t) {
		if o.Kind == eng.KNil {
			return false
		}
		if s.Tainted(st, o, q) {
			return false
		}
		if !isNameCall(o) && !s.convOfSource(o) {
			return false
		}
		ok = true
	}
	return ok
}

// convOfSource: string(source) of a type implementing the source interface.
func (s *Server) convOfSource(t *eng.Term) bool {
	if t.Kind == eng.KAssert || t.Kind == eng.KInit || t.Kind == eng.KConv || t.Kind == eng.KParam {
		return implementsNamed(s.c.P, t.Typ, "Name", "Extract")
	}
	return false
}

func implementsNamed(p *Program, T types.Type, names ...string) bool {
	if T == nil {
		return false
	}
	for _, n := range names {
		if p.Method(T, n) == nil {
			return false
		}
	}
	return true
}

// equalTo lists terms a string is known to be equal to.
func equalTo(e *eng.Engine, st *eng.State, t *eng.Term) []*eng.Term {
	var r []*eng.Term
	for _, f := range e.Facts(st) {
		if f.Val && f.T.Kind == eng.KBin && f.T.Op == token.EQL {
			if f.T.Args[0] == t {
				r = append(r, f.T.Args[1])
			} else if f.T.Args[1] == t {
				r = append(r, f.T.Args[0])
			}
		}
	}
	return r
}

// allowedPath: t is known to be exactly the name of a configured source.
func (s *Server) allowedPath(st *eng.State, t, q *eng.Term) bool {
	e := s.E
	if s.nameOf(st, t, q) {
		return true
	}
	for _, x := range equalTo(e, st, t) {
		if s.nameOf(st, x, q) {
			return true
		}
	}
	// membership in a map keyed by names
	for _, f := range e.Facts(st) {
		var m *eng.Term
		x := f.T
		switch {
		case x.Kind == eng.KLookupOk && f.Val && x.Args[1] == t:
			m = x.Args[0]
		case x.Kind == eng.KLookup && f.Val && x.Args[1] == t && isBoolT(x.Typ):
			m = x.Args[0]
		case x.Kind == eng.KBin && x.Op == token.EQL && !f.Val && x.Args[1].Kind == eng.KNil && x.Args[0].Kind == eng.KLookup && x.Args[0].Args[1] == t:
			m = x.Args[0].Args[0]
		}
		if m == nil {
			continue
		}
		for _, o := range e.Origins(m) {
			ks := e.MapKeys(o)
			ok := len(ks) > 0
			for _, k := range ks {
				if !s.nameOf(st, k, q) {
					ok = false
				}
			}
			if !ok {
				m = nil
			}
		}
		if m != nil {
			return true
		}
	}
	// library membership test over a list of names
	for _, f := range e.Facts(st) {
		if f.Val && f.T.Kind == eng.KCall && f.T.CalleeName() == "slices.Contains" && len(f.T.Args) == 2 && f.T.Args[1] == t {
			el, _ := e.Elems(st, f.T.Args[0])
			ok := len(el) > 0
			for _, x := range el {
				if !s.nameOf(st, x, q) {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func isBoolT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

const uriPrefix = "org-protocol:"

// isURI: t is known to start with the org-protocol scheme.
func (s *Server) isURI(st *eng.State, t *eng.Term) bool {
	for _, f := range s.E.Facts(st) {
		x := f.T
		if x.Kind == eng.KCall && f.Val && x.CalleeName() == "strings.HasPrefix" && x.Args[0] == t {
			if p, ok := eng.ConstStr(x.Args[1]); ok && strings.HasPrefix(p, uriPrefix) {
				return true
			}
		}
		if x.Kind == eng.KExtract && f.Val && x.N == 1 && x.Args[0].Kind == eng.KCall && x.Args[0].CalleeName() == "strings.CutPrefix" && x.Args[0].Args[0] == t {
			if p, ok := eng.ConstStr(x.Args[0].Args[1]); ok && strings.HasPrefix(p, uriPrefix) {
				return true
			}
		}
		// t[:n] == "org-protocol:", strings.Index(t, p) == 0
		if x.Kind == eng.KBin && x.Op == token.EQL && f.Val {
			a, b := x.Args[0], x.Args[1]
			if p, ok := eng.ConstStr(b); ok && strings.HasPrefix(p, uriPrefix) {
				if a == t {
					return true
				}
				if a.Kind == eng.KSlice && a.Args[0] == t && a.Args[1] == nil {
					return true
				}
			}
			if n, ok := eng.ConstInt(b); ok && n == 0 && a.Kind == eng.KCall && a.CalleeName() == "strings.Index" && a.Args[0] == t {
				if p, ok := eng.ConstStr(a.Args[1]); ok && strings.HasPrefix(p, uriPrefix) {
					return true
				}
			}
		}
	}
	return false
}

// isLine: t is "+" and the decimal form of a non-negative integer.
func (s *Server) isLine(st *eng.State, t *eng.Term) (num *eng.Term, ok bool) {
	e := s.E
	check := func(n *eng.Term) bool {
		if n.Kind == eng.KIface {
			n = n.Args[0]
		}
		b, ok := n.Typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || s.negative[n] {
			return false
		}
		num = n
		return true
	}
	itoa := func(x *eng.Term) bool {
		if x.Kind == eng.KCall {
			switch x.CalleeName() {
			case "strconv.Itoa":
				return check(x.Args[0])
			case "strconv.FormatInt", "strconv.FormatUint":
				n, ok := eng.ConstInt(x.Args[1])
				return ok && n == 10 && check(x.Args[0])
			case "fmt.Sprint":
				el, exact := e.Elems(st, x.Args[0])
				return exact && len(el) == 1 && check(el[0])
			case "fmt.Sprintf":
				if f, ok := eng.ConstStr(x.Args[0]); ok && (f == "%d" || f == "%v") {
					el, exact := e.Elems(st, x.Args[1])
					return exact && len(el) == 1 && check(el[0])
				}
			}
		}
		return false
	}
	if t.Kind == eng.KCall && t.CalleeName() == "fmt.Sprintf" {
		f, okf := eng.ConstStr(t.Args[0])
		el, exact := e.Elems(st, t.Args[1])
		if okf && exact && len(el) == 1 {
			switch f {
			case "+%d", "+%v":
				return num, check(el[0]) && true && num != nil
			case "+%s":
				x := el[0]
				if x.Kind == eng.KIface {
					x = x.Args[0]
				}
				r := itoa(x)
				return num, r
			}
		}
	}
	if t.Kind == eng.KCall && t.CalleeName() == "fmt.Sprint" {
		el, exact := e.Elems(st, t.Args[0])
		if exact && len(el) == 2 {
			x := el[0]
			if x.Kind == eng.KIface {
				x = x.Args[0]
			}
			if p, ok := eng.ConstStr(x); ok && p == "+" {
				r := check(el[1])
				return num, r
			}
		}
	}
	if t.Kind == eng.KBin && t.Op == token.ADD {
		if p, ok := eng.ConstStr(t.Args[0]); ok && p == "+" {
			r := itoa(t.Args[1])
			return num, r
		}
	}
	return nil, false
}

// argument is a classified argument of an editor command.
type argument struct {
	kind argKind
	t    *eng.Term
	str  string // constant text
	num  *eng.Term
}

func (s *Server) classify(st *eng.State, t, q *eng.Term) argument {
	if x, ok := eng.ConstStr(t); ok {
		return argument{kind: argFixed, t: t, str: x}
	}
	if !s.Tainted(st, t, q) {
		// values of initialised package variables
		return argument{kind: argFixed, t: t, str: s.globalStr(t)}
	}
	os := s.E.Origins(t)
	var k argKind = -1
	var num *eng.Term
	for _, o := range os {
		x := argUnknown
		if !s.Tainted(st, o, q) {
			x = argFixed
		} else if s.isURI(st, o) || s.isURI(st, t) {
			x = argURI
		} else if s.allowedPath(st, o, q) || s.allowedPath(st, t, q) {
			x = argFile
		} else if n, ok := s.isLine(st, o); ok {
			x = argLine
			num = n
		}
		if k >= 0 && k != x {
			return argument{kind: argUnknown, t: t}
		}
		k = x
	}
	return argument{kind: k, t: t, num: num}
}

// globalStr is the constant initial value of a package variable.
func (s *Server) globalStr(t *eng.Term) string {
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KGlobal {
		if v := s.E.GlobalInit(t.Args[0].Glob); v != nil {
			if p := ssaStr(v); p != nil {
				return *p
			}
		}
	}
	if t.Kind == eng.KOpaque || t.Kind == eng.KInit {
		var r string
		t.AnySub(func(x *eng.Term) bool {
			if x.Kind == eng.KGlobal {
				r = "$" + x.Glob.Name()
			}
			return false
		})
		return r
	}
	return ""
}

// command is what is known about a created editor command.
type command struct {
	pos  token.Pos
	fn   *ssa.Function
	prog *eng.Term
	args []argument
	list *eng.Term
}

func (s *Server) command(ev *eng.CallEvent, q *eng.Term) *command {
	i, ok := execMake[ev.Name]
	if !ok || len(ev.Args) <= i {
		return nil
	}
	c := &command{pos: ev.Pos, fn: ev.Fn, prog: ev.Args[i]}
	if len(ev.Args) > i+1 {
		c.list = ev.Args[i+1]
		el, _ := s.E.Elems(ev.St, c.list)
		for _, x := range el {
			c.args = append(c.args, s.classify(ev.St, x, q))
		}
	}
	return c
}

// eval tells whether the command evaluates Lisp and returns its constant text.
func (c *command) eval() (bool, string) {
	for i, a := range c.args {
		if a.kind == argFixed && (a.str == "--eval" || a.str == "-e") {
			var l []string
			for _, x := range c.args[i+1:] {
				l = append(l, x.str)
			}
			return true, strings.Join(l, "\n")
		}
		if a.kind == argFixed && strings.HasPrefix(a.str, "--eval=") {
			return true, a.str[7:]
		}
	}
	return false, ""
}

func (c *command) describe() string {
	var l []string
	for _, a := range c.args {
		switch {
		case a.kind == argFixed && a.str != "":
			x := a.str
			if len(x) > 30 {
				x = x[:30] + "…"
			}
			l = append(l, fmt.Sprintf("%q", x))
		default:
			l = append(l, a.t.String())
		}
	}
	return strings.Join(l, " ")
}

func (c *command) has(k argKind) bool {
	for _, a := range c.args {
		if a.kind == k {
			return true
		}
	}
	return false
}

// optionsWithValue of emacsclient take the next argument as their value.
var optionsWithValue = map[string]bool{"-a": true, "-s": true, "-f": true, "-d": true, "-F": true, "-T": true, "--alternate-editor": true,
	"--socket-name": true, "--server-file": true, "--display": true, "--frame-parameters": true, "--parent-id": true, "--tramp": true}

// anyExec tells about calls that start processes in an unexpected way.
func rawExec(ev *eng.CallEvent) bool { return execRaw[ev.Name] }

func init() {
	Rules["C06"] = ruleC06
	Rules["C07"] = ruleC07
	Rules["C08"] = ruleC08
}

func ruleC06(c *Ctx) {
	c.Rule = "The handler of visit is interpreted abstractly over go/ssa from every configuration the start of the backend can reach; at every call creating or running an editor command the path condition must entail that the member \"file\" of the request equals the result of Name() of a configured source (or is found in a map or list made only of such names), and the only request data among the arguments are that path and the line number."
	s := c.Server()
	if s == nil {
		return
	}
	name, fn := s.handlerOf("linkremark.visit", "burl.visit")
	if fn == nil {
		c.Missing("handler of visit")
		return
	}
	q := s.query(name)
	s.Run(name, &eng.Hooks{Boundary: s.execOnly(), OnCall: func(ev *eng.CallEvent) {
		if rawExec(ev) {
			c.Violate("raw-exec:"+relName(c.P, ev.Fn), ev.Pos, "visit starts a process through %s", ev.Name)
		}
		cmd := s.command(ev, q)
		if cmd == nil {
			return
		}
		c.Count("editor commands of visit", 1)
		ok := false
		for _, t := range s.loads(ev.St, q, "file") {
			if s.allowedPath(ev.St, t, q) {
				ok = true
			}
		}
		if !ok {
			c.Violate("unchecked:"+relName(c.P, cmd.fn)+":"+cmd.kindKey(), ev.Pos, "visit starts an editor command (%s) on a path where the requested file is not known to be exactly the name of a configured source", cmd.describe())
		}
		for _, a := range cmd.args {
			switch a.kind {
			case argUnknown:
				c.Violate("argument:"+relName(c.P, cmd.fn)+":"+cmd.kindKey(), ev.Pos, "argument %v of the editor command is request data that is not the name of a configured source", a.t)
			case argFile:
				c.Count("file arguments", 1)
			case argFixed:
				if s.nameOf(ev.St, a.t, q) {
					c.Count("file arguments", 1)
				}
			}
		}
	}})
	c.Need("editor commands of visit", 2)
	c.Need("file arguments", 1)
	c.Assume = append(c.Assume, "net/rpc passes non-nil request and reply pointers and runs only exported methods of the registered object", "Name() of a source is a pure function of the source")
}

func (c *command) kindKey() string {
	if ok, _ := c.eval(); ok {
		return "eval"
	}
	switch {
	case c.has(argURI):
		return "uri"
	case c.has(argFile):
		return "file"
	}
	return "other"
}

// loads lists terms standing for a member of the request.
func (s *Server) loads(st *eng.State, q *eng.Term, path string) []*eng.Term {
	p, ok := q.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	var out []*eng.Term
	var walk func(addr *eng.Term, T types.Type, parts []string)
	walk = func(addr *eng.Term, T types.Type, parts []string) {
		str, ok := T.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < str.NumFields(); i++ {
			if jsonName(str, i) != parts[0] {
				continue
			}
			a := s.E.FieldAddr(addr, T, i)
			if len(parts) == 1 {
				out = append(out, s.E.Load(st, a, str.Field(i).Type()))
				continue
			}
			walk(a, str.Field(i).Type(), parts[1:])
		}
	}
	walk(q, p.Elem(), strings.Split(path, "."))
	return out
}

func ruleC07(c *Ctx) {
	c.Rule = "Taint analysis: every RPC method of the service object is interpreted abstractly with an arbitrary request; at every call creating an editor command each element of the argument list must be independent of the request or one whole argument known (by the path condition) to start with \"org-protocol:\", to be the name of a configured source, or \"+\" followed by a non-negative decimal number; such an argument must not follow an option taking a value nor occur in a command evaluating Lisp; the program, and package variables or fields of exec.Cmd written by handlers, must not depend on the request."
	s := c.Server()
	if s == nil {
		return
	}
	for _, name := range s.Names {
		q := s.query(name)
		s.Run(name, &eng.Hooks{
			Boundary: s.execOnly(),
			OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
				r := eng.Root(addr)
				if r.Kind == eng.KGlobal && s.Tainted(st, v, q) {
					c.ViolateAt("global:"+r.Glob.Name(), "?", "%s stores request data in package variable %s", name, r.Glob.Name())
				}
				if cmdField(addr) && s.Tainted(st, v, q) {
					c.ViolateAt("cmdfield:"+name, "?", "%s stores request data in field %s of exec.Cmd", name, addr.Obj.Name())
				}
			},
			OnCall: func(ev *eng.CallEvent) {
				if rawExec(ev) {
					c.Violate("raw-exec:"+relName(c.P, ev.Fn), ev.Pos, "%s starts a process through %s", name, ev.Name)
				}
				if ev.Name == "os.Setenv" || ev.Name == "os.Chdir" {
					for _, a := range ev.Args {
						if s.Tainted(ev.St, a, q) {
							c.Violate("env:"+relName(c.P, ev.Fn), ev.Pos, "%s changes the environment of editor commands by request data", name)
						}
					}
				}
				cmd := s.command(ev, q)
				if cmd == nil {
					return
				}
				c.Count("editor command sites x paths", 1)
				key := relName(c.P, cmd.fn) + ":" + name + ":"
				if s.Tainted(ev.St, cmd.prog, q) {
					c.Violate("program:"+key, ev.Pos, "the program started for %s depends on the request", name)
				}
				isEval, _ := cmd.eval()
				for i, a := range cmd.args {
					c.Count("arguments classified", 1)
					switch a.kind {
					case argFixed:
						continue
					case argUnknown:
						c.Violate("argument:"+key, ev.Pos, "request data reach argument %v of the editor command as something else than an org-protocol URI, the name of a configured source or +N", a.t)
					default:
						c.Count("request dependent arguments", 1)
						if isEval {
							c.Violate("lisp:"+key, ev.Pos, "request data %v are an argument of a command that evaluates Lisp", a.t)
						}
						if i > 0 && optionsWithValue[cmd.args[i-1].str] {
							c.Violate("value:"+key, ev.Pos, "request data %v become the value of option %s", a.t, cmd.args[i-1].str)
						}
					}
				}
			}})
	}
	c.Need("editor command sites x paths", 5)
	c.Need("request dependent arguments", 3)
}

func cmdField(addr *eng.Term) bool {
	return addr.Kind == eng.KFieldAddr && strings.HasSuffix(addr.Aux, "os/exec.Cmd") && addr.Obj != nil
}

func derefT(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}
