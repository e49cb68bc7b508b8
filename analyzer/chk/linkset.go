package chk

import (
	"go/token"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C23"] = ruleC23 }

// prefixSpec: scheme of an URL optionally followed by more of the URL.
const prefixSpec = `^(?i:[a-z][a-z0-9+.-]*)(?::[^\n]*)?$`

// patternOf is the constant text of a regular expression value.
func (s *Server) patternOf(re *eng.Term) (string, bool) { return patternOf(s.E, re) }

func patternOf(e *eng.Engine, re *eng.Term) (string, bool) {
	if re.Kind == eng.KInit && re.Args[0].Kind == eng.KGlobal {
		if c, ok := e.GlobalInit(re.Args[0].Glob).(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && len(c.Call.Args) == 1 {
				switch eng.FuncName(f) {
				case "regexp.MustCompile":
					return ssaConstText(c.Call.Args[0])
				}
			}
		}
	}
	if re.Kind == eng.KExtract {
		re = re.Args[0]
	}
	if re.Kind == eng.KCall && len(re.Args) == 1 && (re.CalleeName() == "regexp.MustCompile" || re.CalleeName() == "regexp.Compile") {
		return eng.ConstStr(re.Args[0])
	}
	return "", false
}

func ssaConstText(v ssa.Value) (string, bool) {
	if p := ssaStr(v); p != nil {
		return *p, true
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		x, ok1 := ssaConstText(b.X)
		y, ok2 := ssaConstText(b.Y)
		return x + y, ok1 && ok2
	}
	return "", false
}

// matches lists facts "pattern is found in text" known in a state.
func matches(e *eng.Engine, st *eng.State) (out [][2]*eng.Term) {
	seen := map[*eng.Term]bool{}
	consider := func(x *eng.Term, holds func() bool) {
		if seen[x] || len(x.Args) < 2 {
			return
		}
		seen[x] = true
		if holds() {
			t := x.Args[1]
			for t.Kind == eng.KConv && len(t.Args) == 1 {
				t = t.Args[0]
			}
			out = append(out, [2]*eng.Term{x.Args[0], t})
		}
	}
	for _, f := range e.Facts(st) {
		f.T.AnySub(func(x *eng.Term) bool {
			if x.Kind != eng.KCall {
				return false
			}
			name := strings.TrimPrefix(x.CalleeName(), "(*regexp.Regexp).")
			switch name {
			case x.CalleeName():
			case "MatchString", "Match":
				consider(x, func() bool { v, k := e.Truth(st, x); return v && k })
			case "FindStringSubmatch", "FindSubmatch", "FindStringIndex", "FindIndex", "FindStringSubmatchIndex", "FindSubmatchIndex", "Find", "FindAllString",
				"FindAllStringSubmatch", "FindAllStringIndex", "FindAllStringSubmatchIndex":
				consider(x, func() bool {
					n, k := e.IsNil(st, x)
					return k && !n || e.LE(st, e.Int(1), e.Len(x), 0)
				})
			}
			return false
		})
	}
	return out
}

var readers = map[string]bool{
	"(*bufio.Scanner).Scan": true, "io.ReadAll": true, "io/ioutil.ReadAll": true, "io.Copy": true, "io.CopyN": true, "io.ReadFull": true,
	"io.ReadAtLeast": true, "os.ReadFile": true, "io/ioutil.ReadFile": true, "io.CopyBuffer": true,
}

// readsFile: a call that takes data from a file or a stream.
func readsFile(ev *eng.CallEvent) bool {
	if readers[ev.Name] {
		return true
	}
	for _, p := range []string{"(*bufio.Reader).", "(*os.File)."} {
		if strings.HasPrefix(ev.Name, p+"Read") || ev.Name == p+"WriteTo" {
			return true
		}
	}
	return ev.Invoke && ev.Obj != nil && ev.Obj.Name() == "Read"
}

func ruleC23(c *Ctx) {
	c.Rule = "The handler of linkSet is interpreted abstractly with an arbitrary request from every start configuration. At every call reading data of a file and on every path that may report success: the option -disable-link-set must be known to be off, the number of prefixes must be known to be within 1..16, and all prefixes must have been validated, that is an invariant 'the first g prefixes matched a pattern' with g at least the number of prefixes must hold, where the language of each such pattern is proved to be included in that of URL schemes with an optional rest of an URL (product of subset automata)."
	s := c.Server("disable-link-set")
	if s == nil {
		return
	}
	e := s.E
	name, fn := s.handlerOf("linkremark.linkSet", "burl.linkSet")
	if fn == nil {
		c.Missing("handler of linkSet")
		return
	}
	q := s.query(name)
	const ghost = "validated"
	verdict := map[string]string{} // pattern: reason it is not acceptable
	good := func(re *eng.Term) bool {
		p, ok := s.patternOf(re)
		if !ok {
			return false
		}
		why, done := verdict[p]
		if !done {
			inc, ex, err := searchIncluded(p, prefixSpec)
			if err != nil {
				why = err.Error()
			} else if !inc {
				why = ex
				if why == "" {
					why = "empty text"
				}
			}
			verdict[p] = why
			c.Count("prefix patterns compared with the grammar of prefixes", 1)
			if why != "" {
				c.Note("Pattern %q accepts %q.", p, why)
			}
		}
		return why == ""
	}
	g := e.Ghost(ghost)
	check := func(st *eng.State, pos token.Pos, key, what string) {
		off, known := s.flagTruth(st, "disable-link-set")
		if !known || off {
			c.Violate("disabled:"+key, pos, "%s although linkSet may be disabled", what)
			return // other conditions are irrelevant
		}
		for _, l := range s.loads(st, q, "prefix") {
			n := e.Len(l)
			if !e.LE(st, n, e.Int(16), 0) {
				c.Violate("many:"+key, pos, "%s with possibly more than 16 prefixes", what)
			}
			if !e.LE(st, e.Int(1), n, 0) {
				c.Violate("none:"+key, pos, "%s with possibly no prefix", what)
			}
			if !e.LE(st, n, g, 0) {
				why := ""
				for p, w := range verdict {
					if w != "" {
						why = " (pattern " + p + " accepts \"" + w + "\")"
					}
				}
				c.Violate("invalid:"+key, pos, "%s although some prefix may be not validated%s", what, why)
			}
		}
	}
	start := func(st *eng.State) { e.GhostSet(st, ghost, 0) }
	hooks := &eng.Hooks{
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			for _, m := range matches(e, st) {
				re, text := m[0], m[1]
				if text.Kind != eng.KInit || text.Args[0].Kind != eng.KIndexAddr {
					continue
				}
				ia := text.Args[0]
				for _, l := range s.loads(st, q, "prefix") {
					if ia.Args[0] != l || !good(re) {
						continue
					}
					if idx := ia.Args[1]; e.LE(st, idx, g, 0) && e.LE(st, g, idx, 0) {
						e.GhostInc(st, ghost, 1)
						c.Count("validation steps", 1)
					}
				}
			}
		},
		OnCall: func(ev *eng.CallEvent) {
			if readsFile(ev) {
				c.Count("reads of source files", 1)
				check(ev.St, ev.Pos, "read:"+relName(c.P, ev.Fn), "linkSet reads a source file")
			}
		},
	}
	for _, st := range s.Inits {
		start(st)
	}
	for _, o := range s.Run(name, hooks) {
		if !s.maySucceed(o) {
			c.Count("failing outcomes", 1)
			continue
		}
		c.Count("successful outcomes", 1)
		check(o.St, fn.Pos(), "reply", "linkSet may succeed")
	}
	c.Need("reads of source files", 2)
	c.Need("validation steps", 1)
	c.Need("successful outcomes", 1)
	c.Need("failing outcomes", 2)
}
