package chk

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

func init() {
	Rules["C19"] = ruleC19
}

// option of the backend that changes how it serves clients.
type option struct {
	name string
	kind byte      // string, bool, multiple values
	cell *eng.Term // pointer to the value or the flag.Value object
	def  *eng.Term // default value
}

// required options; options of link sources are found by their types.
var servingOptions = map[string]byte{
	"log":              's',
	"emacsclient":      's',
	"disable-link-set": 'b',
	"scheme":           'm',
	"emacsarg":         'm',
}

type plan struct {
	c       *Ctx
	in      *Installer
	e       *eng.Engine
	opts    map[string]*option
	sources *eng.Term // pointer to the list of link sources
	stored  map[*eng.Term]bool
	words   map[string]map[*eng.Term]bool // option: words added to the list of arguments
	paths   map[string]*eng.Term
	absOf   map[*eng.Term]*eng.Term // path: filepath.IsAbs
	lists   map[string]*eng.Term    // option: list of modified values
	multi   map[string]*varReg      // options with several values
	// source options: registered Var objects with the states of registration
	vars   map[string]*varReg
	gen    []*generator
	target *eng.Term // path of the wrapper
	// writing of wrappers
	sites []writeSite
}

type varReg struct {
	obj *eng.Term
	st  *eng.State
	pos token.Pos
}

const (
	ghSources = "sources in the command"
	ghFixed   = "sources with absolute paths"
)

func init() {
	installCounters = append(installCounters, ghSources, ghFixed)
	for name, kind := range servingOptions {
		if kind == 'm' {
			installCounters = append(installCounters, "values of "+name)
		}
	}
	sort.Strings(installCounters)
}

func isSourceSlice(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && isSourceType(s.Elem())
}

// isMulti: the type of options with several values.
func (p *plan) isMulti(T types.Type) bool {
	return p.c.P.hasMethod(T, "IsModified") && p.c.P.hasMethod(T, "ModifiedValues")
}

func (p *plan) multiOf(obj *eng.Term) *option {
	for _, o := range p.opts {
		if o.kind == 'm' && o.cell == obj {
			return o
		}
	}
	return nil
}

// initialString is the constant a package variable is initialized with.
func initialString(g *ssa.Global) (string, bool) {
	f := g.Pkg.Func("init")
	if f == nil {
		return "", false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					return constant.StringVal(k.Value), true
				}
				return "", false
			}
		}
	}
	return "", true
}

func (p *plan) def(t *eng.Term) *eng.Term {
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KGlobal {
		if s, ok := initialString(t.Args[0].Glob); ok {
			return p.e.Str(s)
		}
	}
	return t
}

func (p *plan) cur(st *eng.State, cell *eng.Term) *eng.Term {
	return p.e.Load(st, cell, derefT(cell.Typ))
}

func (p *plan) add(name string, kind byte, cell, def *eng.Term) {
	if want, ok := servingOptions[name]; ok && want == kind {
		p.opts[name] = &option{name, kind, cell, p.def(def)}
	}
}

func (p *plan) register(ev *eng.CallEvent) {
	n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
	if n == ev.Name || !strings.HasSuffix(n, "Var") {
		return
	}
	a := ev.Args
	if strings.HasPrefix(ev.Name, "(") {
		a = a[1:]
	}
	if len(a) < 3 {
		return
	}
	name, ok := eng.ConstStr(a[1])
	if !ok {
		return
	}
	switch n {
	case "StringVar":
		if name == "wrapper" {
			p.target = a[0]
		}
		p.add(name, 's', a[0], a[2])
	case "BoolVar":
		p.add(name, 'b', a[0], a[2])
	case "Var":
		obj := unconv(a[0])
		if obj.Typ == nil {
			return
		}
		if p.isMulti(obj.Typ) {
			p.add(name, 'm', obj, obj)
			p.multi[name] = &varReg{obj, ev.St.Clone(), ev.Pos}
			return
		}
		for _, v := range p.e.Cells(ev.St, obj) {
			if v.Typ == nil {
				continue
			}
			if ptr, ok := v.Typ.Underlying().(*types.Pointer); ok && isSourceSlice(ptr.Elem()) {
				p.sources = v
				p.vars[name] = &varReg{a[0], ev.St.Clone(), ev.Pos}
			}
		}
	}
}

// abs: the value is an absolute path if no error has been reported.
func (p *plan) abs(st *eng.State, t *eng.Term, depth int) bool {
	if depth > 12 {
		return false
	}
	if a := p.absOf[t]; a != nil {
		if v, known := p.e.Truth(st, a); known && v {
			return true
		}
	}
	switch t.Kind {
	case eng.KExtract:
		return p.abs(st, t.Args[0], depth+1)
	case eng.KCall:
		switch t.CalleeName() {
		case "path/filepath.Abs", "os.Executable":
			return true
		case "path/filepath.EvalSymlinks", "path/filepath.Clean", "path/filepath.Dir":
			return p.abs(st, t.Args[0], depth+1)
		case "path/filepath.Join":
			el, exact := p.e.Elems(st, t.Args[0])
			return exact && len(el) > 0 && p.abs(st, el[0], depth+1)
		}
	case eng.KPhi:
		in := p.e.Incoming(t)
		for _, x := range in {
			if !p.abs(st, x, depth+1) {
				return false
			}
		}
		return len(in) > 0
	}
	return false
}

// mentions: the term is computed from the other one.
func (p *plan) mentions(t, what *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == what {
			return true
		}
		for _, x := range t.Args {
			if walk(x) {
				return true
			}
		}
		for _, x := range p.e.Incoming(t) {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// executable: the value is made from the path of the running program.
func (p *plan) executable(t *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.Kind == eng.KCall && t.CalleeName() == "os.Executable" {
			return true
		}
		for _, x := range t.Args {
			if walk(x) {
				return true
			}
		}
		return false
	}
	if in := p.e.Incoming(t); t.Kind == eng.KPhi && len(in) > 0 {
		for _, x := range in {
			if !p.executable(x) {
				return false
			}
		}
		return true
	}
	return walk(t)
}

// unquote removes shell quotes from a word.
func (p *plan) unquote(st *eng.State, text []part) (r []part, ok bool) {
	quoted, esc := false, false
	lit := func(b byte) {
		if n := len(r); n > 0 && r[n-1].t == nil {
			r[n-1].lit += string([]byte{b})
		} else {
			r = append(r, part{lit: string([]byte{b})})
		}
	}
	for _, x := range text {
		if x.t != nil {
			if quoted {
				if v, old, _, ok := replaced(p.e, st, x.t); ok && old == "'" {
					r = append(r, part{t: v})
					continue
				}
			}
			r = append(r, part{t: x.t})
			continue
		}
		for i := 0; i < len(x.lit); i++ {
			switch b := x.lit[i]; {
			case esc:
				lit(b)
				esc = false
			case b == '\'':
				quoted = !quoted
			case quoted:
				lit(b)
			case b == '\\':
				esc = true
			case b == '"' || b == '$' || b == '`':
				return nil, false
			default:
				lit(b)
			}
		}
	}
	return r, !quoted && !esc
}

// word is put to a list of strings; it may be an argument stored in the wrapper.
func (p *plan) word(st *eng.State, x *eng.Term, where string, pos token.Pos) {
	alts := texts(p.e, st, x)
	if len(alts) != 1 {
		return
	}
	w, ok := p.unquote(st, alts[0])
	if !ok {
		return
	}
	if len(w) == 0 { // the empty word
		w = []part{{}}
	}
	pending := st.Ghost["pending"]
	st.SetGhost("pending", "")
	if pending != "" {
		p.given(st, x, pending, w, where, pos)
		return
	}
	if w[0].t != nil || !strings.HasPrefix(w[0].lit, "-") {
		return
	}
	name := strings.TrimPrefix(strings.TrimPrefix(w[0].lit, "-"), "-")
	if name == "" && len(w) > 2 && w[1].t != nil && w[1].t.Kind == eng.KCall && w[1].t.CalleeName() == "source Flag" && w[2].t == nil && strings.HasPrefix(w[2].lit, "=") {
		p.source(st, x, w[1].t.Args[0], trimWord(w[2:], 1), where, pos)
		return
	}
	if i := strings.IndexByte(name, '='); i >= 0 {
		n := len(w[0].lit) - len(name) + i + 1
		p.given(st, x, name[:i], trimWord(w, n), where, pos)
		return
	}
	if len(w) > 1 {
		p.c.Violate("option:"+where, pos, "the name of an option stored in the wrapper is not known: %v", x)
		return
	}
	if o := p.opts[name]; o != nil && o.kind == 'b' {
		p.given(st, x, name, []part{{lit: "true"}}, where, pos)
		return
	}
	st.SetGhost("pending", name)
	p.note(name, x)
}

// trimWord removes n bytes of the first constant part.
func trimWord(w []part, n int) []part {
	r := append([]part(nil), w...)
	r[0].lit = r[0].lit[n:]
	if r[0].lit == "" && len(r) > 1 {
		r = r[1:]
	}
	return r
}

func (p *plan) note(name string, x *eng.Term) {
	if p.words[name] == nil {
		p.words[name] = map[*eng.Term]bool{}
	}
	p.words[name][x] = true
}

// given: an option and its value are put to the list of arguments.
func (p *plan) given(st *eng.State, x *eng.Term, name string, value []part, where string, pos token.Pos) {
	o := p.opts[name]
	if o == nil {
		p.c.Violate("option:"+where, pos, "the option %q stored in the wrapper is not known to the option parser or is not an option for serving of clients", name)
		return
	}
	p.c.Count("options put to the command", 1)
	p.note(name, x)
	bad := func(f string, a ...interface{}) {
		p.c.Violate("value "+name+":"+where, pos, "the value of the option %q stored in the wrapper %s", name, fmt.Sprintf(f, a...))
	}
	var v *eng.Term
	if len(value) == 1 {
		v = value[0].t
	}
	switch o.kind {
	case 's':
		if v == nil || v != p.cur(st, o.cell) {
			if v == nil && len(value) == 1 && p.is(st, p.e.Eq(p.cur(st, o.cell), p.e.Str(value[0].lit))) {
				st.SetGhost("given "+name, fmt.Sprint(p.cur(st, o.cell).ID))
				return
			}
			bad("is not the one given to the backend: %v", v)
			return
		}
		st.SetGhost("given "+name, fmt.Sprint(v.ID))
	case 'b':
		cell := p.cur(st, o.cell)
		switch {
		case v == nil && len(value) == 1 && (value[0].lit == "true" || value[0].lit == "1"):
			if t, known := p.e.Truth(st, cell); !known || !t {
				bad("is set though it may be not requested")
			}
		case v != nil && v.Kind == eng.KCall && len(v.Args) == 1 && v.Args[0] == cell && (v.CalleeName() == "strconv.FormatBool" || v.CalleeName() == "formatted %t" || v.CalleeName() == "formatted %v"):
		default:
			bad("is not the one given to the backend")
			return
		}
		st.SetGhost("given "+name, "yes")
	case 'm':
		if v != nil {
			if l, idx, isElem := elemRef(v); isElem && p.lists[name] == l && sameIdx(p.e, st, idx, p.e.Ghost("values of "+name)) {
				p.e.GhostInc(st, "values of "+name, 1)
				return
			}
		}
		bad("is not the next one of the given values: %v", x)
	}
}

func (p *plan) is(st *eng.State, t *eng.Term) bool {
	v, known := p.e.Truth(st, t)
	return known && v
}

// elemRef recognizes elements of the list of sources.
func (p *plan) elemRef(st *eng.State, t *eng.Term) (l, idx *eng.Term, ok bool) {
	if l, idx, ok = elemRef(t); ok || p.sources == nil {
		return l, idx, ok
	}
	l = p.cur(st, p.sources)
	for a, v := range p.e.Cells(st, l) {
		if v == t && a.Kind == eng.KIndexAddr && a.Args[0] == l {
			return l, a.Args[1], true
		}
	}
	return nil, nil, false
}

// source: an option of a link source is put to the list of arguments.
func (p *plan) source(st *eng.State, x, src *eng.Term, value []part, where string, pos token.Pos) {
	p.c.Count("options put to the command", 1)
	p.note("", x)
	bad := func(f string, a ...interface{}) {
		p.c.Violate("source:"+where, pos, "the option of a source file stored in the wrapper %s", fmt.Sprintf(f, a...))
	}
	l, idx, isElem := p.elemRef(st, src)
	if !isElem || p.sources == nil || l != p.cur(st, p.sources) {
		bad("is not that of a configured source: %v", src)
		return
	}
	if !sameIdx(p.e, st, idx, p.e.Ghost(ghSources)) {
		bad("is not that of the next configured source")
		return
	}
	if len(value) != 1 || value[0].t == nil {
		bad("has another value than the name of the file")
		return
	}
	name := p.e.Pure("source Name", types.Typ[types.String], src)
	v := value[0].t
	if v != name {
		if !p.mentions(v, name) || !p.abs(st, v, 0) {
			bad("has another value than the path of the file: %v", v)
			return
		}
		if sameIdx(p.e, st, idx, p.e.Ghost(ghFixed)) {
			p.e.GhostInc(st, ghFixed, 1)
		}
	}
	p.e.GhostInc(st, ghSources, 1)
}

// replacedSource: a source is replaced by one with an absolute path.
func (p *plan) replacedSource(st *eng.State, l, idx, v *eng.Term) bool {
	v = unSource(v)
	if v.Kind != eng.KCall || v.CalleeName() != "source Clone" || p.sources == nil {
		return false
	}
	y := v.Args[0]
	yl, yi, isElem := p.elemRef(st, y)
	if !isElem || yl != p.cur(st, p.sources) {
		return false
	}
	if l != nil && (l != yl || !sameIdx(p.e, st, idx, yi)) {
		return false
	}
	name := p.e.Pure("source Name", types.Typ[types.String], y)
	return p.mentions(v.Args[1], name) && p.abs(st, v.Args[1], 0) && sameIdx(p.e, st, yi, p.e.Ghost(ghFixed))
}

func unSource(t *eng.Term) *eng.Term {
	for t.Kind == eng.KConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// plain: options that are known to have their default values.
func (p *plan) plain(st *eng.State) {
	known := map[string]bool{}
	for _, n := range strings.Fields(st.Ghost["plain"]) {
		known[n] = true
	}
	for name, o := range p.opts {
		switch o.kind {
		case 's':
			if p.is(st, p.e.Eq(p.cur(st, o.cell), o.def)) {
				known[name] = true
			}
		case 'b':
			if v, k := p.e.Truth(st, p.cur(st, o.cell)); k && !v {
				known[name] = true
			}
		case 'm':
			if st.Ghost["modified "+name] == "no" {
				known[name] = true
			}
		}
	}
	if p.sources != nil && p.e.LE(st, p.e.Len(p.cur(st, p.sources)), p.e.Int(0), 0) {
		known["sources"] = true
	}
	var l []string
	for n := range known {
		l = append(l, n)
	}
	sort.Strings(l)
	st.SetGhost("plain", strings.Join(l, " "))
}

func (p *plan) allPlain(st *eng.State) bool {
	return len(strings.Fields(st.Ghost["plain"])) == len(servingOptions)+1
}

func (p *plan) notPlain(st *eng.State) string {
	var l []string
	plain := map[string]bool{}
	for _, n := range strings.Fields(st.Ghost["plain"]) {
		plain[n] = true
	}
	for n := range servingOptions {
		if !plain[n] {
			l = append(l, n)
		}
	}
	if !plain["sources"] {
		l = append(l, "source files")
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func ruleC19(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly. Every option of the flag set that changes serving of clients (log, emacsclient, disable-link-set, scheme, emacsarg, options of link sources) is followed from its registration. In every state in which a wrapper is written: each of the options either is known to have its default value or words with its name and its current value have been put to the list that is a part of the exec command; loops over values and sources have handled all elements in order; the log file is known to be special or derived from filepath.Abs, every source has been replaced by its clone with a path derived from filepath.Abs of its name. In every state in which a manifest is written either a wrapper has been written and is the path of the program, or all options are known to be default and the path is that of the running program. Types of link sources: Clone keeps the type and sets the name, the registered option creates a source of the type whose Flag is that option. Options with several values: states reachable by Set are explored, the list of modified values recreates the list."
	p := &plan{c: c, opts: map[string]*option{}, stored: map[*eng.Term]bool{}, words: map[string]map[*eng.Term]bool{}, paths: map[string]*eng.Term{},
		absOf: map[*eng.Term]*eng.Term{}, lists: map[string]*eng.Term{}, multi: map[string]*varReg{}, vars: map[string]*varReg{}, gen: c.generators()}
	hooks := &eng.Hooks{
		OnCall: func(ev *eng.CallEvent) {
			p.register(ev)
			p.generated(ev)
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
			switch {
			case n != ev.Name && (n == "String" || n == "Bool") && len(res) == 1:
				a := ev.Args
				if strings.HasPrefix(ev.Name, "(") {
					a = a[1:]
				}
				if name, ok := eng.ConstStr(a[0]); ok {
					p.add(name, strings.ToLower(n)[0], res[0], a[1])
				}
			case ev.Name == "path/filepath.Abs" && len(res) == 2:
				// absolute paths are not empty, errors are covered by another branch
				p.e.Assume(st, p.e.Eq(res[0], p.e.Str("")), false)
			case ev.Name == "path/filepath.IsAbs" && len(res) == 1:
				p.absOf[ev.Args[0]] = res[0]
			}
		},
		Model: p.model,
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			if st.Ghost["wrapper"] != "" {
				return
			}
			p.plain(st)
			if p.target != nil {
				known := ""
				for _, s := range []string{"", "-"} {
					v, k := p.e.Truth(st, p.e.Eq(p.cur(st, p.target), p.e.Str(s)))
					known += fmt.Sprint(" ", v, k)
				}
				st.SetGhost("target", known)
			}
			// keep apart special names of log files
			for _, o := range p.opts {
				if o.kind != 's' {
					continue
				}
				v := p.cur(st, o.cell)
				known := ""
				for _, s := range []string{"", "-"} {
					if p.is(st, p.e.Eq(v, p.e.Str(s))) {
						known += "=" + s
					}
				}
				st.SetGhost("special "+o.name, known)
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			switch {
			case addr.Kind == eng.KIndexAddr && isTextType(T):
				p.stored[v] = true
				p.word(st, v, at, token.NoPos)
			case addr.Kind == eng.KIndexAddr && isSourceType(T):
				p.stored[v] = true
				l := addr.Args[0]
				if p.sources != nil && l != p.cur(st, p.sources) {
					l = nil
				}
				if p.replacedSource(st, l, addr.Args[1], v) {
					p.e.GhostInc(st, ghFixed, 1)
				}
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			el, exact := p.e.Elems(st, tail)
			if !exact {
				return
			}
			for _, x := range el {
				if p.stored[x] || x.Typ == nil {
					continue
				}
				switch {
				case isTextType(x.Typ):
					p.word(st, x, "", pos)
				case isSourceType(x.Typ):
					if p.replacedSource(st, nil, nil, x) {
						p.e.GhostInc(st, ghFixed, 1)
					}
				}
			}
		},
	}
	p.in = c.installer(hooks, func(e *eng.Engine) { p.e = e })
	if p.in == nil {
		return
	}
	for name := range servingOptions {
		if p.opts[name] == nil {
			c.Missing("the option -" + name)
		}
	}
	if p.sources == nil {
		c.Missing("the list of link sources bound to options")
		return
	}
	for _, w := range p.sites {
		for _, t := range texts(p.e, w.st, w.ev.Args[w.g.content]) {
			if isWrapper(t) {
				p.command(w, t)
			}
		}
		p.wrapper(w)
	}
	for _, w := range p.in.Sites {
		script := false
		for _, t := range texts(p.e, w.st, w.ev.Args[w.g.content]) {
			script = script || isWrapper(t)
		}
		if !script {
			p.manifest(w)
		}
	}
	p.sourceOptions()
	for name, reg := range p.multi {
		if servingOptions[name] != 0 {
			p.multiValues(name, reg)
		}
	}
	c.Need("wrappers", 1)
	c.Need("manifests", 2)
	c.Need("source types", 1)
	c.Need("options put to the command", 5)
}

func (p *plan) model(ev *eng.CallEvent) ([]eng.Outcome, bool) {
	e := p.e
	switch ev.Name {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		ok, bad := outcome(e, ev, true), outcome(e, ev, false)
		ok.St.SetGhost("path", "")
		obj := unconv(ev.Args[0])
		if obj.Typ != nil {
			T := obj.Typ
			ptr, isPtr := T.Underlying().(*types.Pointer)
			if isPtr {
				T = ptr.Elem()
			}
			if str, isStr := T.Underlying().(*types.Struct); isStr {
				if i, _ := jsonField(str, "path"); i >= 0 {
					var t *eng.Term
					if isPtr {
						t = e.Load(ev.St, e.FieldAddr(obj, T, i), str.Field(i).Type())
					} else {
						t = e.FieldOf(ev.St, obj, T, i)
					}
					id := fmt.Sprint(t.ID)
					p.paths[id] = t
					ok.St.SetGhost("path", id)
				}
			}
		}
		return []eng.Outcome{ok, bad}, true
	}
	if ev.Callee != nil && len(ev.Args) > 0 && len(ev.Res) == 1 {
		if o := p.multiOf(ev.Args[0]); o != nil {
			switch ev.Callee.Name() {
			case "IsModified":
				switch ev.St.Ghost["modified "+o.name] {
				case "yes", "no":
					return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Bool(ev.St.Ghost["modified "+o.name] == "yes")}}}, true
				}
				yes, no := ev.St.Clone(), ev.St.Clone()
				yes.SetGhost("modified "+o.name, "yes")
				no.SetGhost("modified "+o.name, "no")
				return []eng.Outcome{{St: yes, Res: []*eng.Term{e.Bool(true)}}, {St: no, Res: []*eng.Term{e.Bool(false)}}}, true
			case "ModifiedValues":
				l := e.Pure("modified values of "+o.name, ev.Res[0])
				p.lists[o.name] = l
				ev.St.Track["values of "+o.name] = l
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{l}}}, true
			}
		}
	}
	return sourceModel(e, ev)
}

// generated notes that a wrapper is going to be written.
func (p *plan) generated(ev *eng.CallEvent) {
	for _, g := range p.gen {
		if ev.Callee == nil || g.fn != ev.Callee || g.path >= len(ev.Args) {
			continue
		}
		for _, t := range texts(p.e, ev.St, ev.Args[g.content]) {
			if isWrapper(t) {
				id := fmt.Sprint(ev.Args[g.path].ID)
				p.paths[id] = ev.Args[g.path]
				p.sites = append(p.sites, writeSite{*ev, ev.St.Clone(), g})
				ev.St.SetGhost("wrapper", id)
				for n := range p.lists {
					delete(ev.St.Track, "values of "+n)
				}
				// nothing else is needed to check manifests
				for n := range ev.St.Ghost {
					if n != "wrapper" && n != "generating" {
						ev.St.SetGhost(n, "")
					}
				}
				return
			}
		}
	}
}

var execRe = regexp.MustCompile(`(^|[\s;&|])exec\s[^\n]*$`)

// command: the list of arguments is a part of the exec command.
func (p *plan) command(w writeSite, text []part) {
	where := relName(p.c.P, w.ev.Fn)
	line := ""
	found, exe := false, false
	for _, x := range text {
		if x.t == nil {
			line += strings.ReplaceAll(x.lit, "\\\n", " ")
			if i := strings.LastIndexByte(line, '\n'); i >= 0 {
				line = line[i+1:]
			}
			continue
		}
		if execRe.MatchString(line) && (x.list != nil || p.mentionsWord(x.t)) {
			found = true
		}
		if p.executable(x.t) {
			exe = true
		}
		line += "x"
	}
	if !found {
		p.c.Violate("command:"+where, w.ev.Pos, "the command executed by the wrapper has no list of arguments")
	}
	if !exe {
		p.c.Violate("program:"+where, w.ev.Pos, "the wrapper does not contain the path of the running program")
	}
}

func (p *plan) mentionsWord(t *eng.Term) bool {
	for _, m := range p.words {
		for x := range m {
			if p.mentions(x, t) {
				return true
			}
		}
	}
	return false
}

func (p *plan) wrapper(w writeSite) {
	c, e, st := p.c, p.e, w.st
	c.Count("wrappers", 1)
	where := relName(c.P, w.ev.Fn)
	content := w.ev.Args[w.g.content]
	used := func(name string) bool {
		for x := range p.words[name] {
			if p.mentions(content, x) {
				return true
			}
		}
		return false
	}
	bad := func(name, f string, a ...interface{}) {
		c.Violate("wrapper "+name+":"+where, w.ev.Pos, "a wrapper may be written though "+f, a...)
	}
	for name, o := range p.opts {
		cell := p.cur(st, o.cell)
		switch o.kind {
		case 's':
			if !p.is(st, e.Eq(cell, o.def)) && (st.Ghost["given "+name] != fmt.Sprint(cell.ID) || !used(name)) {
				bad(name, "it has not the value of the option %q", name)
			}
			if name == "log" && !p.is(st, e.Eq(cell, e.Str(""))) && !p.is(st, e.Eq(cell, e.Str("-"))) && !p.abs(st, cell, 0) {
				bad("log path", "the path of the log file may be not absolute: %v", cell)
			}
		case 'b':
			if v, known := e.Truth(st, cell); !(known && !v) && (st.Ghost["given "+name] != "yes" || !used(name)) {
				bad(name, "it has not the option %q", name)
			}
		case 'm':
			if st.Ghost["modified "+name] == "no" {
				break
			}
			l := p.lists[name]
			if l == nil || !e.LE(st, e.Len(l), e.Ghost("values of "+name), 0) || !used(name) {
				bad(name, "it has not all values of the option %q", name)
			}
		}
	}
	l := p.cur(st, p.sources)
	if !e.LE(st, e.Len(l), e.Ghost(ghSources), 0) || !used("") && !e.LE(st, e.Len(l), e.Int(0), 0) {
		bad("sources", "it has not all source files")
	}
	if !e.LE(st, e.Len(l), e.Ghost(ghFixed), 0) {
		bad("source paths", "paths of source files may be not absolute")
	}
}

func (p *plan) manifest(w writeSite) {
	c, e, st := p.c, p.e, w.st
	c.Count("manifests", 1)
	where := relName(c.P, w.ev.Fn)
	path := p.paths[st.Ghost["path"]]
	if path == nil {
		c.Violate("undecided:"+where, w.ev.Pos, "the program path of the manifest is not known")
		return
	}
	wrapper := p.paths[st.Ghost["wrapper"]]
	if wrapper != nil {
		if path != wrapper && !p.is(st, e.Eq(path, wrapper)) {
			c.Violate("other program:"+where, w.ev.Pos, "a wrapper has been written but the manifest refers to another file: %v", path)
		}
		return
	}
	if !p.allPlain(st) {
		c.Violate("no wrapper:"+where, w.ev.Pos, "a manifest may be written without a wrapper though options may be customized: %s", p.notPlain(st))
	}
	if !p.executable(path) {
		ok := false
		for _, f := range e.Facts(st) {
			if f.Val && f.T.Kind == eng.KBin && f.T.Op == token.EQL && (f.T.Args[0] == path && p.executable(f.T.Args[1]) || f.T.Args[1] == path && p.executable(f.T.Args[0])) {
				ok = true
			}
		}
		if !ok {
			c.Violate("other program:"+where, w.ev.Pos, "no wrapper is written but the manifest refers to another file than the running program: %v", path)
		}
	}
}

// sourceOptions: an option of a source recreates a source of the same type.
func (p *plan) sourceOptions() {
	c := p.c
	created := map[string]types.Type{}
	for name, reg := range p.vars {
		obj := reg.obj
		T := unconv(obj).Typ
		set := c.P.Method(T, "Set")
		if set == nil {
			c.Violate("source option "+name, reg.pos, "the method Set of the option %q is not found", name)
			continue
		}
		e := p.e
		n := 0
		value := e.Param("value of "+name, types.Typ[types.String])
		e.SetHooks(&eng.Hooks{OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			el, exact := e.Elems(st, tail)
			if !exact || len(el) != 1 || el[0].Typ == nil || el[0].Kind != eng.KIface && !isSourceType(el[0].Typ) {
				return
			}
			n++
			st.SetGhost("source added", st.Ghost["source added"]+"+")
			x := el[0]
			for x.Kind == eng.KConv {
				x = x.Args[0]
			}
			if x.Kind != eng.KIface {
				c.Violate("source option "+name, pos, "the type of sources created by the option %q is not known", name)
				return
			}
			created[name] = ifaceType(x)
			p.sourceName(created[name], x.Args[0], value, "a source created by the option "+name, pos)
		}})
		st := reg.st.Clone()
		for _, o := range e.Run(set, st, []*eng.Term{unconv(obj), value}, nil, "Set") {
			if o.Panic {
				continue
			}
			if len(o.Res) == 1 {
				if isNil, known := e.IsNil(o.St, o.Res[0]); known && !isNil {
					continue
				}
			}
			if cur := e.Load(o.St, p.sources, derefT(p.sources.Typ)); o.St.Ghost["source added"] != "+" || cur == e.Load(reg.st, p.sources, derefT(p.sources.Typ)) {
				c.Violate("source option "+name, set.Pos(), "the option %q does not add a source to the list", name)
			}
		}
		if n == 0 {
			c.Violate("source option "+name, set.Pos(), "the option %q does not create sources", name)
		}
	}
	for _, T := range c.sourceTypes() {
		c.Count("source types", 1)
		tn := types.TypeString(T, func(*types.Package) string { return "" })
		flag, ok := c.sourceFlag(T)
		if !ok {
			c.Violate("source flag "+tn, token.NoPos, "the option of sources of the type %s is not constant", tn)
			continue
		}
		if p.vars[flag] == nil {
			c.Violate("source flag "+tn, c.P.Method(T, "Flag").Pos(), "the option %q of sources of the type %s is not registered", flag, tn)
		} else if K := created[flag]; K != nil && !types.Identical(baseType(K), baseType(T)) {
			c.Violate("source flag "+tn, c.P.Method(T, "Flag").Pos(), "the option %q of sources of the type %s creates sources of the type %v", flag, tn, K)
		}
		clone := c.P.Method(T, "Clone")
		if clone == nil {
			c.Violate("source clone "+tn, token.NoPos, "no method Clone of %s", tn)
			continue
		}
		e := p.e
		e.SetHooks(&eng.Hooks{})
		path := e.Param("path", types.Typ[types.String])
		for _, o := range e.Run(clone, eng.NewState(), []*eng.Term{e.Param("source", clone.Params[0].Type()), path}, nil, "Clone") {
			if o.Panic {
				continue
			}
			x := o.Res[0]
			for x.Kind == eng.KConv {
				x = x.Args[0]
			}
			if x.Typ == nil || !types.Identical(baseType(ifaceType(x)), baseType(T)) {
				c.Violate("source clone "+tn, clone.Pos(), "a clone of a source of the type %s may have another type: %v", tn, x)
				continue
			}
			recv := x
			if x.Kind == eng.KIface {
				recv = x.Args[0]
			}
			p.sourceNameIn(o.St, ifaceType(x), recv, path, "a clone of a source of the type "+tn, clone.Pos())
		}
	}
}

// ifaceType is the dynamic type of an interface value.
func ifaceType(x *eng.Term) types.Type {
	if x.Kind != eng.KIface || x.Typ != nil && !types.IsInterface(x.Typ) {
		return x.Typ
	}
	return x.Args[0].Typ
}

func baseType(T types.Type) types.Type {
	if ptr, ok := T.(*types.Pointer); ok {
		return ptr.Elem()
	}
	return T
}

// methodOf is the method with the receiver of the type T.
func (p *plan) methodOf(T types.Type, name string) *ssa.Function {
	ms := p.c.P.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.c.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *plan) sourceName(T types.Type, recv, want *eng.Term, what string, pos token.Pos) {
	p.sourceNameIn(eng.NewState(), T, recv, want, what, pos)
}

// sourceNameIn: the method Name of the value returns the wanted name.
func (p *plan) sourceNameIn(st *eng.State, T types.Type, recv, want *eng.Term, what string, pos token.Pos) {
	name := p.methodOf(T, "Name")
	if name == nil {
		p.c.Violate("source name", pos, "no method Name of %v", T)
		return
	}
	for _, o := range p.e.Run(name, st.Clone(), []*eng.Term{recv}, nil, "Name") {
		if o.Panic {
			continue
		}
		if unconv(o.Res[0]) != want {
			p.c.Violate("source name:"+what, pos, "%s has another name: %v", what, o.Res[0])
		}
	}
}

// multiValues: options made from the list of modified values recreate the
// list for every short sequence of values given to the option. Longer sequences do
// not lead to other states of the object.
func (p *plan) multiValues(tn string, reg *varReg) {
	c, e := p.c, p.e
	T := reg.obj.Typ
	set, isModified, modified := p.methodOf(T, "Set"), p.methodOf(T, "IsModified"), p.methodOf(T, "ModifiedValues")
	var list *eng.Term
	S, _ := derefPointer(T)
	str, ok := S.Underlying().(*types.Struct)
	for i := 0; ok && i < str.NumFields(); i++ {
		if ptr, ok := derefPointer(str.Field(i).Type()); ok && isTextSlice(ptr) {
			list = e.Load(reg.st, e.FieldAddr(reg.obj, S, i), str.Field(i).Type())
		}
	}
	if set == nil || isModified == nil || modified == nil || list == nil {
		c.Violate("undecided values:"+tn, reg.pos, "the list or methods of the option %s are not found", tn)
		return
	}
	const copied = "elements of the list copied"
	var cur *eng.Term // current value of the list
	def := e.Load(reg.st, list, derefT(list.Typ))
	next := func(st *eng.State, v, idx *eng.Term) {
		if l, i, ok := elemRef(v); ok && l == cur && sameIdx(e, st, i, e.Ghost(copied)) {
			if idx != nil && !(e.LE(st, e.Add(i, e.Int(1)), idx, 0) && e.LE(st, idx, e.Add(i, e.Int(1)), 0)) {
				return
			}
			e.GhostInc(st, copied, 1)
			return
		}
		if el, exact := flatten(e, st, cur, def); exact { // an element of a known list
			for i, x := range el {
				k := int64(i)
				if x == v && sameIdx(e, st, e.Ghost(copied), e.Int(k)) && (idx == nil || sameIdx(e, st, idx, e.Int(k+1))) {
					e.GhostInc(st, copied, 1)
					return
				}
			}
		}
	}
	e.SetHooks(&eng.Hooks{
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KIndexAddr && isTextType(T) {
				next(st, v, addr.Args[1])
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			if el, exact := e.Elems(st, tail); exact && len(el) == 1 {
				next(st, el[0], nil)
			}
		},
	})
	defer e.SetHooks(&eng.Hooks{})
	consts := func(st *eng.State) string {
		var l []string
		for i := 0; i < str.NumFields(); i++ {
			if v := e.Load(st, e.FieldAddr(reg.obj, S, i), str.Field(i).Type()); v.Kind == eng.KConst {
				l = append(l, fmt.Sprint(str.Field(i).Name(), "=", v))
			}
		}
		return strings.Join(l, " ")
	}
	type state struct {
		st    *eng.State
		given []*eng.Term // nil is for the empty value
		want  []*eng.Term // nil item is for the default list
		fixed string
	}
	describe := func(s *state) string {
		var l []string
		for _, v := range s.given {
			if v == nil {
				l = append(l, `""`)
			} else {
				l = append(l, "VALUE")
			}
		}
		return strings.Join(l, ", ")
	}
	check := func(s *state) {
		c.Count("sequences of values", 1)
		for _, o := range e.Run(isModified, s.st.Clone(), []*eng.Term{reg.obj}, nil, "IsModified") {
			if o.Panic {
				continue
			}
			if v, known := e.Truth(o.St, o.Res[0]); !known || v != (len(s.given) > 0) {
				c.Violate("modified:"+tn, isModified.Pos(), "it is not reported whether an option has been modified after values %s", describe(s))
			}
		}
		cur = e.Load(s.st, list, derefT(list.Typ))
		if got, ok := flatten(e, s.st, cur, def); !ok || !sameItems(got, s.want) {
			c.Violate("values:"+tn, set.Pos(), "the list has other elements than given by the option, values: %s, list: %v", describe(s), cur)
			return
		}
		if len(s.given) == 0 {
			return
		}
		st := s.st.Clone()
		e.GhostSet(st, copied, 0)
		for _, o := range e.Run(modified, st, []*eng.Term{reg.obj}, nil, "ModifiedValues") {
			if o.Panic {
				continue
			}
			got, ok := flatten(e, o.St, o.Res[0], def)
			first := !ok // of unknown number of elements
			if ok && len(got) > 0 && got[0] != nil {
				v, isStr := eng.ConstStr(got[0])
				first = isStr && v == ""
			}
			if first && s.want != nil && (len(s.want) == 0 || s.want[0] != nil) {
				// [""] and a copy of the list
				res := o.Res[0]
				if e.LE(o.St, e.Len(cur), e.Ghost(copied), 0) && e.LE(o.St, e.Len(res), e.Len(cur), 1) && e.LE(o.St, e.Len(cur), e.Len(res), -1) {
					continue
				}
			}
			var replay []*eng.Term
			if ok {
				replay = []*eng.Term{nil}
				for _, v := range got {
					if v == nil {
						ok = false // the whole default list
						break
					}
					if s, isStr := eng.ConstStr(v); isStr && s == "" {
						replay = replay[:0]
					} else {
						replay = append(replay, v)
					}
				}
			}
			if !ok || !sameItems(replay, s.want) {
				c.Violate("modified values:"+tn, modified.Pos(), "options made from modified values do not recreate the list, values: %s, modified values: %v", describe(s), o.Res[0])
			}
		}
	}
	n := 0
	var explore func(s *state, depth int)
	explore = func(s *state, depth int) {
		check(s)
		if depth == 4 {
			return
		}
		for _, empty := range []bool{false, true} {
			st := s.st.Clone()
			var v, item *eng.Term
			next := &state{given: append(append([]*eng.Term(nil), s.given...), nil)}
			if empty {
				v = e.Str("")
				next.want = []*eng.Term{}
			} else {
				n++
				v = e.Param(fmt.Sprintf("value %d", n), types.Typ[types.String])
				item = v
				e.Assume(st, e.Eq(v, e.Str("")), false)
				next.want = append(append([]*eng.Term(nil), s.want...), v)
			}
			next.given[len(next.given)-1] = item
			for _, o := range e.Run(set, st, []*eng.Term{reg.obj, v}, nil, "Set") {
				if o.Panic {
					continue
				}
				if isNil, known := e.IsNil(o.St, o.Res[0]); known && !isNil {
					if !empty {
						c.Violate("refused:"+tn, set.Pos(), "a value of an option is refused after %s", describe(s))
					}
					continue // the program exits
				}
				to := *next
				to.st = o.St
				to.fixed = consts(o.St)
				if k := len(to.given); k >= 4 && to.given[k-1] != nil && to.given[k-2] != nil && to.fixed != s.fixed {
					c.Violate("states:"+tn, set.Pos(), "the state of the option depends on number of values: %s, %s", s.fixed, to.fixed)
				}
				explore(&to, depth+1)
			}
		}
	}
	explore(&state{st: reg.st, want: []*eng.Term{nil}, fixed: consts(reg.st)}, 0)
}

func derefPointer(T types.Type) (types.Type, bool) {
	if T == nil {
		return nil, false
	}
	ptr, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return ptr.Elem(), true
}

func isTextSlice(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	return ok && isTextType(s.Elem())
}

func sameItems(a, b []*eng.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// flatten lists elements of t, nil is for the whole default list.
func flatten(e *eng.Engine, st *eng.State, t, def *eng.Term) ([]*eng.Term, bool) {
	if t == def {
		return []*eng.Term{nil}, true
	}
	switch t.Kind {
	case eng.KNil:
		return nil, true
	case eng.KConv:
		return flatten(e, st, t.Args[0], def)
	case eng.KList, eng.KCat:
		var r []*eng.Term
		for i, x := range t.Args {
			if x == nil {
				continue
			}
			if i > 0 && t.Kind == eng.KList {
				r = append(r, x)
				continue
			}
			l, ok := flatten(e, st, x, def)
			if !ok {
				return nil, false
			}
			r = append(r, l...)
		}
		return r, true
	case eng.KSlice:
		lo, hi := t.Args[1], t.Args[2]
		if n, ok := eng.ConstInt(hi); ok && n == 0 {
			return nil, true
		}
		if hi != nil {
			break
		}
		l, ok := flatten(e, st, t.Args[0], def)
		if !ok || lo == nil {
			return l, ok
		}
		n := e.Int(0)
		for i := 0; i <= len(l); i++ {
			if e.LE(st, n, lo, 0) && e.LE(st, lo, n, 0) {
				return l[i:], true
			}
			if i < len(l) {
				k := e.Int(1)
				if l[i] == nil {
					k = e.Len(def)
				}
				n = e.Add(n, k)
			}
		}
	}
	return e.Elems(st, t)
}
