package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	Rules["C20"] = ruleC20
	Rules["C21"] = ruleC21
}

func isTextType(T types.Type) bool {
	if b, ok := T.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return isBytes(T)
}

// isSourceType: interface of link sources with the methods used to restore their options.
func isSourceType(T types.Type) bool {
	i, ok := T.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "Name", "Flag", "Clone":
			n++
		}
	}
	return n == 3
}

// sourceModel makes methods of link sources functions of the source.
func sourceModel(e *eng.Engine, ev *eng.CallEvent) ([]eng.Outcome, bool) {
	if !ev.Invoke || ev.Obj == nil || len(ev.Args) == 0 || len(ev.Res) != 1 {
		return nil, false
	}
	recv := ev.Obj.Type().(*types.Signature).Recv()
	if recv == nil || !isSourceType(recv.Type()) {
		return nil, false
	}
	switch ev.Obj.Name() {
	case "Name", "Flag", "Clone":
		return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Pure("source "+ev.Obj.Name(), ev.Res[0], ev.Args...)}}}, true
	}
	return nil, false
}

// sourceTypes are types of link sources.
func (c *Ctx) sourceTypes() []types.Type {
	var I *types.Interface
	for _, p := range c.P.Prog.AllPackages() {
		if !c.P.InModule(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok && isSourceType(t.Type()) {
				I = t.Type().Underlying().(*types.Interface)
			}
		}
	}
	if I == nil {
		return nil
	}
	var l []types.Type
	for _, T := range c.P.moduleNamed() {
		if _, ok := T.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(T, I) {
			l = append(l, T)
		} else if types.Implements(types.NewPointer(T), I) {
			l = append(l, types.NewPointer(T))
		}
	}
	return l
}

// methodFlag is the constant result of Flag of a source type.
func (c *Ctx) sourceFlag(T types.Type) (string, bool) {
	f := c.P.Method(T, "Flag")
	if f == nil {
		return "", false
	}
	e := c.Engine()
	s, n := "", 0
	for _, o := range e.Run(f, eng.NewState(), []*eng.Term{e.Param("source", f.Params[0].Type())}, nil, "Flag") {
		if o.Panic {
			continue
		}
		v, ok := eng.ConstStr(o.Res[0])
		if !ok || n > 0 && v != s {
			return "", false
		}
		s = v
		n++
	}
	return s, n > 0
}

var wordRe = regexp.MustCompile(`^[A-Za-z0-9_][A-Za-z0-9_-]*$`)

// ---- POSIX shell text

type shellText struct {
	c     *Ctx
	e     *eng.Engine
	st    *eng.State
	pos   token.Pos
	where string
	flags bool // options of sources are safe words
}

type lexer struct {
	stack   []byte // ' " ( #
	esc     bool
	atWord  bool
	unknown bool
}

func (l *lexer) top() byte {
	if len(l.stack) == 0 {
		return 0
	}
	return l.stack[len(l.stack)-1]
}

func (l *lexer) pop() { l.stack = l.stack[:len(l.stack)-1] }

func (l *lexer) text(s string) {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch l.top() {
		case '#':
			if ch == '\n' {
				l.pop()
				l.atWord = true
			}
			continue
		case '\'':
			if ch == '\'' {
				l.pop()
			}
			l.atWord = false
			continue
		case '"':
			if l.esc {
				l.esc = false
				continue
			}
			switch ch {
			case '\\':
				l.esc = true
			case '"':
				l.pop()
				l.atWord = false
			case '$':
				if i+1 < len(s) && s[i+1] == '(' {
					l.stack = append(l.stack, '(')
					l.atWord = true
					i++
				}
			case '`':
				l.unknown = true
			}
			continue
		}
		if l.esc {
			l.esc = false
			l.atWord = false
			continue
		}
		switch ch {
		case '\\':
			l.esc = true
			continue
		case '\'', '"':
			l.stack = append(l.stack, ch)
		case '#':
			if l.atWord {
				l.stack = append(l.stack, '#')
				continue
			}
		case '(':
			l.stack = append(l.stack, '(')
			l.atWord = true
			continue
		case ')':
			if l.top() == '(' {
				l.pop()
			}
		case '`', '<':
			if ch == '`' || i+1 < len(s) && s[i+1] == '<' {
				l.unknown = true
			}
		case ' ', '\t', '\n', ';', '&', '|':
			l.atWord = true
			continue
		}
		l.atWord = false
	}
}

// quotedParts checks variable parts of a text, it calls use for every variable value taken by the shell literally.
func (s *shellText) check(text []part, element bool, use func(v *eng.Term)) {
	l := lexer{atWord: true}
	bad := func(p part, why string) {
		s.c.Violate("unquoted:"+s.where, s.pos, "a variable part of the wrapper is %s: %v", why, p.t)
	}
	for _, p := range text {
		if p.t == nil {
			l.text(p.lit)
			continue
		}
		s.c.Count("variable parts of wrappers", 1)
		if l.unknown {
			bad(p, "put to a shell construct that is not understood")
			continue
		}
		if l.esc {
			bad(p, "put after a backslash")
			l.esc = false
			continue
		}
		switch l.top() {
		case '\'':
			v, old, new, ok := replaced(s.e, s.st, p.t)
			if !ok || old != "'" || new != `'\''` && new != `'"'"'` {
				bad(p, "put between single quotes though it may contain a single quote")
			} else if use != nil {
				use(v)
			}
		case 0, '(':
			if p.list != nil && !element {
				if strings.Trim(p.sep, " \t") != "" || p.sep == "" {
					bad(p, "a list of arguments that are not separated by spaces")
				}
				if !l.atWord {
					bad(p, "a list of arguments added to another word")
				}
				el, unknown := listParts(s.e, s.st, p.list)
				if unknown != nil {
					s.c.Violate("unknown:"+s.where, s.pos, "arguments stored in the wrapper are not known: %v", unknown)
				}
				s.c.Count("arguments stored in wrappers", len(el))
				for _, x := range el {
					for _, t := range texts(s.e, s.st, x) {
						s.check(t, true, use)
					}
				}
				continue
			}
			if s.flags && p.t.Kind == eng.KCall && p.t.CalleeName() == "source Flag" {
				continue
			}
			bad(p, "not quoted")
		case '"':
			bad(p, "put between double quotes")
		case '#':
			bad(p, "put to a comment")
		}
		l.atWord = false
	}
	if element && (len(l.stack) > 0 || l.esc || l.unknown) {
		s.c.Violate("open:"+s.where, s.pos, "quoting of an argument stored in the wrapper is not closed")
	}
}

// isWrapper: the text is a script.
func isWrapper(text []part) bool {
	return len(text) > 0 && text[0].t == nil && strings.HasPrefix(text[0].lit, "#!")
}

func ruleC20(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly; the text given to the function that writes generated files is decomposed to constant and variable parts (concatenation, Sprintf, Join, lists built by appends). The constant text is split by rules of POSIX shell quoting: every variable part has to be between single quotes and to be the result of replacing every single quote by '\\'' (or '\"'\"'), options of link sources have to be constant words, lists of arguments are joined by spaces outside of quotes, and quotes of every argument are closed."
	e0 := (*eng.Engine)(nil)
	in := c.installer(&eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) { return sourceModel(e0, ev) }}, func(e *eng.Engine) { e0 = e })
	if in == nil {
		return
	}
	flags := true
	for _, T := range c.sourceTypes() {
		c.Count("types of link sources", 1)
		if s, ok := c.sourceFlag(T); !ok || !wordRe.MatchString(s) {
			flags = false
		}
	}
	c.Need("types of link sources", 1)
	for _, w := range in.Sites {
		content := w.ev.Args[w.g.content]
		for _, t := range texts(in.E, w.st, content) {
			if !isWrapper(t) {
				continue
			}
			c.Count("wrapper texts", 1)
			s := &shellText{c, in.E, w.st, w.ev.Pos, relName(c.P, w.ev.Fn), flags}
			s.check(t, false, nil)
		}
	}
	c.Need("wrapper texts", 1)
	c.Need("variable parts of wrappers", 2)
	c.Need("arguments stored in wrappers", 5)
}

// ---- C21

type jsonCall struct {
	m   *eng.Term
	st  *eng.State
	ev  eng.CallEvent
	key string
}

// jsonField finds the field encoded under the name.
func jsonField(T *types.Struct, name string) (i int, opts string) {
	for i := 0; i < T.NumFields(); i++ {
		tag := reflect.StructTag(T.Tag(i)).Get("json")
		f, o, _ := strings.Cut(tag, ",")
		if tag == "-" {
			continue
		}
		if f == "" {
			f = T.Field(i).Name()
		}
		if f == name && T.Field(i).Exported() {
			return i, o
		}
	}
	return -1, ""
}

type manifests struct {
	c       *Ctx
	in      *Installer
	e       *eng.Engine
	encoded map[*eng.Term][]jsonCall
	base    map[*eng.Term]*eng.Term // filepath.Base
	ext     map[*eng.Term]*eng.Term
	lower   map[*eng.Term]*eng.Term
	abs     map[*eng.Term]*eng.Term // path: filepath.IsAbs
	origin  map[*eng.Term]bool      // elements of lists of origins: well formed
	bound   map[string]map[*eng.Term]bool
	types   []*types.Named
}

const ghOrigins = "origins"

// installCounters are set to zero before main is interpreted.
var installCounters = []string{ghOrigins}

// idList: the list of IDs of the option.
func (m *manifests) idList(st *eng.State, l *eng.Term, option string) bool {
	for _, o := range m.e.Origins(l) {
		for o.Kind == eng.KCat && o.Args[0].Kind == eng.KNil {
			o = o.Args[1]
		}
		ok := false
		for cell := range m.bound[option] {
			if o.Kind == eng.KInit && o.Args[0] == cell || m.e.Load(st, cell, derefT(cell.Typ)) == o {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// wellFormed checks an element of the list of origins.
func (m *manifests) wellFormed(st *eng.State, x *eng.Term) (ids []*eng.Term, ok bool) {
	for _, t := range texts(m.e, st, x) {
		if len(t) == 3 && t[0].t == nil && t[0].lit == "chrome-extension://" && t[1].t != nil && t[2].t == nil && t[2].lit == "/" {
			ids = append(ids, t[1].t)
			continue
		}
		return nil, false
	}
	return ids, len(ids) > 0
}

// idOf strips parts of the ID that are added back.
func idOf(t *eng.Term) *eng.Term {
	for t.Kind == eng.KCall && len(t.Args) == 2 && (t.CalleeName() == "strings.TrimPrefix" || t.CalleeName() == "strings.TrimSuffix") {
		s, ok := eng.ConstStr(t.Args[1])
		if !ok || s != "/" && s != "chrome-extension://" {
			break
		}
		t = t.Args[0]
	}
	return t
}

// element of a list of origins.
func (m *manifests) element(st *eng.State, x *eng.Term) {
	ids, ok := m.wellFormed(st, x)
	if !ok {
		return
	}
	for _, id := range ids {
		id = idOf(id)
		l, idx, isElem := elemRef(id)
		if !isElem || !m.idList(st, l, "chrome-extension") {
			return
		}
		if !sameIdx(m.e, st, idx, m.e.Ghost(ghOrigins)) {
			return
		}
	}
	m.origin[x] = true
	m.e.GhostInc(st, ghOrigins, 1)
}

func (m *manifests) truth(st *eng.State, t *eng.Term) bool {
	v, known := m.e.Truth(st, t)
	return known && v
}

func (m *manifests) note(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
	if len(res) != 1 || len(ev.Args) != 1 {
		return
	}
	switch ev.Name {
	case "path/filepath.Base":
		m.base[ev.Args[0]] = res[0]
	case "path/filepath.Ext":
		m.ext[ev.Args[0]] = res[0]
	case "strings.ToLower":
		m.lower[ev.Args[0]] = res[0]
	case "path/filepath.IsAbs":
		m.abs[ev.Args[0]] = res[0]
	}
}

func ruleC21(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly. Contents given to the function that writes generated files are a script or the JSON encoding of a structure with the members name, description, path, type, allowed_origins and allowed_extensions (the last two omitted if empty). In every state in which a manifest is encoded: the name is known to be not empty and equal to the base name of the path it is written to, the extension is .json (or stdout is requested), filepath.IsAbs(path) is known to hold, the type is the constant stdio, the description is a non-empty constant, exactly one of the lists is known to be not empty; the manifest requested by -manifest-firefox lists values of -mozilla-extension, that requested by -manifest-chrome has for every value of -chrome-extension an element \"chrome-extension://\" ID \"/\"."
	m := &manifests{c: c, encoded: map[*eng.Term][]jsonCall{}, base: map[*eng.Term]*eng.Term{}, ext: map[*eng.Term]*eng.Term{}, lower: map[*eng.Term]*eng.Term{},
		abs: map[*eng.Term]*eng.Term{}, origin: map[*eng.Term]bool{}, bound: map[string]map[*eng.Term]bool{}}
	hooks := &eng.Hooks{
		OnCall: func(ev *eng.CallEvent) {
			n := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*flag.FlagSet)."), "flag.")
			if n != "Var" || n == ev.Name {
				return
			}
			a := ev.Args
			if strings.HasPrefix(ev.Name, "(") {
				a = a[1:]
			}
			name, ok := eng.ConstStr(a[1])
			if !ok {
				return
			}
			m.bound[name] = map[*eng.Term]bool{}
			root := unconv(a[0])
			for _, v := range m.e.Cells(ev.St, root) {
				if v.Typ == nil {
					continue
				}
				if p, ok := v.Typ.Underlying().(*types.Pointer); ok && isStringList(p.Elem()) {
					m.bound[name][v] = true
				}
			}
		},
		AfterCall: m.note,
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			switch ev.Name {
			case "encoding/json.Marshal", "encoding/json.MarshalIndent":
				ok, bad := outcome(m.e, ev, true), outcome(m.e, ev, false)
				ok.Res[0] = m.e.Pure("JSON encoding "+ev.SiteID, ev.Res[0], ev.Args[0])
				ok.St.SetGhost("encoded", "")
				key := fmt.Sprint(ev.SiteID, ev.Args[0].ID, ok.St.Ghost)
				if obj := unconv(ev.Args[0]); obj.Typ != nil {
					if p, isPtr := obj.Typ.Underlying().(*types.Pointer); isPtr {
						if str, isStr := p.Elem().Underlying().(*types.Struct); isStr {
							for i := 0; i < str.NumFields(); i++ {
								key += fmt.Sprint(" ", m.e.Load(ev.St, m.e.FieldAddr(obj, p.Elem(), i), str.Field(i).Type()).ID)
							}
						}
					}
				}
				ok.St.SetGhost("encoded", key)
				m.encoded[ok.Res[0]] = append(m.encoded[ok.Res[0]], jsonCall{ev.Args[0], ev.St.Clone(), *ev, key})
				return []eng.Outcome{ok, bad}, true
			}
			return sourceModel(m.e, ev)
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			cond := m.e.Val(st, in.Cond)
			for cond.Kind == eng.KNot {
				cond, taken = cond.Args[0], !taken
			}
			if cond.Kind != eng.KBin || cond.Op != token.EQL {
				return
			}
			for i := range cond.Args {
				if s, ok := eng.ConstStr(cond.Args[i]); ok && s == "-" {
					st.SetGhost("stdout", "")
					if taken {
						st.SetGhost("stdout", fmt.Sprint(cond.Args[1-i].ID))
					}
				}
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KIndexAddr && isTextType(T) {
				m.element(st, v)
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			if base.Typ == nil && tail.Typ == nil {
				return
			}
			if el, exact := m.e.Elems(st, tail); exact {
				for _, x := range el {
					if m.origin[x] {
						continue // counted as it was put to the list of arguments
					}
					if x.Typ != nil && isTextType(x.Typ) {
						m.element(st, x)
					}
				}
			}
		},
	}
	m.in = c.installer(hooks, func(e *eng.Engine) { m.e = e })
	if m.in == nil {
		return
	}
	for _, w := range m.in.Sites {
		for _, t := range texts(m.e, w.st, w.ev.Args[w.g.content]) {
			if isWrapper(t) {
				continue
			}
			n := 0
			for _, p := range t {
				if p.t == nil {
					if strings.TrimSpace(p.lit) != "" {
						c.Violate("text:"+relName(c.P, w.ev.Fn), w.ev.Pos, "the manifest contains text that is not JSON encoding of the manifest: %q", p.lit)
					}
					continue
				}
				calls := m.encoded[p.t]
				if len(calls) == 0 {
					c.Violate("text:"+relName(c.P, w.ev.Fn), w.ev.Pos, "contents of a generated file are neither a script nor a successful JSON encoding: %v", p.t)
				}
				n++
				m.manifest(w, calls)
			}
			if n != 1 {
				c.Violate("text:"+relName(c.P, w.ev.Fn), w.ev.Pos, "the manifest is not a single JSON object")
			}
		}
	}
	m.validators()
	c.Need("manifests", 2)
	c.Need("firefox manifests", 1)
	c.Need("chrome manifests", 1)
}

func (m *manifests) manifest(w writeSite, calls []jsonCall) {
	c, e := m.c, m.e
	same := 0
	defer func() {
		if same == 0 {
			c.Violate("undecided:text:"+relName(c.P, w.ev.Fn), w.ev.Pos, "the encoding written to the file is not found")
		}
	}()
	for _, k := range calls {
		if k.key != w.st.Ghost["encoded"] {
			continue // another path
		}
		same++
		obj := unconv(k.m)
		if k.m.Typ == nil && obj.Typ == nil {
			continue
		}
		T := obj.Typ
		isPtr := false
		if p, ok := T.Underlying().(*types.Pointer); ok {
			T, isPtr = p.Elem(), true
		}
		str, ok := T.Underlying().(*types.Struct)
		where := relName(c.P, k.ev.Fn)
		bad := func(key, f string, a ...interface{}) {
			c.Violate(key+":"+where, k.ev.Pos, "a manifest may be written though "+f, a...)
		}
		if !ok {
			bad("shape", "it is not a structure: %v", T)
			continue
		}
		for _, x := range []types.Type{T, types.NewPointer(T)} {
			if c.P.hasMethod(x, "MarshalJSON") || c.P.hasMethod(x, "MarshalText") {
				bad("shape", "it has its own JSON encoding")
			}
		}
		c.Count("manifests", 1)
		if n, isNamed := types.Unalias(T).(*types.Named); isNamed {
			seen := false
			for _, x := range m.types {
				seen = seen || x == n
			}
			if !seen {
				m.types = append(m.types, n)
			}
		}
		st := k.st
		field := func(name string) *eng.Term {
			i, opts := jsonField(str, name)
			list := strings.HasPrefix(name, "allowed")
			FT := types.Type(types.Typ[types.String])
			if i >= 0 {
				FT = str.Field(i).Type()
			}
			switch {
			case i < 0:
				bad("member "+name, "it has no member %q", name)
				return nil
			case list && opts != "omitempty" || !list && opts != "":
				bad("member "+name, "the member %q has the options %q", name, opts)
			case list && !isStringList(FT) || !list && !isTextType(FT):
				bad("member "+name, "the member %q has the type %v", name, FT)
			}
			if isPtr {
				return e.Load(st, e.FieldAddr(obj, T, i), FT)
			}
			return e.FieldOf(st, obj, T, i)
		}
		n := 0
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Exported() && str.Field(i).Embedded() == false && reflect.StructTag(str.Tag(i)).Get("json") != "-" {
				n++
			}
			if str.Field(i).Embedded() {
				bad("shape", "it has embedded parts")
			}
		}
		if n != 6 {
			bad("shape", "it has %d members instead of 6", n)
		}
		name, path, typ, descr := field("name"), field("path"), field("type"), field("description")
		origins, exts := field("allowed_origins"), field("allowed_extensions")
		if name == nil || path == nil || typ == nil || descr == nil || origins == nil || exts == nil {
			continue
		}
		file := w.ev.Args[w.g.path]
		if !m.named(st, file, name) {
			bad("file name", "its name may differ from the base name of the .json file: %v", file)
		}
		if s, ok := eng.ConstStr(descr); !ok || s == "" {
			if v, known := e.Truth(st, e.Eq(descr, e.Str(""))); !known || v {
				bad("description", "its description is %v", descr)
			}
		}
		m.valid(st, name, path, typ, origins, exts, bad)
		// which browser
		ff, ch := m.in.cell("manifest-firefox"), m.in.cell("manifest-chrome")
		fromF := ff != nil && m.from(st, file, ff)
		fromC := ch != nil && m.from(st, file, ch)
		switch {
		case fromF && !fromC:
			c.Count("firefox manifests", 1)
			if !m.idList(st, exts, "mozilla-extension") {
				bad("extensions", "extensions of a Firefox manifest are not the configured ones: %v", exts)
			}
			if !m.isEmpty(st, origins) {
				bad("extensions", "a Firefox manifest lists origins")
			}
		case fromC && !fromF:
			c.Count("chrome manifests", 1)
			if !m.isEmpty(st, exts) {
				bad("origins", "a Chrome manifest lists extensions")
			}
			el, _ := e.Elems(st, origins)
			if p, unknown := listParts(e, st, origins); unknown == nil {
				el = p
			}
			if len(el) == 0 {
				bad("origins", "origins of a Chrome manifest are not known: %v", origins)
			}
			for _, x := range el {
				if !m.origin[x] && x.Kind != eng.KOpaque {
					if s, ok := eng.ConstStr(x); ok && s == "" && origins.Kind == eng.KMake {
						continue // initial value, it is replaced
					}
					bad("origins", "origins of a Chrome manifest may have another form than chrome-extension://ID/: %v", x)
				}
			}
			if !e.LE(st, e.Len(origins), e.Ghost(ghOrigins), 0) || !e.LE(st, e.Ghost(ghOrigins), e.Len(origins), 0) || !m.allIDs(st) {
				bad("origins", "not every configured Chrome extension gets its origin")
			}
		default:
			bad("browser", "its path is not given by -manifest-firefox or -manifest-chrome: %v", file)
		}
	}
}

func (m *manifests) isEmpty(st *eng.State, l *eng.Term) bool {
	if n, known := m.e.IsNil(st, l); known && n {
		return true
	}
	return m.e.LE(st, m.e.Len(l), m.e.Int(0), 0)
}

func (m *manifests) valid(st *eng.State, name, path, typ, origins, exts *eng.Term, bad func(key, f string, a ...interface{})) {
	e := m.e
	if v, known := e.Truth(st, e.Eq(name, e.Str(""))); !known || v {
		bad("name", "its name may be empty")
	}
	if s, ok := eng.ConstStr(typ); !ok || s != "stdio" {
		bad("type", "its type is %v", typ)
	}
	if a := m.abs[path]; a == nil || !m.truth(st, a) {
		bad("path", "path of the program may be not absolute: %v", path)
	}
	// cases of empty lists are considered separately
	for i := 0; i < 4; i++ {
		s := st.Clone()
		possible := true
		for j, l := range []*eng.Term{origins, exts} {
			possible = possible && e.Assume(s, e.Eq(e.Len(l), e.Int(0)), i&(1<<uint(j)) != 0)
		}
		if !possible || contradictory(e, s) {
			continue
		}
		filled := func(l *eng.Term) bool { return e.LE(s, e.Int(1), e.Len(l), 0) }
		if !(filled(origins) && m.isEmpty(s, exts) || filled(exts) && m.isEmpty(s, origins)) {
			bad("lists", "not exactly one of the lists of origins and extensions is not empty")
			break
		}
	}
}

// contradictory: a fact on equality of conditions does not hold.
func contradictory(e *eng.Engine, st *eng.State) bool {
	for _, f := range e.Facts(st) {
		if f.T.Kind != eng.KBin || f.T.Op != token.EQL {
			continue
		}
		a, ka := e.Truth(st, f.T.Args[0])
		b, kb := e.Truth(st, f.T.Args[1])
		if ka && kb && (a == b) != f.Val {
			return true
		}
	}
	return false
}

// validators checks exported methods Init() error of manifest types: they are
// documented as validation.
func (m *manifests) validators() {
	c := m.c
	for _, T := range m.types {
		ms := c.P.Prog.MethodSets.MethodSet(types.NewPointer(T))
		sel := ms.Lookup(T.Obj().Pkg(), "Init")
		if sel == nil {
			continue
		}
		fn := c.P.Prog.MethodValue(sel)
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || fn.Signature.Results().At(0).Type().String() != "error" {
			continue
		}
		c.Count("validating methods", 1)
		str := T.Underlying().(*types.Struct)
		e := c.Engine()
		m.e = e
		obj := e.Param("manifest", types.NewPointer(T))
		e.SetHooks(&eng.Hooks{AfterCall: m.note, OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			// keep apart states with different lists
			known := ""
			for _, n := range []string{"allowed_origins", "allowed_extensions"} {
				if i, _ := jsonField(str, n); i >= 0 {
					l := e.Load(st, e.FieldAddr(obj, T, i), str.Field(i).Type())
					known += fmt.Sprint(m.isEmpty(st, l), e.LE(st, e.Int(1), e.Len(l), 0), " ")
				}
			}
			st.SetGhost("lists", known)
		}})
		for _, o := range e.Run(fn, eng.NewState(), []*eng.Term{obj}, nil, "Init") {
			if o.Panic || len(o.Res) != 1 {
				continue
			}
			if n, known := e.IsNil(o.St, o.Res[0]); known && !n {
				continue
			}
			field := func(name string) *eng.Term {
				i, _ := jsonField(str, name)
				if i < 0 {
					return e.Str("")
				}
				return e.Load(o.St, e.FieldAddr(obj, T, i), str.Field(i).Type())
			}
			m.valid(o.St, field("name"), field("path"), field("type"), field("allowed_origins"), field("allowed_extensions"), func(key, f string, a ...interface{}) {
				c.Violate(key+":"+relName(c.P, fn), fn.Pos(), relName(c.P, fn)+" may accept a manifest though "+f, a...)
			})
		}
	}
}

func (m *manifests) allIDs(st *eng.State) bool {
	for cell := range m.bound["chrome-extension"] {
		if !m.e.LE(st, m.e.Len(m.e.Load(st, cell, derefT(cell.Typ))), m.e.Ghost(ghOrigins), 0) {
			return false
		}
	}
	return len(m.bound["chrome-extension"]) > 0
}

// from: the value is made from contents of the cell.
func (m *manifests) from(st *eng.State, t, cell *eng.Term) bool {
	cur := m.e.Load(st, cell, derefT(cell.Typ))
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == cur || t == cell {
			return true
		}
		for _, x := range t.Args {
			if walk(x) {
				return true
			}
		}
		for _, x := range m.e.Incoming(t) {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// named: the path has the .json extension and the base name, or is that of stdout.
func (m *manifests) named(st *eng.State, file, name *eng.Term) bool {
	e := m.e
	if m.truth(st, e.Eq(file, e.Str("-"))) || st.Ghost["stdout"] == fmt.Sprint(file.ID) {
		return true
	}
	base := m.base[file]
	if base == nil {
		return false
	}
	json := e.Str(".json")
	exts := []*eng.Term{m.ext[base], m.ext[file]}
	isJSON := false
	for _, x := range exts {
		if x == nil {
			continue
		}
		if m.truth(st, e.Eq(x, json)) || m.lower[x] != nil && m.truth(st, e.Eq(m.lower[x], json)) {
			isJSON = true
		}
	}
	for _, f := range e.Facts(st) {
		if f.T.Kind == eng.KCall && f.Val && len(f.T.Args) == 2 {
			a, b := f.T.Args[0], f.T.Args[1]
			switch f.T.CalleeName() {
			case "strings.EqualFold":
				if b == json && (a == exts[0] || a == exts[1]) || a == json && (b == exts[0] || b == exts[1]) {
					isJSON = true
				}
			case "strings.HasSuffix":
				if b == json && (a == base || a == file) {
					isJSON = true
				}
			}
		}
	}
	if !isJSON {
		return false
	}
	for _, x := range exts {
		if x == nil {
			continue
		}
		stem := e.SliceTerm(base, nil, e.Sub(e.Len(base), e.Len(x)), nil, base.Typ, true)
		if m.truth(st, e.Eq(stem, name)) {
			return true
		}
	}
	for _, f := range e.Facts(st) {
		if f.T.Kind != eng.KBin || f.T.Op != token.EQL || !f.Val {
			continue
		}
		for i := range f.T.Args {
			a, b := f.T.Args[i], f.T.Args[1-i]
			// TrimSuffix(base, ext) == name
			if a == name && b.Kind == eng.KCall && b.CalleeName() == "strings.TrimSuffix" && b.Args[0] == base && (b.Args[1] == json || b.Args[1] == exts[0] || b.Args[1] == exts[1]) {
				return true
			}
			// base == name + ext
			if a == base {
				for _, t := range texts(e, st, b) {
					if len(t) == 2 && t[0].t == name && (t[1].t == nil && t[1].lit == ".json" || t[1].t != nil && (t[1].t == exts[0] || t[1].t == exts[1])) {
						return true
					}
				}
			}
		}
	}
	return false
}
