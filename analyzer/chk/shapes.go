package chk

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C04"] = ruleC04 }

// form is the expected form of a JSON value.
type form struct {
	kind    byte // s string, n number, b boolean, * any, a array, o object, t node of a tree, l link
	el      *form
	members map[string]*form
	opt     map[string]bool
}

var (
	fStr  = &form{kind: 's'}
	fNum  = &form{kind: 'n'}
	fBool = &form{kind: 'b'}
	fAny  = &form{kind: '*'}
	fNode = &form{kind: 't'}
	fLink = &form{kind: 'l'}
)

func fList(el *form) *form { return &form{kind: 'a', el: el} }

// fObj makes an object from names and forms, names of members that may be omitted end with "?".
func fObj(a ...interface{}) *form {
	f := &form{kind: 'o', members: map[string]*form{}, opt: map[string]bool{}}
	for i := 0; i < len(a); i += 2 {
		n := a[i].(string)
		if strings.HasSuffix(n, "?") {
			n = n[:len(n)-1]
			f.opt[n] = true
		}
		f.members[n] = a[i+1].(*form)
	}
	return f
}

type operation struct {
	names          []string
	request, reply *form
}

var protocolOps = []operation{
	{[]string{"linkremark.hello", "burl.hello", "hello"},
		fObj("formats", fList(fObj("format", fStr, "version", fStr, "options?", fAny)), "version", fStr),
		fObj("format", fStr, "version", fStr, "capabilities", fList(fStr), "options?", fAny)},
	{[]string{"linkremark.capture", "burl.capture", "capture"},
		fObj("format", fStr, "version", fStr, "options?", fAny, "data", fObj("url", fStr, "title", fStr, "body", fAny), "error", fAny),
		fObj("preview", fBool, "status", fStr)},
	{[]string{"linkremark.urlMentions", "burl.urlMentions"},
		fObj("variants", fList(fStr), "options?", fObj("countLimit", fNum)), fNode},
	{[]string{"linkremark.visit", "burl.visit"}, fObj("file", fStr, "lineNo", fNum), fBool},
	{[]string{"linkremark.linkSet", "burl.linkSet"}, fObj("prefix", fList(fStr)), fObj("urls", fList(fStr))},
}

// nodes of link trees by their types.
var nodeForms = map[string]*form{
	"Body":      fObj("_type", fStr, "total", fNum, "filtered", fNum, "links", fList(fLink)),
	"File":      fObj("_type", fStr, "total", fNum, "filtered", fNum, "children", fList(fNode), "path", fStr),
	"FileGroup": fObj("_type", fStr, "total", fNum, "filtered", fNum, "children", fList(fNode)),
	"Heading":   fObj("_type", fStr, "total", fNum, "filtered", fNum, "children", fList(fNode), "lineNo", fNum, "rawText", fStr),
}

var linkForm = fObj("_type", fStr, "url", fStr, "descr?", fStr, "lineNo", fNum)

// member of a JSON object.
type member struct {
	name      string
	typ       types.Type
	omitEmpty bool
	asString  bool
	tagged    bool
	path      []int
	owner     []types.Type // structs of the path
}

// jsonMembers lists members of a struct by rules of encoding/json.
func jsonMembers(T types.Type) []member {
	type cand struct {
		member
		depth int
	}
	byName := map[string][]cand{}
	var walk func(T types.Type, depth int, path []int, owner []types.Type, seen map[types.Type]bool)
	walk = func(T types.Type, depth int, path []int, owner []types.Type, seen map[types.Type]bool) {
		st, ok := T.Underlying().(*types.Struct)
		if !ok || seen[T] {
			return
		}
		seen = map[types.Type]bool{T: true}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag, _ := reflect.StructTag(st.Tag(i)).Lookup("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			p := append(append([]int(nil), path...), i)
			o := append(append([]types.Type(nil), owner...), T)
			if f.Embedded() && name == "" {
				ft := baseType(f.Type())
				if _, ok := ft.Underlying().(*types.Struct); ok {
					walk(ft, depth+1, p, o, seen)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			m := member{name: name, typ: f.Type(), tagged: name != "", path: p, owner: o}
			if name == "" {
				m.name = f.Name()
			}
			for _, x := range parts[1:] {
				switch x {
				case "omitempty", "omitzero":
					m.omitEmpty = true
				case "string":
					m.asString = true
				}
			}
			byName[m.name] = append(byName[m.name], cand{m, depth})
		}
	}
	walk(T, 0, nil, nil, map[types.Type]bool{})
	var out []member
	for _, l := range byName {
		best := l[:1]
		for _, x := range l[1:] {
			switch b := best[0]; {
			case x.depth < b.depth || x.depth == b.depth && x.tagged && !b.tagged:
				best = []cand{x}
			case x.depth == b.depth && x.tagged == b.tagged:
				best = append(best, x)
			}
		}
		if len(best) == 1 {
			out = append(out, best[0].member)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// shapes compares types with forms.
type shapes struct {
	c      *Ctx
	decode bool
	report func(where, f string, a ...interface{})
}

func (s *shapes) custom(T types.Type) string {
	l := []string{"MarshalJSON", "MarshalText"}
	if s.decode {
		l = []string{"UnmarshalJSON", "UnmarshalText"}
	}
	for _, n := range l {
		if s.c.P.hasMethod(T, n) || s.decode && s.c.P.hasMethod(types.NewPointer(T), n) {
			return n
		}
	}
	return ""
}

var formNames = map[byte]string{'s': "a string", 'n': "a number", 'b': "a boolean", '*': "an arbitrary value", 'a': "an array", 'o': "an object", 't': "a node of a link tree", 'l': "a link"}

func (s *shapes) compare(where string, T types.Type, f *form) {
	s.c.Count("members compared", 1)
	base := baseType(T)
	if ptr, ok := base.(*types.Pointer); ok {
		base = ptr.Elem()
	}
	if f.kind == 't' || f.kind == 'l' {
		s.report(where, "has the type %v that is not that of %s", T, formNames[f.kind])
		return
	}
	if n := s.custom(base); n != "" {
		s.report(where, "is not decided: the type %v has the method %s", T, n)
		return
	}
	if n := s.custom(T); n != "" {
		s.report(where, "is not decided: the type %v has the method %s", T, n)
		return
	}
	bad := func() { s.report(where, "is represented by %v, it must be %s", T, formNames[f.kind]) }
	switch u := base.Underlying().(type) {
	case *types.Basic:
		switch {
		case base.String() == "encoding/json.Number":
			if f.kind != 'n' {
				bad()
			}
		case f.kind == 's' && u.Kind() == types.String:
		case f.kind == 'b' && u.Kind() == types.Bool:
		case f.kind == 'n' && u.Info()&types.IsInteger != 0:
			switch u.Kind() {
			case types.Int8, types.Int16, types.Uint8, types.Uint16:
				s.report(where, "has the type %v that can not hold all numbers", T)
			}
		default:
			bad()
		}
	case *types.Interface:
		if f.kind != '*' || u.NumMethods() != 0 {
			bad()
		}
	case *types.Map:
		if k, ok := u.Key().Underlying().(*types.Basic); f.kind != '*' || !ok || k.Kind() != types.String {
			bad()
			return
		}
		if I, ok := u.Elem().Underlying().(*types.Interface); !ok || I.NumMethods() != 0 {
			bad()
		}
	case *types.Slice:
		if f.kind != 'a' {
			bad()
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bad() // is base64 text
			return
		}
		s.compare(where+"[]", u.Elem(), f.el)
	case *types.Struct:
		if f.kind != 'o' {
			bad()
			return
		}
		s.members(where, jsonMembers(base), f)
	default:
		bad()
	}
}

func (s *shapes) members(where string, l []member, f *form) {
	found := map[string]bool{}
	for _, m := range l {
		name := m.name
		if s.decode && f.members[name] == nil {
			for n := range f.members {
				if strings.EqualFold(n, name) {
					name = n
				}
			}
		}
		want := f.members[name]
		if want == nil {
			s.report(where, "has the member %q that is not described by the protocol", m.name)
			continue
		}
		found[name] = true
		at := where + "." + name
		if m.asString {
			s.report(at, "is put to a string")
		}
		if !s.decode && m.omitEmpty && !f.opt[name] {
			s.report(at, "may be omitted though clients rely on it")
		}
		if s.decode && f.opt[name] && want.kind == 'o' {
			switch m.typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map:
			default:
				s.report(at, "may be omitted but its absence can not be recognized, its type is %v", m.typ)
			}
		}
		s.compare(at, m.typ, want)
	}
	for n := range f.members {
		if !found[n] {
			s.report(where, "has no member %q", n)
		}
	}
}

func ruleC04(c *Ctx) {
	c.Rule = "Request and reply types of handlers of published names are compared with the table of the protocol by rules of encoding/json (names, kinds, nesting, members that may be omitted, options of tags, custom encoders). Types of nodes of link trees: the encoder of a node is interpreted abstractly; every field has to be handled exactly once, either put to the object under the name from its tag or its own fields are; members and types of all combinations of merged structures are compared with the table. The encoder of links is interpreted, the value it encodes must have members of the table filled from the link. Functions of the command line client that make requests are interpreted: the name belongs to the protocol and the data have the form of the operation."
	srv := c.Server()
	if srv == nil {
		return
	}
	byOp := map[string]*operation{}
	for i := range protocolOps {
		op := &protocolOps[i]
		for _, n := range op.names {
			byOp[n] = op
		}
		name, fn := srv.handlerOf(op.names...)
		if fn == nil {
			c.Missing("handler of " + op.names[0])
			continue
		}
		c.Count("operations", 1)
		sig := fn.Signature
		q, r := sig.Params().At(0).Type(), sig.Params().At(1).Type()
		d := &shapes{c: c, decode: true}
		d.report = func(where, f string, a ...interface{}) {
			c.Violate("request:"+where, fn.Pos(), "in requests of %s %s %s", op.names[0], where, fmt.Sprintf(f, a...))
		}
		d.compare(name+" request", q, op.request)
		en := &shapes{c: c}
		en.report = func(where, f string, a ...interface{}) {
			c.Violate("reply:"+where, fn.Pos(), "in replies of %s %s %s", op.names[0], where, fmt.Sprintf(f, a...))
		}
		if op.reply.kind == 't' {
			t := c.treeEncoding(r)
			if t != nil {
				t.compare(en)
			}
			continue
		}
		en.compare(name+" reply", baseType(r), op.reply)
	}
	clientRequests(c, byOp)
	c.Need("operations", len(protocolOps))
	c.Need("members compared", 30)
	c.Need("requests of the client", 5)
}

const clientPkg = "tools/burl_client"

// clientRequests checks names and data of requests of the command line client.
func clientRequests(c *Ctx, byOp map[string]*operation) {
	pkg := c.P.Pkg(clientPkg)
	if pkg == nil {
		c.Missing("package " + clientPkg)
		return
	}
	used := map[string]bool{}
	for _, f := range c.P.ModuleFuncs() {
		if fnPkg(f) != pkg.Pkg {
			continue
		}
		res := f.Signature.Results()
		name, data := -1, -1
		for i := 0; i < res.Len(); i++ {
			switch u := res.At(i).Type().Underlying().(type) {
			case *types.Basic:
				if u.Kind() == types.String {
					name = i
				}
			case *types.Interface:
				if u.NumMethods() == 0 {
					data = i
				}
			}
		}
		if name < 0 || data < 0 {
			continue
		}
		where := relName(c.P, f)
		e := c.Engine()
		literals := map[*eng.Term]string{} // target of json.Unmarshal: text
		e.SetHooks(&eng.Hooks{
			OnCall: func(ev *eng.CallEvent) {
				if ev.Name == "encoding/json.Unmarshal" {
					if s, ok := eng.ConstStr(unconv(ev.Args[0])); ok {
						literals[unIface(ev.Args[1])] = s
						ev.St.SetGhost("data", s)
					} else {
						ev.St.SetGhost("data", "")
					}
				}
			},
		})
		var args []*eng.Term
		for _, p := range f.Params {
			args = append(args, e.Param(p.Name(), p.Type()))
		}
		for _, o := range e.Run(f, eng.NewState(), args, nil, where) {
			if o.Panic {
				continue
			}
			if last := o.Res[len(o.Res)-1]; eng.IsErrorType(res.At(res.Len() - 1).Type()) {
				if isNil, known := e.IsNil(o.St, last); known && !isNil {
					continue
				}
			}
			n, ok := eng.ConstStr(o.Res[name])
			if !ok {
				c.Violate("client name:"+where, f.Pos(), "the name of a request of the client is not constant: %v", o.Res[name])
				continue
			}
			op := byOp[n]
			if op == nil {
				c.Violate("client name:"+where, f.Pos(), "the client calls the operation %q that is not a part of the protocol", n)
				continue
			}
			if !used[n] {
				c.Count("requests of the client", 1)
				used[n] = true
			}
			x := o.Res[data]
			for x.Kind == eng.KConv {
				x = x.Args[0]
			}
			if x.Kind == eng.KIface && x.Typ != nil {
				en := &shapes{c: c}
				pos := f.Pos()
				en.report = func(at, f string, a ...interface{}) {
					c.Violate("client data:"+where+at, pos, "in requests of the client %s%s %s", n, at, fmt.Sprintf(f, a...))
				}
				en.compare("", baseType(x.Typ), op.request)
				continue
			}
			if text := o.St.Ghost["data"]; text != "" {
				var v interface{}
				if err := json.Unmarshal([]byte(text), &v); err != nil {
					c.Violate("client data:"+where, f.Pos(), "the client sends malformed data: %v", err)
				} else if msg := conforms(v, op.request, ""); msg != "" {
					c.Violate("client data:"+where, f.Pos(), "data of the request %s of the client: %s", n, msg)
				}
			}
		}
	}
}

func unIface(t *eng.Term) *eng.Term {
	for t.Kind == eng.KIface || t.Kind == eng.KConv {
		t = t.Args[0]
	}
	return t
}

// conforms compares a value with a form.
func conforms(v interface{}, f *form, at string) string {
	ok := false
	switch x := v.(type) {
	case string:
		ok = f.kind == 's'
	case float64:
		ok = f.kind == 'n'
	case bool:
		ok = f.kind == 'b'
	case []interface{}:
		ok = f.kind == 'a'
		if ok {
			for i, y := range x {
				if msg := conforms(y, f.el, fmt.Sprintf("%s[%d]", at, i)); msg != "" {
					return msg
				}
			}
		}
	case map[string]interface{}:
		ok = f.kind == 'o'
		if ok {
			for n, y := range x {
				if f.members[n] == nil {
					return fmt.Sprintf("%s has the member %q that is not described by the protocol", at, n)
				}
				if msg := conforms(y, f.members[n], at+"."+n); msg != "" {
					return msg
				}
			}
			for n := range f.members {
				if _, has := x[n]; !has && !f.opt[n] {
					return fmt.Sprintf("%s has no member %q", at, n)
				}
			}
		}
	}
	if !ok && f.kind != '*' {
		return fmt.Sprintf("%s must be %s", at, formNames[f.kind])
	}
	return ""
}

// linkEncoding: the encoder of links encodes all of their members.
func (c *Ctx) linkEncoding(T types.Type) {
	base := baseType(T)
	fn := c.P.Method(base, "MarshalJSON")
	where := "links"
	if fn == nil {
		c.Violate("link:encoder", token.NoPos, "the type of links %v has no encoder that adds their type", T)
		return
	}
	if !c.P.hasMethod(T, "MarshalJSON") {
		c.Violate("link:encoder", fn.Pos(), "the encoder of links is not used for values of the type %v", T)
		return
	}
	e := c.Engine()
	n := 0
	own := map[string]member{}
	for _, m := range jsonMembers(base) {
		own[m.name] = m
	}
	e.SetHooks(&eng.Hooks{OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
		// keep apart members that may be omitted
		st.SetGhost(fmt.Sprint("branch ", in.Pos()), fmt.Sprint(taken))
	}, OnCall: func(ev *eng.CallEvent) {
		if ev.Name != "encoding/json.Marshal" && !strings.HasSuffix(ev.Name, "json.Encoder).Encode") {
			return
		}
		n++
		x := ev.Args[len(ev.Args)-1]
		for x.Kind == eng.KConv {
			x = x.Args[0]
		}
		if x.Kind != eng.KIface || x.Typ == nil {
			c.Violate("link:undecided", ev.Pos, "the value encoded for a link is not known: %v", x)
			return
		}
		X := x.Typ
		v := x.Args[0]
		if c.P.hasMethod(X, "MarshalJSON") {
			c.Violate("link:recursion", ev.Pos, "the value encoded for a link has the same encoder, encoding never ends: %v", X)
			return
		}
		l := e.Param("link", fn.Signature.Recv().Type())
		field := func(m member) *eng.Term {
			t := l
			if _, ok := l.Typ.Underlying().(*types.Pointer); ok {
				t = e.Load(ev.St, l, base)
			}
			for i, k := range m.path {
				t = e.FieldOf(ev.St, t, m.owner[i], k)
			}
			return t
		}
		checkValue := func(name string, got *eng.Term) {
			if name == "_type" {
				if s, ok := eng.ConstStr(got); !ok || s != "Link" {
					c.Violate("link:_type", ev.Pos, "the type of a link is %v", got)
				}
				return
			}
			m, ok := own[name]
			if !ok {
				c.Violate("link:"+name, ev.Pos, "the member %q of links has no source", name)
				return
			}
			if want := field(m); unconv(got) != unconv(want) {
				c.Violate("link:"+name, ev.Pos, "the member %q of links is not taken from the link: %v", name, got)
			}
		}
		if _, ok := X.Underlying().(*types.Map); ok {
			entries, exact := e.MapEntries(ev.St, v)
			if !exact {
				c.Violate("link:undecided", ev.Pos, "members of links are not known")
				return
			}
			has := map[string]bool{}
			for _, en := range entries {
				name, ok := eng.ConstStr(unconv(en[0]))
				if !ok || linkForm.members[name] == nil {
					c.Violate("link:member", ev.Pos, "links have the member %v that is not described by the protocol", en[0])
					continue
				}
				has[name] = true
				checkValue(name, unIface(en[1]))
			}
			for name := range linkForm.members {
				if !has[name] && !linkForm.opt[name] {
					c.Violate("link:"+name, ev.Pos, "links may have no member %q", name)
				}
				if d, ok := own[name]; ok && !has[name] && linkForm.opt[name] {
					if v, known := e.Truth(ev.St, e.Eq(field(d), e.Str(""))); !known || !v {
						c.Violate("link:"+name, ev.Pos, "the member %q of links may be lost", name)
					}
				}
			}
			return
		}
		en := &shapes{c: c}
		en.report = func(at, f string, a ...interface{}) {
			c.Violate("link:"+at, ev.Pos, "%s: %s%s", where, at, fmt.Sprintf(f, a...))
		}
		S := baseType(X)
		en.compare("link", S, linkForm)
		if _, ok := X.Underlying().(*types.Pointer); ok {
			v = e.Load(ev.St, v, S)
		}
		for _, m := range jsonMembers(S) {
			t := v
			for i, k := range m.path {
				t = e.FieldOf(ev.St, t, m.owner[i], k)
			}
			checkValue(m.name, t)
		}
	}})
	e.Run(fn, eng.NewState(), []*eng.Term{e.Param("link", fn.Signature.Recv().Type())}, nil, "MarshalJSON")
	if n == 0 {
		c.Violate("link:undecided", fn.Pos(), "the encoder of links does not use encoding/json")
	}
	c.Count("link encoders", n)
}

// constResult is the only constant string a method returns.
func (c *Ctx) constResult(fn *ssa.Function) (string, bool) {
	e := c.Engine()
	e.SetHooks(&eng.Hooks{})
	var args []*eng.Term
	for _, p := range fn.Params {
		args = append(args, e.Param(p.Name(), p.Type()))
	}
	r, n := "", 0
	for _, o := range e.Run(fn, eng.NewState(), args, nil, "const") {
		if o.Panic {
			return "", false
		}
		x := o.Res[0]
		if x.Kind != eng.KConst || x.Val == nil || x.Val.Kind() != constant.String {
			return "", false
		}
		s := constant.StringVal(x.Val)
		if n > 0 && s != r {
			return "", false
		}
		r = s
		n++
	}
	return r, n > 0
}
