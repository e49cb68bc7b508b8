package chk

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C03"] = ruleC03 }

// operations of the protocol: a member of the request that identifies the handler and names clients may use.
var operations = []struct {
	op, member string
	names      []string
}{
	{"hello", "formats", []string{"hello", "linkremark.hello", "burl.hello"}},
	{"capture", "data", []string{"capture", "linkremark.capture", "burl.capture"}},
	{"visit", "file", []string{"linkremark.visit", "burl.visit"}},
	{"urlMentions", "variants", []string{"linkremark.urlMentions", "burl.urlMentions"}},
	{"linkSet", "prefix", []string{"linkremark.linkSet", "burl.linkSet"}},
}

// constPrefix gives the constant text a string starts with.
func constPrefix(e *eng.Engine, st *eng.State, t *eng.Term) string {
	if s, ok := eng.ConstStr(t); ok {
		return s
	}
	switch {
	case t.Kind == eng.KConv && len(t.Args) == 1:
		return constPrefix(e, st, t.Args[0])
	case t.Kind == eng.KBin && t.Op == token.ADD:
		if s, ok := eng.ConstStr(t.Args[0]); ok {
			return s + constPrefix(e, st, t.Args[1])
		}
		return constPrefix(e, st, t.Args[0])
	case t.Kind == eng.KCall && t.CalleeName() == "fmt.Sprintf":
		if s, ok := eng.ConstStr(t.Args[0]); ok {
			if i := strings.IndexByte(s, '%'); i >= 0 {
				s = s[:i]
			}
			return s
		}
	case t.Kind == eng.KCall && t.CalleeName() == "fmt.Sprint":
		if el, _ := e.Elems(st, t.Args[0]); len(el) > 0 {
			return constPrefix(e, st, strip(el[0]))
		}
	case t.Kind == eng.KCall && t.CalleeName() == "strings.Join":
		if el, _ := e.Elems(st, t.Args[0]); len(el) > 1 {
			sep, _ := eng.ConstStr(t.Args[1])
			if s, ok := eng.ConstStr(el[0]); ok {
				return s + sep
			}
			return constPrefix(e, st, el[0])
		}
	}
	return ""
}

// constStrings lists all values of a string made of constants and elements of constant lists; nil if unknown.
func constStrings(e *eng.Engine, st *eng.State, t *eng.Term, depth int) []string {
	if s, ok := eng.ConstStr(t); ok {
		return []string{s}
	}
	if depth == 0 {
		return nil
	}
	var l []string
	var list *eng.Term
	switch {
	case t.Kind == eng.KBin && t.Op == token.ADD:
		for _, a := range constStrings(e, st, t.Args[0], depth-1) {
			for _, b := range constStrings(e, st, t.Args[1], depth-1) {
				l = append(l, a+b)
			}
		}
		return l
	case t.Kind == eng.KConv && len(t.Args) == 1:
		return constStrings(e, st, t.Args[0], depth)
	case t.Kind == eng.KInit && t.Args[0].Kind == eng.KIndexAddr:
		list = t.Args[0].Args[0]
	case t.Kind == eng.KIndex:
		list = t.Args[0]
	case t.Kind == eng.KPhi:
		for _, o := range e.Origins(t) {
			x := constStrings(e, st, o, depth-1)
			if len(x) == 0 {
				return nil
			}
			l = append(l, x...)
		}
		return l
	}
	if list == nil {
		return nil
	}
	el, exact := e.Elems(st, list)
	if !exact {
		return nil
	}
	for _, x := range el {
		s := constStrings(e, st, x, depth-1)
		if len(s) == 0 {
			return nil
		}
		l = append(l, s...)
	}
	return l
}

func ruleC03(c *Ctx) {
	c.Rule = "main of the backend is interpreted abstractly till rpc.ServeCodec, then ReadRequestHeader of the codec that is served, with an arbitrary method name decoded by the JSON codec. After success the method name left in the request has to be a value of the table looked up by exactly the name the client sent, or text that can not name a method of a registered service. A decoded request never ends in an error (it would end the session). The table has exactly the published names, each one is mapped to a registered method that net/rpc accepts and whose request carries the member specific for the operation."
	main := c.P.mainFunc(backendPkg)
	if main == nil {
		c.Missing("main of " + backendPkg)
		return
	}
	e := c.Engine()
	install := c.P.reaching(map[string]bool{"os.Rename": true, "io/ioutil.TempFile": true, "os.CreateTemp": true})
	serve := c.P.reaching(map[string]bool{"net/rpc.ServeCodec": true, "(*net/rpc.Server).ServeCodec": true, "net/rpc.RegisterName": true, "net/rpc.Register": true})
	type registered struct {
		name   string
		T      types.Type
		server *eng.Term
	}
	services := map[string]registered{}
	var codec, server *eng.Term
	var start *eng.State
	inner := e.Param("JSON codec", types.NewInterfaceType(nil, nil))
	e.SetHooks(&eng.Hooks{
		Boundary: func(f *ssa.Function) bool { return install[f] && !serve[f] },
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			var r registered
			switch ev.Name {
			case "net/rpc.RegisterName":
				r.name, _ = eng.ConstStr(ev.Args[0])
				r.T = ev.Args[1].Typ
			case "net/rpc.Register":
				r.T = ev.Args[0].Typ
			case "(*net/rpc.Server).RegisterName":
				r.name, _ = eng.ConstStr(ev.Args[1])
				r.T, r.server = ev.Args[2].Typ, ev.Args[0]
			case "(*net/rpc.Server).Register":
				r.T, r.server = ev.Args[1].Typ, ev.Args[0]
			case "net/rpc/jsonrpc.NewServerCodec":
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{inner}}}, true
			case "net/rpc.ServeCodec", "(*net/rpc.Server).ServeCodec":
				x := ev.Args[len(ev.Args)-1]
				if len(ev.Args) > 1 {
					server = ev.Args[0]
				}
				if codec != nil && codec != x {
					c.Violate("codecs", ev.Pos, "different codecs are served")
				}
				codec, start = x, ev.St.Clone()
				return nil, true
			default:
				return nil, false
			}
			if r.name == "" {
				if n := namedOf(r.T); n != nil && !strings.HasSuffix(ev.Name, "Name") {
					r.name = n.Obj().Name()
				} else {
					c.Violate("service", ev.Pos, "the name of a registered service is not known")
				}
			}
			services[r.name] = r
			ok := eng.Outcome{St: ev.St.Clone(), Res: []*eng.Term{e.Nil()}}
			return []eng.Outcome{ok}, true
		},
	})
	e.Run(main, eng.NewState(), nil, nil, "main")
	if codec == nil || codec.Kind != eng.KIface {
		c.Missing("codec passed to ServeCodec in main of " + backendPkg)
		return
	}
	for _, r := range services {
		if r.server != server && (r.server == nil || server == nil) {
			c.Violate("server", token.NoPos, "the service %s is not registered at the server that is run", r.name)
		}
	}
	ms := c.P.Prog.MethodSets.MethodSet(codec.Typ)
	sel := ms.Lookup(nil, "ReadRequestHeader")
	if sel == nil {
		c.Missing("ReadRequestHeader of the codec")
		return
	}
	fn := c.P.Prog.MethodValue(sel)
	reqT := fn.Signature.Params().At(0).Type()
	req := e.Param("request header", reqT)
	name := e.Param("name sent by the client", types.Typ[types.String])
	str, _ := derefStruct(reqT)
	var addr *eng.Term
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "ServiceMethod" {
			addr = e.FieldAddr(req, reqT.(*types.Pointer).Elem(), i)
		}
	}
	e.SetHooks(&eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		if !ev.Invoke || len(ev.Args) == 0 || ev.Args[0] != inner {
			return nil, false
		}
		if !strings.HasSuffix(ev.Name, ".ReadRequestHeader") || ev.Args[1] != req {
			c.Violate("inner", ev.Pos, "unexpected call of the JSON codec: %s", ev.Name)
			return nil, false
		}
		c.Count("decodings", 1)
		good, bad := ev.St.Clone(), ev.St.Clone()
		good.SetGhost("dec", "ok")
		e.StoreQuiet(good, addr, name, types.Typ[types.String])
		err := e.Pure("decoding error", ev.Res[0])
		e.Assume(bad, e.Eq(err, e.Nil()), false)
		return []eng.Outcome{{St: good, Res: []*eng.Term{e.Nil()}}, {St: bad, Res: []*eng.Term{err}}}, true
	}})
	e.Assume(start, e.Eq(req, e.Nil()), false)
	var tables []*eng.Term
	table := map[string]string{}
	nLookups := 0
	for _, o := range e.Run(fn, start.Clone(), []*eng.Term{codec.Args[0], req}, nil, "header") {
		if o.Panic {
			continue
		}
		c.Count("outcomes", 1)
		n, known := e.IsNil(o.St, o.Res[0])
		if o.St.Ghost["dec"] != "ok" {
			continue
		}
		if !known || !n {
			c.Violate("session", fn.Pos(), "an error may be returned for a decoded request, it ends the session")
			if known {
				continue
			}
		}
		for _, v := range e.Origins(e.Load(o.St, addr, types.Typ[types.String])) {
			for v.Kind == eng.KExtract {
				v = v.Args[0]
			}
			if v.Kind == eng.KLookup {
				if v.Args[1] != name {
					c.Violate("key", fn.Pos(), "methods are looked up by something that may differ from the name sent by the client: %v", v.Args[1])
					continue
				}
				nLookups++
				m := v.Args[0]
				dup := false
				for _, x := range tables {
					dup = dup || x == m
				}
				if dup {
					continue
				}
				tables = append(tables, m)
				// loops over constant lists are taken as complete
				ents, _, all := e.MapMayEntries(o.St, m)
				if !all {
					c.Violate("undecided:table", fn.Pos(), "entries of the table of methods are not known")
				}
				for _, en := range ents {
					ks := constStrings(e, o.St, en[0], 3)
					xs := constStrings(e, o.St, en[1], 3)
					if len(ks) == 0 || len(xs) != 1 {
						c.Violate("undecided:table", fn.Pos(), "entries of the table of methods are not constant")
						continue
					}
					for _, k := range ks {
						table[k] = xs[0]
					}
				}
				continue
			}
			p := constPrefix(e, o.St, v)
			_, isConst := eng.ConstStr(v)
			for _, r := range services {
				s := r.name + "."
				if isConst {
					if strings.HasPrefix(p, s) {
						c.Violate("const", fn.Pos(), "a name that is not published is mapped to %s", p)
					}
					continue
				}
				if strings.HasPrefix(s, p) || strings.HasPrefix(p, s) {
					c.Violate("pass", fn.Pos(), "a name that is not published may be passed as a method of the service %s", r.name)
				}
			}
			c.Count("replacements of unknown names", 1)
		}
	}
	if nLookups == 0 {
		c.Missing("lookup of the method name in a table")
		return
	}
	expect := map[string]string{}
	for _, op := range operations {
		for _, n := range op.names {
			expect[n] = op.member
		}
	}
	methods := map[string]string{}
	for n, m := range table {
		c.Count("published names", 1)
		member, ok := expect[n]
		if !ok {
			c.Violate("extra:"+n, fn.Pos(), "the name %q is mapped to %q, it is not a published operation", n, m)
			continue
		}
		dot := strings.LastIndexByte(m, '.')
		if dot < 0 {
			c.Violate("target:"+n, fn.Pos(), "the name %q is mapped to %q, not to a method of a service", n, m)
			continue
		}
		r, ok := services[m[:dot]]
		if !ok {
			c.Violate("target:"+n, fn.Pos(), "the name %q is mapped to %q, there is no such service", n, m)
			continue
		}
		sel := c.P.Prog.MethodSets.MethodSet(r.T).Lookup(nil, m[dot+1:])
		if sel == nil {
			c.Violate("target:"+n, fn.Pos(), "the name %q is mapped to %q, there is no such method", n, m)
			continue
		}
		sig := sel.Type().(*types.Signature)
		if why := rpcSuitable(sig); why != "" {
			c.Violate("suitable:"+n, sel.Obj().Pos(), "%s (%s) can not be called by net/rpc: %s", m, n, why)
			continue
		}
		str, ok := derefStruct(sig.Params().At(0).Type())
		has := false
		for i := 0; ok && i < str.NumFields(); i++ {
			has = has || jsonName(str, i) == member
		}
		if !has {
			c.Violate("operation:"+n, sel.Obj().Pos(), "the name %q runs %s, its request has no member %q", n, m, member)
		}
		if x, ok := methods[member]; ok && x != m {
			c.Violate("operation:"+n, sel.Obj().Pos(), "names of one operation run different methods: %s, %s", m, x)
		}
		methods[member] = m
	}
	var missing []string
	for n := range expect {
		if _, ok := table[n]; !ok {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		c.Violate("missing", fn.Pos(), "operations are not published: %s", strings.Join(missing, ", "))
	}
	c.Need("decodings", 1)
	c.Need("published names", len(expect))
	c.Assume = append(c.Assume, "net/rpc splits method names at the last dot, answers requests for unknown services, unknown methods and ill-formed names by errors and continues the session; an error of ReadRequestHeader ends it")
}

// rpcSuitable follows rules of net/rpc.
func rpcSuitable(sig *types.Signature) string {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || !eng.IsErrorType(sig.Results().At(0).Type()) {
		return "wrong number or types of arguments or results"
	}
	if _, ok := sig.Params().At(1).Type().(*types.Pointer); !ok {
		return "reply is not a pointer"
	}
	for i := 0; i < 2; i++ {
		T := sig.Params().At(i).Type()
		for {
			p, ok := T.(*types.Pointer)
			if !ok {
				break
			}
			T = p.Elem()
		}
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && !n.Obj().Exported() {
			return "type " + n.Obj().Name() + " is not exported"
		}
	}
	return ""
}
