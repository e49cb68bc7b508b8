package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// treeJSON describes objects that nodes of link trees are encoded to.
type treeJSON struct {
	c     *Ctx
	T     types.Type // reply of the operation
	pos   token.Pos
	parse bool // names are separated from options of tags
	kinds []treeKind
}

// treeKind is a combination of structures merged into one object.
type treeKind struct {
	members []member
	parts   []types.Type
	typed   []types.Type
}

func (k treeKind) String() string {
	var l []string
	for _, T := range k.parts {
		l = append(l, types.TypeString(T, func(*types.Package) string { return "" }))
	}
	return strings.Join(l, "+")
}

// treeEncoding checks the encoder of nodes and finds objects they are encoded to.
func (c *Ctx) treeEncoding(R types.Type) *treeJSON {
	root := baseType(R)
	for {
		if ptr, ok := root.(*types.Pointer); ok {
			root = ptr.Elem()
			continue
		}
		break
	}
	fn := c.P.Method(root, "MarshalJSON")
	if fn == nil {
		c.Violate("tree:encoder", token.NoPos, "the reply type %v has no encoder of nodes", R)
		return nil
	}
	t := &treeJSON{c: c, T: root, pos: fn.Pos()}
	t.encoder(fn)
	for _, k := range t.expand(root, nil) {
		t.kinds = append(t.kinds, k)
	}
	c.Count("kinds of nodes", len(t.kinds))
	c.Need("kinds of nodes", 4)
	return t
}

// expand lists combinations of structures merged into the object of T.
func (t *treeJSON) expand(T types.Type, seen []types.Type) []treeKind {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		t.c.Violate("tree:part", t.pos, "the type %v merged into an object is not a structure", T)
		return nil
	}
	for _, x := range seen {
		if types.Identical(x, T) {
			t.c.Violate("tree:recursion", t.pos, "the type %v is merged into itself", T)
			return nil
		}
	}
	seen = append(append([]types.Type(nil), seen...), T)
	first := treeKind{parts: []types.Type{T}}
	if t.c.P.hasMethod(types.NewPointer(T), "BurlType") {
		first.typed = []types.Type{T}
	}
	kinds := []treeKind{first}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		F := st.Field(i).Type()
		if !st.Field(i).Exported() {
			t.c.Violate("tree:hidden "+st.Field(i).Name(), st.Field(i).Pos(), "the encoder can not read the field %s of %v", st.Field(i).Name(), T)
		}
		if _, merged := tag.Lookup("burl"); !merged {
			m := member{name: st.Field(i).Name(), typ: F}
			if v, ok := tag.Lookup("json"); ok {
				m.name = v
				if t.parse {
					m.name = strings.Split(v, ",")[0]
				}
				if m.name == "" || m.name == "-" || strings.Contains(m.name, ",") {
					t.c.Violate("tree:tag "+st.Field(i).Name(), st.Field(i).Pos(), "the tag %q of the field %s of %v becomes the name of a member with its options", v, st.Field(i).Name(), T)
				}
			}
			for j := range kinds {
				kinds[j].members = append(append([]member(nil), kinds[j].members...), m)
			}
			continue
		}
		var alts []treeKind
		switch u := F.Underlying().(type) {
		case *types.Pointer:
			alts = t.expand(u.Elem(), seen)
		case *types.Interface:
			for _, X := range t.implementers(F, seen) {
				alts = append(alts, t.expand(X, seen)...)
			}
		default:
			t.c.Violate("tree:part", st.Field(i).Pos(), "the field %s of the type %v can not be merged, it is not a pointer", st.Field(i).Name(), F)
		}
		var next []treeKind
		for _, k := range kinds {
			for _, a := range alts {
				next = append(next, treeKind{
					append(append([]member(nil), k.members...), a.members...),
					append(append([]types.Type(nil), k.parts...), a.parts...),
					append(append([]types.Type(nil), k.typed...), a.typed...)})
			}
		}
		kinds = next
	}
	return kinds
}

// implementers lists structures whose pointers may be values of the field.
func (t *treeJSON) implementers(I types.Type, seen []types.Type) []types.Type {
	var out []types.Type
	in := I.Underlying().(*types.Interface)
	isNode := func(T types.Type) bool { return t.c.P.hasMethod(types.NewPointer(T), "GetChildrenNodes") }
	wantNode := false
	for i := 0; i < in.NumMethods(); i++ {
		wantNode = wantNode || in.Method(i).Name() == "GetChildrenNodes"
	}
	for _, T := range t.c.P.moduleNamed() {
		if !types.Implements(types.NewPointer(T), in) || isNode(T) != wantNode || types.Identical(T, t.T) {
			continue
		}
		if _, ok := T.Underlying().(*types.Struct); !ok {
			continue
		}
		out = append(out, T)
	}
	return out
}

// distinct: members of merged structures do not overwrite each other.
func (t *treeJSON) distinct() {
	for _, k := range t.kinds {
		have := map[string]bool{"_type": true}
		for _, m := range k.members {
			t.c.Count("members of nodes", 1)
			if have[m.name] {
				t.c.Violate("tree:same "+m.name, t.pos, "several members of %v have the name %q", k, m.name)
			}
			have[m.name] = true
		}
		if len(k.typed) != 1 {
			t.c.Violate("tree:types "+k.String(), t.pos, "%d structures of %v give the type of the node, it must be one", len(k.typed), k)
		}
	}
}

// compare: objects have members described by the protocol.
func (t *treeJSON) compare(s *shapes) {
	c := t.c
	found := map[string]bool{}
	links := map[string]types.Type{}
	for _, k := range t.kinds {
		if len(k.typed) != 1 {
			c.Violate("tree:types "+k.String(), t.pos, "%d structures of %v give the type of the node, it must be one", len(k.typed), k)
			continue
		}
		name, ok := c.constResult(c.P.Method(k.typed[0], "BurlType"))
		f := nodeForms[name]
		if !ok || f == nil {
			c.Violate("tree:type "+k.String(), t.pos, "nodes of %v have the type %q that is not described by the protocol", k, name)
			continue
		}
		found[name] = true
		members := []member{{name: "_type", typ: types.Typ[types.String]}}
		for _, m := range k.members {
			want := f.members[m.name]
			if want != nil && want.kind == 'a' {
				c.Count("members compared", 1)
				sl, ok := m.typ.Underlying().(*types.Slice)
				switch {
				case !ok:
					c.Violate("tree:"+name+"."+m.name, t.pos, "the member %q of nodes %s is not an array: %v", m.name, name, m.typ)
				case want.el.kind == 'l':
					links[sl.Elem().String()] = sl.Elem()
				case want.el.kind == 't':
					// nodes are values of an interface, encoders of their types are used
					if I, ok := sl.Elem().Underlying().(*types.Interface); ok {
						if !types.Implements(types.NewPointer(t.T), I) {
							c.Violate("tree:"+name+"."+m.name, t.pos, "elements of the member %q of nodes %s are not nodes: %v", m.name, name, sl.Elem())
						}
					} else if !types.Identical(sl.Elem(), types.NewPointer(t.T)) {
						c.Violate("tree:"+name+"."+m.name, t.pos, "elements of the member %q of nodes %s are not nodes: %v", m.name, name, sl.Elem())
					}
				}
				members = append(members, member{name: m.name})
				continue
			}
			members = append(members, m)
		}
		g := &form{kind: 'o', members: map[string]*form{}, opt: f.opt}
		for n, x := range f.members {
			g.members[n] = x
		}
		var plain []member
		for _, m := range members {
			if m.typ == nil {
				delete(g.members, m.name)
				continue
			}
			plain = append(plain, m)
		}
		s.members("nodes "+name, plain, g)
	}
	var names []string
	for n := range nodeForms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !found[n] {
			c.Violate("tree:no "+n, t.pos, "no node has the type %q", n)
		}
	}
	for _, T := range links {
		c.linkEncoding(T)
	}
}

const ghFields = "fields handled"

// encoder interprets the encoder of nodes with models of reflection.
func (t *treeJSON) encoder(fn *ssa.Function) {
	c := t.c
	e := c.Engine()
	recv := e.Param("node", fn.Signature.Recv().Type())
	walkers := c.P.reaching(map[string]bool{"reflect.ValueOf": true, "reflect.TypeOf": true})
	any := types.NewInterfaceType(nil, nil)
	boolT, strT, intT := types.Typ[types.Bool], types.Typ[types.String], types.Typ[types.Int]
	where := relName(c.P, fn)
	// origin is the object a reflection value belongs to
	origin := func(x *eng.Term, names ...string) *eng.Term {
		x = unIface(x)
		if x.Kind == eng.KCall {
			for _, n := range names {
				if x.CalleeName() == n {
					return x.Args[0]
				}
			}
		}
		return nil
	}
	object := func(x *eng.Term) *eng.Term {
		for x.Kind == eng.KConv || x.Kind == eng.KIface {
			x = x.Args[0]
		}
		return x
	}
	outcome := func(ev *eng.CallEvent, res ...*eng.Term) ([]eng.Outcome, bool) {
		return []eng.Outcome{{St: ev.St, Res: res}}, true
	}
	// fieldOf recognizes values of fields
	fieldOf := func(x *eng.Term) (p, i *eng.Term) {
		x = unIface(x)
		if x.Kind == eng.KCall && x.CalleeName() == "reflect field" {
			return x.Args[0], x.Args[1]
		}
		return nil, nil
	}
	has := func(p, i *eng.Term, key string) *eng.Term { return e.Pure("has tag "+key, boolT, p, i) }
	tag := func(p, i *eng.Term, key string) *eng.Term { return e.Pure("tag "+key, strT, p, i) }
	hasTag := func(st *eng.State, p, i *eng.Term, key string) (bool, bool) {
		if v, known := e.Truth(st, has(p, i, key)); known {
			return v, true
		}
		if v, known := e.Truth(st, e.Eq(tag(p, i, key), e.Str(""))); known {
			return !v, true
		}
		return false, false
	}
	var pushed, stored, encoded, collapsed int
	handled := func(st *eng.State, p, i *eng.Term, pos token.Pos) {
		if st.Ghost["open"] != fmt.Sprint(p.ID) {
			c.Violate("tree:fields:"+where, pos, "a field of another structure than the current one is handled")
			return
		}
		if !sameIdx(e, st, i, e.Ghost(ghFields)) {
			c.Violate("tree:fields:"+where, pos, "fields are not handled one after another, exactly once each")
			return
		}
		e.GhostInc(st, ghFields, 1)
		st.SetGhost("tags", "")
	}
	push := func(st *eng.State, v *eng.Term, pos token.Pos) bool {
		if object(v) == recv {
			st.SetGhost("root", "yes")
			return true
		}
		p, i := fieldOf(v)
		if p == nil {
			return false
		}
		pushed++
		if b, known := hasTag(st, p, i, "burl"); !known || !b {
			c.Violate("tree:merge:"+where, pos, "a field may be merged into the object though it has no tag burl")
		}
		handled(st, p, i, pos)
		return true
	}
	var keyOf func(st *eng.State, k, p, i *eng.Term) (ok, parsed bool)
	keyOf = func(st *eng.State, k, p, i *eng.Term) (bool, bool) {
		js, known := hasTag(st, p, i, "json")
		k = unconv(k)
		if k.Kind == eng.KIface {
			k = unconv(k.Args[0])
		}
		if np, ni := fieldTypeMember(k, "Name"); np == p && ni == i {
			return known && !js, false
		}
		if k == tag(p, i, "json") {
			return known && js, false
		}
		// the part before a comma
		if l, idx, ok := elemRef(k); ok && l.Kind == eng.KCall && strings.HasPrefix(l.CalleeName(), "strings.Split") && l.Args[0] == tag(p, i, "json") {
			n, isConst := eng.ConstInt(idx)
			return known && js && isConst && n == 0, true
		}
		if k.Kind == eng.KExtract && k.N == 0 && k.Args[0].Kind == eng.KCall && k.Args[0].CalleeName() == "strings.Cut" && k.Args[0].Args[0] == tag(p, i, "json") {
			return known && js, true
		}
		return false, false
	}
	e.SetHooks(&eng.Hooks{
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			switch ev.Name {
			case "reflect.ValueOf":
				p := object(ev.Args[0])
				if o := ev.St.Ghost["open"]; o != "" {
					c.Violate("tree:skipped:"+where, ev.Pos, "some fields of a structure may be not put to the object")
				}
				if p == recv {
					ev.St.SetGhost("root", "yes")
				}
				ev.St.SetGhost("open", fmt.Sprint(p.ID))
				ev.St.SetGhost("walked", "yes")
				e.GhostSet(ev.St, ghFields, 0)
				return outcome(ev, e.Pure("reflect value", ev.Res[0], p))
			case "reflect.TypeOf":
				return outcome(ev, e.Pure("reflect pointer type", ev.Res[0], object(ev.Args[0])))
			case "(reflect.Value).Elem", "reflect.Indirect":
				if p := origin(ev.Args[0], "reflect value"); p != nil {
					return outcome(ev, e.Pure("reflect struct", ev.Res[0], p))
				}
			case "(reflect.Type).Elem":
				if p := origin(ev.Args[0], "reflect pointer type"); p != nil {
					return outcome(ev, e.Pure("reflect type", ev.Res[0], p))
				}
			case "(reflect.Value).Type":
				if p := origin(ev.Args[0], "reflect struct"); p != nil {
					return outcome(ev, e.Pure("reflect type", ev.Res[0], p))
				}
			case "(reflect.Value).NumField", "(reflect.Type).NumField":
				if p := origin(ev.Args[0], "reflect struct", "reflect type"); p != nil {
					r := e.Pure("reflect fields", intT, p)
					return outcome(ev, r)
				}
			case "(reflect.Type).Field":
				if p := origin(ev.Args[0], "reflect type"); p != nil {
					return outcome(ev, e.Pure("field type", ev.Res[0], p, ev.Args[1]))
				}
			case "(reflect.Value).Field":
				if p := origin(ev.Args[0], "reflect struct"); p != nil {
					return outcome(ev, e.Pure("reflect field value", ev.Res[0], p, ev.Args[1]))
				}
			case "(reflect.Value).Interface":
				x := unIface(ev.Args[0])
				if x.Kind == eng.KCall && x.CalleeName() == "reflect field value" {
					return outcome(ev, e.Pure("reflect field", any, x.Args...))
				}
			case "(reflect.StructTag).Lookup", "(reflect.StructTag).Get":
				p, i := fieldTypeMember(unconv(ev.Args[0]), "Tag")
				key, ok := eng.ConstStr(ev.Args[1])
				if p != nil && ok {
					if ev.Name == "(reflect.StructTag).Get" {
						return outcome(ev, tag(p, i, key))
					}
					return outcome(ev, tag(p, i, key), has(p, i, key))
				}
			}
			if ev.Callee != nil && walkers[ev.Callee] {
				for _, x := range ev.Args {
					if p, _ := fieldOf(x); p != nil && push(ev.St, x, ev.Pos) {
						var res []*eng.Term
						for i, T := range ev.Res {
							res = append(res, e.Pure(fmt.Sprintf("result %d of merging", i), T, x))
						}
						return outcome(ev, res...)
					}
				}
			}
			return nil, false
		},
		OnCall: func(ev *eng.CallEvent) {
			if strings.HasSuffix(ev.Name, ").BurlType") && ev.Invoke {
				return
			}
			if ev.Name != "encoding/json.Marshal" && !strings.HasSuffix(ev.Name, "json.Encoder).Encode") {
				return
			}
			x := object(ev.Args[len(ev.Args)-1])
			if m, ok := x.Typ.Underlying().(*types.Map); ok && x.Typ != nil && m != nil {
				encoded++
				st := ev.St
				switch {
				case st.Ghost["object"] != "" && st.Ghost["object"] != fmt.Sprint(x.ID):
					c.Violate("tree:other object:"+where, ev.Pos, "another object is encoded than the one members are put to")
				case st.Ghost["root"] == "" || st.Ghost["walked"] == "":
					c.Violate("tree:no members:"+where, ev.Pos, "members of the node are not put to the object")
				case st.Ghost["open"] != "":
					c.Violate("tree:skipped:"+where, ev.Pos, "some fields of a structure may be not put to the object")
				case st.Ghost["typed"] == "yes" || st.Ghost["typed"] == "":
					c.Violate("tree:untyped:"+where, ev.Pos, "the type of a node may be not put to the object")
				}
				return
			}
			// the only child instead of the node
			collapsed++
			l, idx, ok := elemRef(x)
			if !ok {
				l, idx, ok = elemRef(unconv(ev.Args[len(ev.Args)-1]))
			}
			n, isConst := eng.ConstInt(idx)
			if !ok || !isConst || n != 0 {
				c.Violate("tree:instead:"+where, ev.Pos, "something else than the node is encoded: %v", x)
				return
			}
			if !e.LE(ev.St, e.Len(l), e.Int(1), 0) {
				c.Violate("tree:instead:"+where, ev.Pos, "a child is encoded instead of a node that may have more children")
			}
			if ev.St.Ghost["group"] == "" {
				c.Violate("tree:instead:"+where, ev.Pos, "a child is encoded instead of a node that may be not a group of files")
			}
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			cond := e.Val(st, in.Cond)
			neg := false
			for cond.Kind == eng.KUn && cond.Op == token.NOT {
				cond, neg = cond.Args[0], !neg
			}
			if taken != neg && t.groupTest(in.Cond, e, st) {
				st.SetGhost("group", "yes")
			}
			if T := assertedType(in.Cond); T != nil {
				if I, ok := T.Underlying().(*types.Interface); ok && I.NumMethods() > 0 {
					for i := 0; i < I.NumMethods(); i++ {
						if I.Method(i).Name() != "BurlType" {
							continue
						}
						if st.Ghost["typed"] == "yes" {
							c.Violate("tree:untyped:"+where, in.Pos(), "the type of a node may be not put to the object")
						}
						st.SetGhost("typed", map[bool]string{true: "yes", false: "no"}[taken != neg])
					}
				}
			}
			if open := st.Ghost["open"]; open != "" {
				for _, x := range condTerms(cond) {
					if x.Kind == eng.KCall && x.CalleeName() == "reflect fields" && fmt.Sprint(x.Args[0].ID) == open && e.LE(st, x, e.Ghost(ghFields), 0) {
						st.SetGhost("open", "")
					}
				}
			}
			// keep apart tags of the current field
			for _, x := range condTerms(cond) {
				if x.Kind == eng.KCall && (strings.HasPrefix(x.CalleeName(), "has tag ") || strings.HasPrefix(x.CalleeName(), "tag ")) {
					v, known := hasTag(st, x.Args[0], x.Args[1], x.CalleeName()[strings.LastIndexByte(x.CalleeName(), ' ')+1:])
					st.SetGhost("tags", st.Ghost["tags"]+fmt.Sprint(" ", x.CalleeName(), v, known))
				}
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
			if addr.Kind == eng.KIndexAddr {
				push(st, v, token.NoPos)
			}
		},
		OnMapUpdate: func(st *eng.State, m, k, v *eng.Term, at string) {
			if o := st.Ghost["object"]; o != "" && o != fmt.Sprint(m.ID) {
				return
			}
			if name, ok := eng.ConstStr(unconv(k)); ok {
				x := object(v)
				if name == "_type" && x.Kind == eng.KCall && strings.HasSuffix(x.CalleeName(), "BurlType") {
					if st.Ghost["typed"] == "yes" {
						st.SetGhost("typed", "done")
					}
					st.SetGhost("object", fmt.Sprint(m.ID))
					return
				}
				c.Violate("tree:member:"+where, fn.Pos(), "the member %q is put to objects of nodes: %v (%s)", name, v, at)
				return
			}
			p, i := fieldOf(v)
			if p == nil {
				c.Violate("tree:member:"+where, fn.Pos(), "a member that is not a field is put to objects of nodes: %v (%s)", v, at)
				return
			}
			stored++
			st.SetGhost("object", fmt.Sprint(m.ID))
			if b, known := hasTag(st, p, i, "burl"); !known || b {
				c.Violate("tree:merge:"+where, fn.Pos(), "a field with the tag burl may be put to the object instead of its members")
			}
			ok, parsed := keyOf(st, k, p, i)
			if !ok {
				c.Violate("tree:name:"+where, fn.Pos(), "the name of a member is not that of its field: %v (%s)", k, at)
			}
			t.parse = t.parse || parsed
			handled(st, p, i, fn.Pos())
		},
	})
	st := eng.NewState()
	e.Assume(st, e.Eq(recv, e.Nil()), false)
	e.Run(fn, st, []*eng.Term{recv}, nil, "MarshalJSON")
	c.Count("members put to objects", stored)
	c.Count("structures merged", pushed)
	c.Count("objects encoded", encoded)
	c.Count("only children encoded", collapsed)
	c.Need("members put to objects", 1)
	c.Need("structures merged", 1)
	c.Need("objects encoded", 1)
}

func condTerms(t *eng.Term) []*eng.Term {
	l := []*eng.Term{t}
	if t.Kind == eng.KBin || t.Kind == eng.KUn || t.Kind == eng.KConv {
		for _, x := range t.Args {
			l = append(l, condTerms(x)...)
		}
	}
	return l
}

// assertedType is the type of a value tested by a type assertion whose result is the condition.
func assertedType(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Extract:
			if a, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
				return a.AssertedType
			}
		}
		return nil
	}
}

// groupTest: the condition is true for groups of files only.
func (t *treeJSON) groupTest(v ssa.Value, e *eng.Engine, st *eng.State) bool {
	T := assertedType(v)
	if T == nil {
		return false
	}
	if _, isI := T.Underlying().(*types.Interface); isI {
		return false
	}
	base := baseType(T)
	if n := namedOf(base); n == nil || !t.c.P.hasMethod(T, "BurlType") {
		return false
	}
	name, ok := t.c.constResult(t.c.P.Method(base, "BurlType"))
	return ok && name == "FileGroup"
}

// fieldTypeMember recognizes members of reflect.StructField.
func fieldTypeMember(k *eng.Term, name string) (p, i *eng.Term) {
	if k.Kind != eng.KField || k.Obj == nil || k.Obj.Name() != name || len(k.Args) == 0 {
		return nil, nil
	}
	if x := k.Args[0]; x.Kind == eng.KCall && x.CalleeName() == "field type" {
		return x.Args[0], x.Args[1]
	}
	return nil, nil
}
