// Package eng is an abstract interpreter for go/ssa: values are represented by
// hash-consed provenance terms, states keep branch facts, integer relations
// (difference bounds), memory cells and rule defined ghosts. States are
// partitioned by ghosts and by known booleans/nilness, loops are solved by
// fixpoint iteration with widening. Module functions are analysed in the
// context of their call sites.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KConst Kind = iota
	KNil
	KFunc
	KGlobal
	KParam
	KAlloc
	KMake // make([]T,n,c): args n, c
	KMap  // make(map)
	KFieldAddr
	KIndexAddr
	KInit // initial (or unknown) content of address args[0] in epoch args[1]
	KField
	KIndex
	KBin
	KNot
	KUn
	KConv
	KSlice // args base, lo, hi (may be nil)
	KLen
	KCap
	KCall
	KExtract
	KIface
	KAssert
	KAssertOk
	KClosure
	KList // args[0] base or nil, then elements
	KCat  // append(a, b...) with unknown b
	KPhi
	KStruct
	KTuple
	KLookup // args map, key
	KLookupOk
	KRange
	KGhost
	KEpoch
	KOpaque
)

var kindNames = [...]string{"const", "nil", "func", "global", "param", "alloc", "make", "map", "fieldaddr", "indexaddr", "init", "field", "index", "bin", "not", "un", "conv", "slice", "len", "cap", "call", "extract", "iface", "assert", "assertok", "closure", "list", "cat", "phi", "struct", "tuple", "lookup", "lookupok", "range", "ghost", "epoch", "opaque"}

// Term is an immutable hash-consed value description.
type Term struct {
	ID   int
	Kind Kind
	Aux  string
	Args []*Term
	Typ  types.Type
	Val  constant.Value // KConst
	Fn   *ssa.Function  // KFunc, KClosure, KCall of a static function
	Obj  types.Object   // KField/KFieldAddr: *types.Var; KCall/invoke: *types.Func
	Glob *ssa.Global
	Op   token.Token
	N    int
	Deps []int // loop instances the identity of the term depends on
	Pos  token.Pos
}

type termTable struct {
	m   map[string]*Term
	all []*Term
}

func (e *Engine) intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + int(t.Kind)))
	sb.WriteString(t.Aux)
	sb.WriteByte('|')
	if t.Op != 0 {
		sb.WriteString(strconv.Itoa(int(t.Op)))
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.N))
	for _, a := range t.Args {
		if a == nil {
			sb.WriteString(",-")
		} else {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := sb.String()
	if x, ok := e.terms.m[k]; ok {
		return x
	}
	for _, a := range t.Args {
		if a != nil {
			t.Deps = unionDeps(t.Deps, a.Deps)
		}
	}
	t.ID = len(e.terms.all)
	p := &t
	e.terms.m[k] = p
	e.terms.all = append(e.terms.all, p)
	return p
}

func unionDeps(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) dependsOn(loop int) bool {
	i := sort.SearchInts(t.Deps, loop)
	return i < len(t.Deps) && t.Deps[i] == loop
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	arg := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].str(d - 1)
		}
		return "?"
	}
	list := func(a []*Term) string {
		var s []string
		for i, x := range a {
			if i > 8 {
				s = append(s, "…")
				break
			}
			s = append(s, x.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Kind {
	case KConst:
		return t.Val.ExactString()
	case KNil:
		return "nil"
	case KFunc:
		return t.Fn.String()
	case KClosure:
		return "closure " + t.Fn.String()
	case KGlobal:
		return "&" + t.Glob.String()
	case KParam:
		return t.Aux
	case KAlloc, KMake, KMap:
		return "new@" + shortAux(t.Aux)
	case KFieldAddr, KField:
		return arg(0) + "." + t.fieldName()
	case KIndexAddr, KIndex:
		return arg(0) + "[" + arg(1) + "]"
	case KInit:
		return "*" + arg(0)
	case KBin:
		return "(" + arg(0) + " " + t.Op.String() + " " + arg(1) + ")"
	case KNot:
		return "!" + arg(0)
	case KLen:
		return "len(" + arg(0) + ")"
	case KCap:
		return "cap(" + arg(0) + ")"
	case KCall:
		return t.CalleeName() + "(" + list(t.Args) + ")"
	case KExtract:
		return arg(0) + "#" + strconv.Itoa(t.N)
	case KIface:
		return arg(0)
	case KList:
		if t.Args[0] == nil {
			return "[" + list(t.Args[1:]) + "]"
		}
		return arg(0) + "++[" + list(t.Args[1:]) + "]"
	case KPhi:
		return "φ" + strconv.Itoa(t.ID)
	}
	return kindNames[t.Kind] + "(" + shortAux(t.Aux) + " " + list(t.Args) + ")"
}

func shortAux(s string) string {
	if len(s) > 40 {
		return "…" + s[len(s)-40:]
	}
	return s
}

func (t *Term) fieldName() string {
	if t.Obj != nil {
		return t.Obj.Name()
	}
	return "f" + strconv.Itoa(t.N)
}

// CalleeName is the full name of the callee of an opaque call term.
func (t *Term) CalleeName() string {
	if t.Kind != KCall {
		return ""
	}
	if i := strings.IndexByte(t.Aux, '@'); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

// ---- constructors

func (e *Engine) Const(v constant.Value, T types.Type) *Term {
	return e.intern(Term{Kind: KConst, Aux: v.ExactString() + "/" + v.Kind().String(), Val: v, Typ: T})
}
func (e *Engine) Int(n int64) *Term { return e.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (e *Engine) Bool(b bool) *Term { return e.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (e *Engine) Str(s string) *Term {
	return e.Const(constant.MakeString(s), types.Typ[types.String])
}
func (e *Engine) Nil() *Term { return e.intern(Term{Kind: KNil, Typ: types.Typ[types.UntypedNil]}) }
func (e *Engine) Param(name string, T types.Type) *Term {
	return e.intern(Term{Kind: KParam, Aux: name, Typ: T})
}
func (e *Engine) Ghost(name string) *Term {
	return e.intern(Term{Kind: KGhost, Aux: name, Typ: types.Typ[types.Int]})
}
func (e *Engine) FuncTerm(f *ssa.Function) *Term {
	return e.intern(Term{Kind: KFunc, Aux: fmt.Sprintf("%p", f), Fn: f, Typ: f.Signature})
}
func (e *Engine) GlobalTerm(g *ssa.Global) *Term {
	return e.intern(Term{Kind: KGlobal, Aux: g.String(), Glob: g, Typ: g.Type()})
}
func (e *Engine) Iface(T types.Type, v *Term) *Term {
	return e.intern(Term{Kind: KIface, Aux: types.TypeString(T, nil), Args: []*Term{v}, Typ: T})
}
func (e *Engine) Pure(name string, T types.Type, args ...*Term) *Term {
	return e.intern(Term{Kind: KCall, Aux: name, Args: args, Typ: T})
}
func (e *Engine) Extract(t *Term, i int, T types.Type) *Term {
	if t.Kind == KTuple {
		return t.Args[i]
	}
	return e.intern(Term{Kind: KExtract, N: i, Args: []*Term{t}, Typ: T, Obj: t.Obj, Fn: t.Fn})
}
func (e *Engine) Tuple(a []*Term) *Term { return e.intern(Term{Kind: KTuple, Args: a}) }

func (e *Engine) FieldAddr(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	return e.intern(Term{Kind: KFieldAddr, N: i, Aux: types.TypeString(st, nil), Args: []*Term{base}, Obj: s.Field(i), Typ: types.NewPointer(s.Field(i).Type())})
}

func (e *Engine) IndexAddr(base, idx *Term, elem types.Type) *Term {
	for base.Kind == KSlice {
		if lo := base.Args[1]; lo != nil {
			idx = e.Add(idx, lo)
		}
		base = base.Args[0]
	}
	// element of a known prefix of a list
	for base.Kind == KList && base.Args[0] != nil {
		ib, io := e.Lin(idx)
		lb, lo := e.Lin(e.Len(base.Args[0]))
		if ib == lb && io < lo {
			base = base.Args[0]
			for base.Kind == KSlice {
				if lo := base.Args[1]; lo != nil {
					idx = e.Add(idx, lo)
				}
				base = base.Args[0]
			}
			continue
		}
		break
	}
	return e.intern(Term{Kind: KIndexAddr, Args: []*Term{base, idx}, Aux: types.TypeString(elem, nil), Typ: types.NewPointer(elem)})
}

func (e *Engine) Add(a, b *Term) *Term {
	ab, ao := e.Lin(a)
	bb, bo := e.Lin(b)
	if ab == nil {
		return e.linTerm(bb, bo+ao)
	}
	if bb == nil {
		return e.linTerm(ab, ao+bo)
	}
	if ab.ID > bb.ID {
		ab, bb = bb, ab
	}
	return e.linTerm(e.intern(Term{Kind: KBin, Op: token.ADD, Args: []*Term{ab, bb}, Typ: types.Typ[types.Int]}), ao+bo)
}

func (e *Engine) Sub(a, b *Term) *Term {
	ab, ao := e.Lin(a)
	bb, bo := e.Lin(b)
	if bb == nil {
		return e.linTerm(ab, ao-bo)
	}
	if ab == bb {
		return e.Int(ao - bo)
	}
	if ab == nil {
		return e.intern(Term{Kind: KBin, Op: token.SUB, Args: []*Term{a, b}, Typ: types.Typ[types.Int]})
	}
	return e.linTerm(e.intern(Term{Kind: KBin, Op: token.SUB, Args: []*Term{ab, bb}, Typ: types.Typ[types.Int]}), ao-bo)
}

func (e *Engine) linTerm(base *Term, off int64) *Term {
	if base == nil {
		return e.Int(off)
	}
	if off == 0 {
		return base
	}
	return e.intern(Term{Kind: KBin, Op: token.ADD, Args: []*Term{base, e.Int(off)}, Typ: base.Typ})
}

// Lin gives the linear normal form base+off of an integer term (base nil: constant).
func (e *Engine) Lin(t *Term) (*Term, int64) {
	switch t.Kind {
	case KConst:
		if n, ok := constant.Int64Val(constant.ToInt(t.Val)); ok && t.Val.Kind() == constant.Int {
			return nil, n
		}
	case KBin:
		if t.Op == token.ADD && t.Args[1].Kind == KConst {
			if n, ok := constInt(t.Args[1]); ok {
				b, o := e.Lin(t.Args[0])
				return b, o + n
			}
		}
	}
	return t, 0
}

func constInt(t *Term) (int64, bool) {
	if t == nil || t.Kind != KConst || t.Val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.Val)
}

// ConstInt returns the value of an integer constant term.
func ConstInt(t *Term) (int64, bool) { return constInt(t) }

func ConstStr(t *Term) (string, bool) {
	if t == nil || t.Kind != KConst || t.Val.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.Val), true
}

func ConstBool(t *Term) (bool, bool) {
	if t == nil || t.Kind != KConst || t.Val.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.Val), true
}

// Len is the length of a slice, string, map or array term.
func (e *Engine) Len(t *Term) *Term {
	switch t.Kind {
	case KNil:
		return e.Int(0)
	case KConst:
		if s, ok := ConstStr(t); ok {
			return e.Int(int64(len(s)))
		}
	case KMake:
		return t.Args[0]
	case KList:
		n := int64(len(t.Args) - 1)
		if t.Args[0] == nil {
			return e.Int(n)
		}
		return e.Add(e.Len(t.Args[0]), e.Int(n))
	case KCat:
		return e.Add(e.Len(t.Args[0]), e.Len(t.Args[1]))
	case KSlice:
		lo, hi := t.Args[1], t.Args[2]
		if hi == nil {
			hi = e.Len(t.Args[0])
		}
		if lo == nil {
			return hi
		}
		return e.Sub(hi, lo)
	case KBin:
		if t.Op == token.ADD && isString(t.Typ) {
			return e.Add(e.Len(t.Args[0]), e.Len(t.Args[1]))
		}
	case KConv:
		if isString(t.Typ) && isByteSlice(t.Args[0].Typ) || isByteSlice(t.Typ) && isString(t.Args[0].Typ) {
			return e.Len(t.Args[0])
		}
	}
	if t.Typ != nil {
		T := t.Typ.Underlying()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem().Underlying()
		}
		if a, ok := T.(*types.Array); ok {
			return e.Int(a.Len())
		}
	}
	return e.intern(Term{Kind: KLen, Args: []*Term{t}, Typ: types.Typ[types.Int]})
}

func (e *Engine) Cap(t *Term) *Term {
	switch t.Kind {
	case KMake:
		return t.Args[1]
	case KNil:
		return e.Int(0)
	case KSlice:
		if t.Args[1] == nil && (len(t.Args) < 4 || t.Args[3] == nil) && t.Args[0].Typ != nil {
			if _, ok := t.Args[0].Typ.Underlying().(*types.Slice); ok {
				return e.Cap(t.Args[0])
			}
		}
	}
	return e.intern(Term{Kind: KCap, Args: []*Term{t}, Typ: types.Typ[types.Int]})
}

func isString(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(T types.Type) bool {
	if T == nil {
		return false
	}
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isInt(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(T types.Type) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func hasLen(T types.Type) bool {
	if T == nil {
		return false
	}
	switch u := T.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func nillable(T types.Type) bool {
	if T == nil {
		return false
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan, *types.Slice:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil
	}
	return false
}

// Not negates a condition.
func (e *Engine) Not(t *Term) *Term {
	if b, ok := ConstBool(t); ok {
		return e.Bool(!b)
	}
	if t.Kind == KNot {
		return t.Args[0]
	}
	return e.intern(Term{Kind: KNot, Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

// Eq is the normalised equality condition.
func (e *Engine) Eq(a, b *Term) *Term {
	if a == b {
		return e.Bool(true)
	}
	if a.Kind == KConst && b.Kind == KConst {
		return e.Bool(constant.Compare(a.Val, token.EQL, b.Val))
	}
	if v, ok := ConstBool(a); ok {
		if v {
			return b
		}
		return e.Not(b)
	}
	if v, ok := ConstBool(b); ok {
		if v {
			return a
		}
		return e.Not(a)
	}
	if a.Kind == KIface && b.Kind == KIface {
		if types.Identical(a.Typ, b.Typ) {
			return e.Eq(a.Args[0], b.Args[0])
		}
		return e.Bool(false)
	}
	if isInt(a.Typ) && isInt(b.Typ) {
		ab, ao := e.Lin(a)
		bb, bo := e.Lin(b)
		if ab == bb {
			return e.Bool(ao == bo)
		}
		// canonical: base on the left with constant on the right
		if ab == nil {
			ab, ao, bb, bo = bb, bo, ab, ao
		}
		if bb == nil {
			a, b = ab, e.Int(bo-ao)
		} else {
			if ab.ID > bb.ID {
				ab, ao, bb, bo = bb, bo, ab, ao
			}
			a, b = ab, e.linTerm(bb, bo-ao)
		}
		return e.intern(Term{Kind: KBin, Op: token.EQL, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
	}
	if rank(a) > rank(b) || rank(a) == rank(b) && a.ID > b.ID {
		a, b = b, a
	}
	return e.intern(Term{Kind: KBin, Op: token.EQL, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func rank(t *Term) int {
	switch t.Kind {
	case KNil:
		return 2
	case KConst:
		return 1
	}
	return 0
}

// Less is a<b.
func (e *Engine) Less(a, b *Term) *Term {
	if a.Kind == KConst && b.Kind == KConst {
		return e.Bool(constant.Compare(a.Val, token.LSS, b.Val))
	}
	return e.intern(Term{Kind: KBin, Op: token.LSS, Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

// Cond builds a comparison.
func (e *Engine) Cond(op token.Token, a, b *Term) *Term {
	switch op {
	case token.EQL:
		return e.Eq(a, b)
	case token.NEQ:
		return e.Not(e.Eq(a, b))
	case token.LSS:
		return e.Less(a, b)
	case token.GTR:
		return e.Less(b, a)
	case token.LEQ:
		return e.Not(e.Less(b, a))
	case token.GEQ:
		return e.Not(e.Less(a, b))
	}
	panic("cond")
}

// Subst replaces from by to inside t.
func (e *Engine) Subst(t, from, to *Term) *Term {
	if t == nil || t == from {
		if t == nil {
			return nil
		}
		return to
	}
	if from.ID > t.ID || len(t.Args) == 0 { // args are always older than the term
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = e.Subst(a, from, to)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	switch t.Kind {
	case KBin:
		switch t.Op {
		case token.EQL:
			return e.Eq(args[0], args[1])
		case token.LSS:
			return e.Less(args[0], args[1])
		case token.ADD:
			if isInt(t.Typ) {
				return e.Add(args[0], args[1])
			}
		case token.SUB:
			return e.Sub(args[0], args[1])
		}
	case KNot:
		return e.Not(args[0])
	case KLen:
		return e.Len(args[0])
	case KCap:
		return e.Cap(args[0])
	case KExtract:
		return e.Extract(args[0], t.N, t.Typ)
	}
	n := *t
	n.Args = args
	if !strings.Contains(t.Aux, "@") {
		n.Deps = nil
	}
	return e.intern(n)
}

// Mentions tells whether s is a subterm of t.
func (t *Term) Mentions(s *Term) bool {
	if t == nil {
		return false
	}
	if t == s {
		return true
	}
	if s.ID > t.ID {
		return false
	}
	for _, a := range t.Args {
		if a.Mentions(s) {
			return true
		}
	}
	return false
}

// AnySub tells whether a subterm satisfies pred.
func (t *Term) AnySub(pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.Args {
		if a.AnySub(pred) {
			return true
		}
	}
	return false
}

// Root strips field and index selectors from an address.
func Root(a *Term) *Term {
	for a.Kind == KFieldAddr || a.Kind == KIndexAddr || a.Kind == KSlice {
		a = a.Args[0]
	}
	return a
}

func fresh(t *Term) bool { return t.Kind == KAlloc || t.Kind == KMake || t.Kind == KMap }

// Reaches tells whether pred holds for a term t may be derived from,
// including values represented by join terms, values of maps and arrays and
// (if a state is given) the content of objects it refers to.
func (e *Engine) Reaches(s *State, t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		if t.Kind == KPhi {
			for x := range e.incoming[t] {
				if walk(x) {
					return true
				}
			}
		}
		for x := range e.elemStores[t] {
			if walk(x) {
				return true
			}
		}
		if s != nil && fresh(t) {
			if walk(s.epoch["r"+strconv.Itoa(t.ID)]) {
				return true
			}
			for a, v := range s.mem {
				if Root(a) == t && walk(v) {
					return true
				}
			}
		}
		if t.Kind == KLookup {
			for kv := range e.MapUpd[t.Args[0]] {
				if walk(kv[1]) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

// Unknown is a value that is new in each iteration of enclosing loops.
func (e *Engine) Unknown(s *State, name string, T types.Type) *Term {
	return e.intern(Term{Kind: KCall, Aux: name, Typ: T, Deps: s.loops()})
}
