package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferEntry struct {
	site ssa.Instruction
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	ctx  string
}

// frame is an activation of a function.
type frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Term
	defers []deferEntry
	info   *fnInfo
	loops  []int              // active loop instances including those of callers
	base   []int              // loop instances active in the caller at the call site
	flat   map[*loopInfo]bool // loops whose iterations are interpreted one by one
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferEntry(nil), f.defers...)
	return &n
}

// State is an abstract program state at a point of one frame stack.
type State struct {
	frames  []*frame
	mem     map[*Term]*Term
	epoch   map[string]*Term // root id or class -> epoch term
	truth   map[*Term]bool
	zone    *Zone
	Ghost   map[string]string
	Track   map[string]*Term // rule tracked terms, part of the partition key
	escaped map[*Term]bool
	made    map[*Term]bool // objects created so far, shared by clones
	Trail   []string
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

func (s *State) Clone() *State {
	n := &State{zone: s.zone.clone()}
	n.frames = make([]*frame, len(s.frames))
	copy(n.frames, s.frames)
	if len(n.frames) > 0 {
		n.frames[len(n.frames)-1] = s.top().clone()
	}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.epoch = make(map[string]*Term, len(s.epoch))
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	n.truth = make(map[*Term]bool, len(s.truth))
	for k, v := range s.truth {
		n.truth[k] = v
	}
	n.Ghost = make(map[string]string, len(s.Ghost))
	for k, v := range s.Ghost {
		n.Ghost[k] = v
	}
	n.Track = make(map[string]*Term, len(s.Track))
	for k, v := range s.Track {
		n.Track[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.made = s.made
	n.Trail = append([]string(nil), s.Trail...)
	return n
}

// create notes that an object exists.
func (s *State) create(t *Term) {
	if s.made[t] {
		return
	}
	m := make(map[*Term]bool, len(s.made)+1)
	for k := range s.made {
		m[k] = true
	}
	m[t] = true
	s.made = m
}

func NewState() *State {
	return &State{mem: map[*Term]*Term{}, epoch: map[string]*Term{}, truth: map[*Term]bool{}, zone: newZone(), Ghost: map[string]string{}, Track: map[string]*Term{}, escaped: map[*Term]bool{}}
}

// SetGhost sets a ghost; the empty value removes it.
func (s *State) SetGhost(k, v string) {
	if v == "" {
		delete(s.Ghost, k)
	} else {
		s.Ghost[k] = v
	}
}

func (s *State) ghostKey() string {
	if len(s.Ghost) == 0 {
		return ""
	}
	var ks []string
	for k, v := range s.Ghost {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ---- facts

// Truth evaluates a boolean term.
func (e *Engine) Truth(s *State, t *Term) (val, known bool) {
	if b, ok := ConstBool(t); ok {
		return b, true
	}
	if t.Kind == KNot {
		v, k := e.Truth(s, t.Args[0])
		return !v, k
	}
	if v, ok := s.truth[t]; ok {
		return v, true
	}
	if t.Kind == KBin {
		a, b := t.Args[0], t.Args[1]
		switch t.Op {
		case token.EQL:
			if b.Kind == KNil {
				if n, ok := e.nilness(s, a); ok {
					return n, true
				}
				return false, false
			}
			if a.Kind == KNil {
				if n, ok := e.nilness(s, b); ok {
					return n, true
				}
				return false, false
			}
			if isInt(a.Typ) && isInt(b.Typ) {
				u, l := e.bounds(s, a, b)
				if u == 0 && l == 0 {
					return true, true
				}
				if u < 0 || l < 0 {
					return false, true
				}
			}
			// nil against a known non-nil value
			if nillable(a.Typ) {
				na, ka := e.nilness(s, a)
				nb, kb := e.nilness(s, b)
				if ka && kb && na != nb {
					return false, true
				}
				if ka && kb && na && nb {
					return true, true
				}
			}
			if str, ok := ConstStr(b); ok {
				if n := int64(len(str)); true {
					la := e.Len(a)
					if u, l := e.bounds(s, la, e.Int(n)); u < 0 || l < 0 {
						return false, true
					}
					if n == 0 {
						if u, l := e.bounds(s, la, e.Int(0)); u == 0 && l == 0 {
							return true, true
						}
					}
				}
				// distinct from another constant it is known to equal
				for f, v := range s.truth {
					if v && f.Kind == KBin && f.Op == token.EQL && f.Args[0] == a && f.Args[1] != b {
						if o, ok := ConstStr(f.Args[1]); ok && o != str {
							return false, true
						}
					}
				}
			}
		case token.LSS:
			if isInt(a.Typ) && isInt(b.Typ) {
				u, l := e.bounds(s, a, b)
				if u < 0 {
					return true, true
				}
				if l <= 0 {
					return false, true
				}
			}
		}
	}
	return false, false
}

// bounds: upper bound of a-b and of b-a.
func (e *Engine) bounds(s *State, a, b *Term) (int64, int64) {
	ab, ao := e.Lin(a)
	bb, bo := e.Lin(b)
	e.recall(s, ab)
	e.recall(s, bb)
	u := s.zone.bound(e, ab, bb)
	l := s.zone.bound(e, bb, ab)
	if u < inf {
		u += ao - bo
	}
	if l < inf {
		l += bo - ao
	}
	return u, l
}

// recall restores the bound of a length that is known from facts to be not zero.
func (e *Engine) recall(s *State, t *Term) {
	if t == nil || t.Kind != KLen {
		return
	}
	v, ok := s.truth[e.Eq(t, e.Int(0))]
	if !ok && isString(t.Args[0].Typ) {
		v, ok = s.truth[e.Eq(t.Args[0], e.Str(""))]
	}
	if ok && !v && s.zone.bound(e, nil, t) > -1 {
		s.zone.set(nil, t, -1)
	}
	if v, ok := s.truth[e.Less(e.Int(0), t)]; ok {
		if v && s.zone.bound(e, nil, t) > -1 {
			s.zone.set(nil, t, -1)
		} else if !v && s.zone.bound(e, t, nil) > 0 {
			s.zone.set(t, nil, 0)
		}
	}
}

// LE tells whether a <= b+c holds.
func (e *Engine) LE(s *State, a, b *Term, c int64) bool {
	u, _ := e.bounds(s, a, b)
	return u <= c
}

// nilness: (isNil, known)
func (e *Engine) nilness(s *State, t *Term) (bool, bool) {
	switch t.Kind {
	case KNil:
		return true, true
	case KAlloc, KMake, KMap, KFieldAddr, KFunc, KClosure, KIface, KGlobal, KIndexAddr:
		return false, true
	case KList:
		if len(t.Args) > 1 {
			return false, true
		}
	case KSlice:
		if T := t.Args[0].Typ; T != nil {
			if _, ok := T.Underlying().(*types.Pointer); ok {
				return false, true
			}
		}
	case KCall:
		if e.nonNilCall(t) {
			return false, true
		}
	}
	if v, ok := s.truth[e.Eq(t, e.Nil())]; ok {
		return v, true
	}
	if hasLen(t.Typ) {
		if _, isb := t.Typ.Underlying().(*types.Basic); !isb && e.LE(s, e.Int(1), e.Len(t), 0) {
			return false, true
		}
	}
	if t.Kind == KExtract && t.Args[0].Kind == KCall && t.Args[0].Fn == nil {
		// results of library calls are not nil unless an error is returned
		if f, ok := t.Args[0].Obj.(*types.Func); ok {
			res := f.Type().(*types.Signature).Results()
			if n := res.Len(); t.N < n-1 && isErr(res.At(n-1).Type()) {
				if _, isp := res.At(t.N).Type().Underlying().(*types.Pointer); isp {
					er := e.Extract(t.Args[0], n-1, res.At(n-1).Type())
					if v, ok := s.truth[e.Eq(er, e.Nil())]; ok && v {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

// IsNil reports nilness of a term (value, known).
func (e *Engine) IsNil(s *State, t *Term) (bool, bool) { return e.nilness(s, t) }

func isErr(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// IsErrorType tells whether T is the predeclared error.
func IsErrorType(T types.Type) bool { return isErr(T) }

func (e *Engine) nonNilCall(t *Term) bool {
	switch t.CalleeName() {
	case "errors.New", "fmt.Errorf", "regexp.MustCompile", "bufio.NewScanner", "bytes.NewReader", "strings.NewReader",
		"bufio.NewReader", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "os/exec.Command", "regexp.Compile",
		"bytes.NewBuffer", "bytes.NewBufferString", "bufio.NewWriter", "log.New", "flag.NewFlagSet", "net/rpc.NewClientWithCodec":
		return true
	}
	return false
}

// Assume adds a condition to the state; false: the state became infeasible.
func (e *Engine) Assume(s *State, t *Term, b bool) bool {
	if v, known := e.Truth(s, t); known {
		if v != b {
			return false
		}
		if t.Kind == KConst {
			return true
		}
	}
	if t.Kind == KNot {
		return e.Assume(s, t.Args[0], !b)
	}
	s.truth[t] = b
	switch t.Kind {
	case KBin:
		x, y := t.Args[0], t.Args[1]
		switch t.Op {
		case token.EQL:
			if isInt(x.Typ) && isInt(y.Typ) {
				if b {
					return e.addLE(s, x, y, 0) && e.addLE(s, y, x, 0)
				}
				u, l := e.bounds(s, x, y)
				if u == 0 && !e.addLE(s, x, y, -1) {
					return false
				}
				if l == 0 && !e.addLE(s, y, x, -1) {
					return false
				}
			}
			if str, ok := ConstStr(y); ok {
				if b {
					return e.Assume(s, e.Eq(e.Len(x), e.Int(int64(len(str)))), true)
				} else if str == "" {
					return e.addLE(s, e.Int(1), e.Len(x), 0)
				}
			}
			if y.Kind == KNil && b && hasLen(x.Typ) {
				return e.Assume(s, e.Eq(e.Len(x), e.Int(0)), true)
			}
			if b && isString(x.Typ) && y.Kind != KConst {
				return e.addLE(s, e.Len(x), e.Len(y), 0) && e.addLE(s, e.Len(y), e.Len(x), 0)
			}
		case token.LSS:
			if isInt(x.Typ) && isInt(y.Typ) {
				if b {
					return e.addLE(s, x, y, -1)
				}
				return e.addLE(s, y, x, 0)
			}
		}
	case KCall:
		switch t.CalleeName() {
		case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix", "strings.Contains":
			if b && len(t.Args) == 2 {
				return e.addLE(s, e.Len(t.Args[1]), e.Len(t.Args[0]), 0)
			}
		}
	case KExtract:
	}
	return true
}

func (e *Engine) addLE(s *State, a, b *Term, c int64) bool {
	ab, ao := e.Lin(a)
	bb, bo := e.Lin(b)
	c = c - ao + bo
	if ab == bb {
		return c >= 0
	}
	const big = 1 << 50
	if l := s.zone.bound(e, bb, ab); l < inf && l+c < 0 {
		return false
	}
	if c > big || c < -big {
		return true
	}
	s.zone.set(ab, bb, c)
	return true
}

// GhostInc adds n to a ghost counter.
func (e *Engine) GhostInc(s *State, name string, n int64) {
	s.zone.shift(e.Ghost(name), n)
}

// GhostSet sets a ghost counter to a constant.
func (e *Engine) GhostSet(s *State, name string, n int64) {
	g := e.Ghost(name)
	s.zone = s.zone.closed(e, s.zone.vars())
	s.zone.drop(g)
	s.zone.set(g, nil, n)
	s.zone.set(nil, g, -n)
}

// ---- memory

func (e *Engine) decomposable(T types.Type) *types.Struct {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && !e.InModule(n.Obj().Pkg()) {
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return nil
			}
		}
		if st.NumFields() > 8 {
			return nil
		}
	}
	return st
}

func (e *Engine) epochFor(s *State, addr *Term) *Term {
	r := Root(addr)
	key := "r" + fmt.Sprint(r.ID)
	if fresh(r) {
		return s.epoch[key]
	}
	var eps []*Term
	for _, k := range []string{"all", key, class(addr)} {
		if ep := s.epoch[k]; ep != nil {
			eps = append(eps, ep)
		}
	}
	switch len(eps) {
	case 0:
		return nil
	case 1:
		return eps[0]
	}
	return e.intern(Term{Kind: KEpoch, Aux: "combo", Args: eps})
}

// class groups addresses that may alias each other.
func class(a *Term) string {
	switch a.Kind {
	case KFieldAddr:
		return "f" + a.Aux + "#" + fmt.Sprint(a.N)
	case KIndexAddr:
		return "i" + a.Aux
	}
	if a.Typ != nil {
		return "p" + types.TypeString(a.Typ, nil)
	}
	return ""
}

// Load reads a value of type T at addr.
func (e *Engine) Load(s *State, addr *Term, T types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st := e.decomposable(T); st != nil {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = e.Load(s, e.FieldAddr(addr, T, i), st.Field(i).Type())
		}
		return e.intern(Term{Kind: KStruct, Args: fs, Typ: T, Aux: types.TypeString(T, nil)})
	}
	if addr.Kind == KIndexAddr {
		if v := e.listElem(s, addr.Args[0], addr.Args[1]); v != nil {
			return v
		}
	}
	if addr.Kind == KGlobal {
		if c := e.globalConst(addr.Glob); c != nil {
			return c
		}
	}
	r := Root(addr)
	if fresh(r) && s.epoch["r"+fmt.Sprint(r.ID)] == nil {
		if v := e.selected(s, addr, r, T); v != nil {
			return v
		}
		return e.Zero(T)
	}
	ep := e.epochFor(s, addr)
	return e.intern(Term{Kind: KInit, Args: []*Term{addr, ep}, Typ: T})
}

// selected is the value of an element of a fresh array at an index that is not
// known: one of the stored elements it may be, or the zero value if some
// element may not have been stored. Nil if no stored element may be meant.
func (e *Engine) selected(s *State, addr, r *Term, T types.Type) *Term {
	var sel *Term
	for a := addr; a.Kind == KFieldAddr || a.Kind == KIndexAddr; a = a.Args[0] {
		if a.Kind == KIndexAddr && a.Args[1].Kind != KConst {
			sel = a
		}
	}
	if sel == nil {
		return nil
	}
	c := class(addr)
	var cells []*Term
	for a := range s.mem {
		if class(a) == c && Root(a) == r && !e.distinct(s, a, addr) {
			cells = append(cells, a)
		}
	}
	if len(cells) == 0 {
		return nil
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	key := fmt.Sprintf("element %d", addr.ID)
	deps := addr.Deps
	known := map[*Term]bool{}
	for _, a := range cells {
		key += fmt.Sprintf(" %d:%d", a.ID, s.mem[a].ID)
		deps = unionDeps(deps, s.mem[a].Deps)
		x, y := a, addr
		for y != sel && (x.Kind == KFieldAddr || x.Kind == KIndexAddr) {
			x, y = x.Args[0], y.Args[0]
		}
		if x.Kind == KIndexAddr && x.Args[0] == sel.Args[0] && x.Args[1].Kind == KConst {
			known[x.Args[1]] = true
		}
	}
	p := e.intern(Term{Kind: KPhi, Aux: key, Typ: T, Deps: deps})
	for _, a := range cells {
		e.addIncoming(p, s.mem[a], s)
	}
	full := false
	if t := sel.Args[0].Typ; t != nil {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			full = int64(len(known)) == at.Len()
		}
	}
	if !full {
		e.addIncoming(p, e.Zero(T), s)
	}
	return p
}

// listElem resolves an element of a list value with known contents.
func (e *Engine) listElem(s *State, base, idx *Term) *Term {
	if base.Kind != KList {
		return nil
	}
	ib, io := e.Lin(idx)
	var lb *Term
	var lo int64
	if base.Args[0] != nil {
		lb, lo = e.Lin(e.Len(base.Args[0]))
	}
	if ib == lb {
		k := io - lo
		if k >= 0 && k < int64(len(base.Args)-1) {
			return base.Args[k+1]
		}
	}
	return nil
}

// Zero is the zero value of T.
func (e *Engine) Zero(T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		case u.Info()&types.IsString != 0:
			return e.Str("")
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
		return e.Nil()
	case *types.Struct:
		if st := e.decomposable(T); st != nil {
			fs := make([]*Term, st.NumFields())
			for i := range fs {
				fs[i] = e.Zero(st.Field(i).Type())
			}
			return e.intern(Term{Kind: KStruct, Args: fs, Typ: T, Aux: types.TypeString(T, nil)})
		}
	}
	return e.intern(Term{Kind: KOpaque, Aux: "zero " + types.TypeString(T, nil), Typ: T})
}

// Store writes v of type T to addr.
func (e *Engine) Store(s *State, addr, v *Term, T types.Type, at string) {
	if st := e.decomposable(T); st != nil {
		delete(s.mem, addr)
		for i := 0; i < st.NumFields(); i++ {
			e.Store(s, e.FieldAddr(addr, T, i), e.FieldOf(s, v, T, i), st.Field(i).Type(), at)
		}
		return
	}
	if hooks := e.hooks; hooks != nil && hooks.OnStore != nil {
		hooks.OnStore(s, addr, v, T, at)
	}
	r := Root(addr)
	c := class(addr)
	// drop cells below (replaced aggregate)
	for a := range s.mem {
		if a != addr && (a.Kind == KFieldAddr || a.Kind == KIndexAddr) && a.Args[0] == addr {
			delete(s.mem, a)
		}
	}
	weakIdx := addr.Kind == KIndexAddr && addr.Args[1].Kind != KConst
	for a, old := range s.mem {
		if a == addr || class(a) != c {
			continue
		}
		ra := Root(a)
		if r != ra && (fresh(r) || fresh(ra) && !e.mayPoint(s, r, ra)) {
			continue // distinct objects
		}
		if e.distinct(s, a, addr) {
			continue
		}
		if old != v {
			p := e.intern(Term{Kind: KPhi, Aux: "weak " + at + " " + fmt.Sprint(a.ID), Typ: old.Typ, Deps: unionDeps(old.Deps, v.Deps)})
			e.addIncoming(p, old, s)
			e.addIncoming(p, v, s)
			s.mem[a] = p
		}
	}
	if addr.Kind == KIndexAddr {
		m := e.elemStores[addr.Args[0]]
		if m == nil {
			m = map[*Term]bool{}
			e.elemStores[addr.Args[0]] = m
		}
		m[v] = true
	}
	if fresh(r) {
		if weakIdx {
			e.bumpEpoch(s, "r"+fmt.Sprint(r.ID), at)
		}
	} else if c != "" {
		e.bumpEpoch(s, c, at)
	}
	s.mem[addr] = v
}

// mayPoint tells whether a pointer that is a joined value or has been read
// from memory may be the address of a new object.
func (e *Engine) mayPoint(s *State, p, obj *Term) bool {
	if p.Kind != KPhi && p.Kind != KInit {
		return false
	}
	return e.Reaches(s, p, func(t *Term) bool { return t == obj })
}

// distinct addresses of one class with different constant or provably different indexes.
func (e *Engine) distinct(s *State, a, b *Term) bool {
	for a.Kind == b.Kind && (a.Kind == KFieldAddr || a.Kind == KIndexAddr) {
		if a.Kind == KFieldAddr && (a.N != b.N || a.Aux != b.Aux) {
			return true
		}
		if a.Kind == KIndexAddr && a.Args[0] == b.Args[0] {
			u, l := e.bounds(s, a.Args[1], b.Args[1])
			return u < 0 || l < 0
		}
		a, b = a.Args[0], b.Args[0]
	}
	return false
}

func (e *Engine) bumpEpoch(s *State, key, at string) {
	s.epoch[key] = e.intern(Term{Kind: KEpoch, Aux: key + "@" + at, Deps: s.loops()})
}

func (s *State) loops() []int {
	if len(s.frames) == 0 {
		return nil
	}
	return s.top().loops
}

// FieldOf selects a field of a struct value.
func (e *Engine) FieldOf(s *State, v *Term, T types.Type, i int) *Term {
	if v.Kind == KStruct && i < len(v.Args) {
		return v.Args[i]
	}
	st := T.Underlying().(*types.Struct)
	if v.Kind == KInit {
		return e.intern(Term{Kind: KInit, Args: []*Term{e.FieldAddr(v.Args[0], T, i), v.Args[1]}, Typ: st.Field(i).Type()})
	}
	return e.intern(Term{Kind: KField, N: i, Args: []*Term{v}, Obj: st.Field(i), Typ: st.Field(i).Type()})
}

// Havoc forgets everything reachable from the given terms through memory.
func (e *Engine) Havoc(s *State, at string, args ...*Term) {
	seen := map[*Term]bool{}
	var roots []*Term
	var visit func(t *Term)
	addRoot := func(r *Term) {
		if seen[r] {
			return
		}
		seen[r] = true
		roots = append(roots, r)
		for a, v := range s.mem {
			if Root(a) == r {
				visit(v)
			}
		}
	}
	visited := map[*Term]bool{}
	visit = func(t *Term) {
		if t == nil || visited[t] {
			return
		}
		visited[t] = true
		switch t.Kind {
		case KAlloc, KMake, KMap:
			addRoot(t)
		case KFieldAddr, KIndexAddr:
			// pointer to a part: only this part is reachable, but keep it simple
			// for library objects and precise for direct cells
			r := Root(t)
			if t.Kind == KFieldAddr || t.Kind == KIndexAddr {
				if _, isStruct := derefType(t.Typ).Underlying().(*types.Struct); !isStruct && fresh(r) {
					e.havocCell(s, t, at)
					return
				}
			}
			if fresh(r) {
				e.havocUnder(s, t, at)
			} else {
				addRoot(r)
			}
		case KClosure:
			for _, a := range t.Args {
				// variables that closures only read keep their values
				if a != nil && e.readOnly[a] {
					for c, v := range s.mem {
						if Root(c) == a {
							visit(v)
						}
					}
					continue
				}
				visit(a)
			}
		case KIface, KList, KCat, KSlice, KStruct, KTuple, KConv:
			for _, a := range t.Args {
				visit(a)
			}
		case KInit, KParam, KCall, KExtract, KGlobal, KAssert:
			if t.Typ != nil {
				if _, ok := t.Typ.Underlying().(*types.Pointer); ok || t.Kind == KGlobal {
					addRoot(t)
				}
			}
		case KPhi:
			for in := range e.incoming[t] {
				visit(in)
			}
			addRoot(t)
		}
	}
	for _, a := range args {
		visit(a)
	}
	for _, r := range roots {
		for a := range s.mem {
			if Root(a) == r {
				delete(s.mem, a)
			}
		}
		if fresh(r) {
			s.epoch["r"+fmt.Sprint(r.ID)] = e.intern(Term{Kind: KEpoch, Aux: "r" + fmt.Sprint(r.ID) + "@" + at, Args: e.causeBefore(nil), Deps: s.loops()})
			s.escaped[r] = true
		} else {
			e.bumpEpoch(s, "r"+fmt.Sprint(r.ID), at)
		}
	}
}

// causeBefore gives arguments of the current call other than t itself.
func (e *Engine) causeBefore(t *Term) []*Term {
	var r []*Term
	if t != nil {
		r = append(r, t)
	}
	for _, a := range e.cause {
		if a != nil && a != t {
			r = append(r, a)
		}
	}
	return r
}

func derefType(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// havocCell makes the content of one scalar cell unknown.
func (e *Engine) havocCell(s *State, addr *Term, at string) {
	T := derefType(addr.Typ)
	s.mem[addr] = e.intern(Term{Kind: KOpaque, Aux: "out@" + at + fmt.Sprint(addr.ID), Typ: T, Obj: addr.Obj, Args: e.causeBefore(addr), Deps: s.loops()})
	s.escaped[addr] = true
}

func (e *Engine) havocUnder(s *State, addr *Term, at string) {
	T := derefType(addr.Typ)
	st := e.decomposable(T)
	if st == nil {
		for a := range s.mem {
			if under(a, addr) {
				delete(s.mem, a)
			}
		}
		s.mem[addr] = e.intern(Term{Kind: KOpaque, Aux: "out@" + at + fmt.Sprint(addr.ID), Typ: T, Obj: addr.Obj, Args: e.causeBefore(addr), Deps: s.loops()})
		s.escaped[addr] = true
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		e.havocUnder(s, e.FieldAddr(addr, T, i), at)
	}
}

func under(a, base *Term) bool {
	for a.Kind == KFieldAddr || a.Kind == KIndexAddr {
		if a == base {
			return true
		}
		a = a.Args[0]
	}
	return a == base
}

// HavocEscaped forgets all objects whose address was given to library code.
func (e *Engine) HavocEscaped(s *State, at string) {
	var l []*Term
	for r := range s.escaped {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	for _, r := range l {
		if fresh(r) {
			e.Havoc(s, at, r)
		} else {
			e.havocUnder(s, r, at)
		}
	}
}

// HavocAll forgets all memory that is not certainly private.
func (e *Engine) HavocAll(s *State, at string) {
	for a := range s.mem {
		if !fresh(Root(a)) {
			delete(s.mem, a)
		}
	}
	s.epoch["all"] = e.intern(Term{Kind: KEpoch, Aux: "all@" + at, Deps: s.loops()})
	e.HavocEscaped(s, at)
}

// Elems collects terms a slice value may contain; exact means that the list is complete and ordered.
func (e *Engine) Elems(s *State, t *Term) (elems []*Term, exact bool) {
	seen := map[*Term]bool{}
	exact = true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.Kind == KNil {
			return
		}
		switch t.Kind {
		case KList:
			walk(t.Args[0])
			elems = append(elems, t.Args[1:]...)
			for v := range e.elemStores[t] {
				exact = false
				elems = append(elems, v)
			}
		case KCat:
			walk(t.Args[0])
			walk(t.Args[1])
		case KSlice:
			if hi, ok := constInt(t.Args[2]); ok && hi == 0 {
				return // reset to the empty list
			}
			if lo, hi, ok := constBounds(t); ok {
				if sub, known := e.Elems(s, t.Args[0]); known && lo <= int64(len(sub)) && (hi < 0 || lo <= hi && hi <= int64(len(sub))) {
					if hi < 0 {
						hi = int64(len(sub))
					}
					elems = append(elems, sub[lo:hi]...)
					return
				}
			}
			if t.Args[1] != nil || t.Args[2] != nil {
				exact = false
			}
			walk(t.Args[0])
		case KAlloc, KMake:
			n, ok := constInt(e.Len(t))
			if !ok || n > 64 {
				exact = false
				for v := range e.elemStores[t] {
					elems = append(elems, v)
				}
				if len(e.elemStores[t]) == 0 {
					elems = append(elems, e.intern(Term{Kind: KOpaque, Aux: "elem", Args: []*Term{t}}))
				}
				return
			}
			el := elemType(t.Typ)
			if el == nil {
				exact = false
				return
			}
			for i := int64(0); i < n; i++ {
				elems = append(elems, e.Load(s, e.IndexAddr(t, e.Int(i), el), el))
			}
		case KPhi:
			exact = false
			if seen[t] {
				return
			}
			seen[t] = true
			ins := e.Incoming(t)
			if len(ins) == 0 {
				elems = append(elems, e.intern(Term{Kind: KOpaque, Aux: "elem", Args: []*Term{t}}))
			}
			for _, in := range ins {
				walk(in)
			}
			for v := range e.elemStores[t] {
				elems = append(elems, v)
			}
		default:
			exact = false
			elems = append(elems, e.intern(Term{Kind: KOpaque, Aux: "elem", Args: []*Term{t}}))
		}
	}
	walk(t)
	return
}

func elemType(T types.Type) types.Type {
	if T == nil {
		return nil
	}
	T = T.Underlying()
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem().Underlying()
	}
	switch u := T.(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// Incoming lists the values a join term may stand for.
func (e *Engine) Incoming(t *Term) []*Term {
	var r []*Term
	for x := range e.incoming[t] {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// Origins expands join terms into all values they may stand for.
func (e *Engine) Origins(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Kind == KPhi {
			ins := e.Incoming(t)
			if len(ins) > 0 {
				for _, in := range ins {
					walk(in)
				}
				return
			}
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

func (e *Engine) addIncoming(p, t *Term, s *State) {
	if p == t {
		return
	}
	if s != nil && t.Kind != KPhi {
		e.noteIncoming(p, t, s)
	}
	m := e.incoming[p]
	if m == nil {
		m = map[*Term]bool{}
		e.incoming[p] = m
	}
	m[t] = true
}

// HavocCell makes the content of a cell unknown.
func (e *Engine) HavocCell(s *State, addr *Term, at string) { e.havocUnder(s, addr, at) }

// StoreQuiet writes without telling the rule.
func (e *Engine) StoreQuiet(s *State, addr, v *Term, T types.Type) {
	h := e.hooks
	e.hooks = nil
	e.Store(s, addr, v, T, "setup")
	e.hooks = h
}

// Cells lists memory cells below the object root.
func (e *Engine) Cells(s *State, root *Term) map[*Term]*Term {
	r := map[*Term]*Term{}
	for a, v := range s.mem {
		if Root(a) == root {
			r[a] = v
		}
	}
	return r
}

// Fact is a boolean term with its known value.
type Fact struct {
	T   *Term
	Val bool
}

// Facts lists known conditions in a fixed order.
func (e *Engine) Facts(s *State) []Fact {
	r := make([]Fact, 0, len(s.truth))
	for t, v := range s.truth {
		r = append(r, Fact{t, v})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].T.ID < r[j].T.ID })
	return r
}

// MapKeys lists all keys ever written to a map object.
func (e *Engine) MapKeys(m *Term) []*Term {
	var r []*Term
	for kv := range e.MapUpd[m] {
		r = append(r, kv[0])
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// ident is the object a value was loaded from.
func ident(t *Term) *Term {
	for {
		switch t.Kind {
		case KField, KInit, KFieldAddr, KConv, KIface:
			if len(t.Args) > 0 && t.Args[0] != nil {
				t = t.Args[0]
				continue
			}
		}
		return t
	}
}

// noteIncoming keeps facts about the source of t known each time it becomes the value of p.
func (e *Engine) noteIncoming(p, t *Term, s *State) {
	if e.incFacts == nil {
		e.incFacts = map[[2]*Term]map[*Term]bool{}
	}
	k := [2]*Term{p, t}
	old, ok := e.incFacts[k]
	if ok {
		for f, v := range old {
			if w, known := e.Truth(s, f); !known || w != v {
				delete(old, f)
			}
		}
		return
	}
	id := ident(t)
	m := map[*Term]bool{}
	if id.Kind != KConst && id.Kind != KNil {
		for f, v := range s.truth {
			if f.Mentions(id) {
				m[f] = v
			}
		}
	}
	e.incFacts[k] = m
}

// Origin is a possible value with facts that were known when it was selected.
type Origin struct {
	T     *Term
	Facts []Fact
}

// OriginsWith expands join terms keeping facts about selected values .
func (e *Engine) OriginsWith(s *State, t *Term) []Origin {
	seen := map[*Term]bool{}
	var out []Origin
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, in := range e.Incoming(t) {
			if t.Kind == KPhi && in.Kind != KPhi {
				o := Origin{T: in}
				for f, v := range e.incFacts[[2]*Term{t, in}] {
					o.Facts = append(o.Facts, Fact{f, v})
				}
				if s != nil {
					o.Facts = append(o.Facts, e.Facts(s)...)
				}
				out = append(out, o)
				continue
			}
			walk(in)
		}
		if t.Kind != KPhi || len(e.Incoming(t)) == 0 {
			o := Origin{T: t}
			if s != nil {
				o.Facts = e.Facts(s)
			}
			out = append(out, o)
		}
	}
	walk(t)
	return out
}

// GhostAssign sets a ghost counter to the value of an integer term.
func (e *Engine) GhostAssign(s *State, name string, t *Term) {
	g := e.Ghost(name)
	s.zone = s.zone.closed(e, s.zone.vars())
	s.zone.drop(g)
	if c, ok := ConstInt(t); ok {
		s.zone.set(g, nil, c)
		s.zone.set(nil, g, -c)
		return
	}
	b, off := e.Lin(t)
	s.zone.set(g, b, off)
	s.zone.set(b, g, -off)
}

// constBounds gives constant bounds of a slice, hi is -1 for the whole tail.
func constBounds(t *Term) (lo, hi int64, ok bool) {
	hi = -1
	if t.Args[1] != nil {
		if lo, ok = constInt(t.Args[1]); !ok {
			return
		}
	}
	if t.Args[2] != nil {
		if hi, ok = constInt(t.Args[2]); !ok {
			return
		}
	}
	return lo, hi, true
}

// Concat joins two texts.
func (e *Engine) Concat(a, b *Term) *Term {
	if c, ok := ConstStr(a); ok && c == "" {
		return b
	}
	if c, ok := ConstStr(b); ok && c == "" {
		return a
	}
	if x, ok := ConstStr(a); ok {
		if y, ok := ConstStr(b); ok {
			return e.Str(x + y)
		}
	}
	return e.intern(Term{Kind: KBin, Op: token.ADD, Args: []*Term{a, b}, Typ: types.Typ[types.String]})
}

// SetSlot remembers a value for a rule; it is joined as memory and is not a part of the partition key.
func (e *Engine) SetSlot(s *State, name string, v *Term) {
	a := e.slot(name)
	if v == nil {
		delete(s.mem, a)
		return
	}
	s.mem[a] = v
}

// Slot is the value remembered for a rule.
func (e *Engine) Slot(s *State, name string) *Term { return s.mem[e.slot(name)] }

var slotType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "slot of a rule", nil), types.NewStruct(nil, nil), nil)

func (e *Engine) slot(name string) *Term {
	return e.intern(Term{Kind: KCall, Aux: "slot " + name, Typ: types.NewPointer(slotType)})
}
