package eng

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// slot is a value joined together with states.
type slot struct {
	terms []*Term
	typ   types.Type
	set   func(s *State, t *Term)
}

// join merges states of one partition. id names the merge point, slots are
// values bound at it, keepTop restricts the environment of the top frame.
// widen: first state is the previous one, unstable bounds are dropped.
func (e *Engine) join(states []*State, id string, slots []slot, deps []int, prev *State) *State {
	if len(states) == 1 && prev == nil {
		s := states[0].Clone()
		for _, sl := range slots {
			sl.set(s, sl.terms[0])
		}
		e.prune(s)
		return s
	}
	res := states[0].Clone()
	n := len(states)
	type bind struct {
		merged *Term
		in     []*Term
	}
	var binds []bind
	mergeTerm := func(name string, in []*Term, T types.Type) *Term {
		same := true
		for _, t := range in[1:] {
			if t != in[0] {
				same = false
				break
			}
		}
		if same {
			return in[0]
		}
		// a value known to be nil is nil
		norm := make([]*Term, n)
		same = true
		for i, t := range in {
			norm[i] = t
			if nillable(T) && t.Kind != KNil {
				if isnil, known := e.nilness(states[i], t); known && isnil {
					norm[i] = e.Nil()
				}
			}
			if norm[i] != norm[0] {
				same = false
			}
		}
		if same {
			return norm[0]
		}
		if T == nil {
			for _, t := range in {
				if t.Typ != nil && t.Kind != KNil {
					T = t.Typ
					break
				}
			}
		}
		// elements of the same list at indices that are already joined
		var unify func(in []*Term, depth int) *Term
		unify = func(in []*Term, depth int) *Term {
			same := true
			for _, t := range in[1:] {
				if t != in[0] {
					same = false
				}
			}
			if same {
				return in[0]
			}
			for _, b := range binds {
				if b.merged.Kind != KPhi {
					continue
				}
				eq := true
				for i := range in {
					if b.in[i] != in[i] {
						eq = false
						break
					}
				}
				if eq {
					return b.merged
				}
			}
			t0 := in[0]
			if depth == 0 || t0.Kind != KInit && t0.Kind != KIndexAddr && t0.Kind != KIndex {
				return nil
			}
			for _, t := range in[1:] {
				if t.Kind != t0.Kind || t.Aux != t0.Aux || t.N != t0.N || len(t.Args) != len(t0.Args) || t.Op != t0.Op || t.Val != t0.Val || t.Fn != t0.Fn || t.Glob != t0.Glob || t.Obj != t0.Obj {
					return nil
				}
			}
			args := make([]*Term, len(t0.Args))
			for i := range args {
				x := make([]*Term, n)
				for j, t := range in {
					x[j] = t.Args[i]
				}
				if args[i] = unify(x, depth-1); args[i] == nil {
					return nil
				}
			}
			r := *t0
			r.Args = args
			r.ID = 0
			r.Deps = nil
			return e.intern(r)
		}
		if norm[0].Kind == KInit || norm[0].Kind == KIndexAddr || norm[0].Kind == KIndex {
			if t := unify(norm, 2); t != nil {
				binds = append(binds, bind{t, norm})
				return t
			}
		}
		p := e.intern(Term{Kind: KPhi, Aux: id + "#" + name, Typ: T, Deps: deps})
		for i, t := range norm {
			e.addIncoming(p, t, states[i])
		}
		binds = append(binds, bind{p, norm})
		return p
	}
	slotVals := make([]*Term, len(slots))
	for i, sl := range slots {
		slotVals[i] = mergeTerm(fmt.Sprint("s", i), sl.terms, sl.typ)
	}
	// environment of the top frame
	if len(res.frames) > 0 {
		env := map[ssa.Value]*Term{}
		f0 := states[0].top()
		var vals []ssa.Value
		for v := range f0.env {
			ok := true
			for _, s := range states[1:] {
				if _, has := s.top().env[v]; !has {
					ok = false
					break
				}
			}
			if ok {
				vals = append(vals, v)
			}
		}
		sort.Slice(vals, func(i, j int) bool { return e.valID(vals[i]) < e.valID(vals[j]) })
		for _, v := range vals {
			in := make([]*Term, n)
			for i, s := range states {
				in[i] = s.top().env[v]
			}
			env[v] = mergeTerm("v"+fmt.Sprint(e.valID(v)), in, v.Type())
		}
		top := res.top()
		top.env = env
		if n > 1 {
			for _, s := range states[1:] {
				if len(s.top().defers) > len(top.defers) {
					top.defers = append([]deferEntry(nil), s.top().defers...)
				}
			}
		}
	}
	for i, sl := range slots {
		sl.set(res, slotVals[i])
	}
	// memory
	addrs := map[*Term]bool{}
	for _, s := range states {
		for a := range s.mem {
			addrs[a] = true
		}
	}
	al := make([]*Term, 0, len(addrs))
	for a := range addrs {
		al = append(al, a)
	}
	sort.Slice(al, func(i, j int) bool { return al[i].ID < al[j].ID })
	res.mem = map[*Term]*Term{}
	for _, a := range al {
		in := make([]*Term, n)
		var T types.Type
		root := Root(a)
		for i, s := range states {
			if v, ok := s.mem[a]; ok {
				in[i] = v
			} else if fresh(root) && !s.made[root] {
				// the object does not exist
				for _, o := range states {
					if v, ok := o.mem[a]; ok {
						in[i] = v
						break
					}
				}
			} else {
				T = derefType(a.Typ)
				if a.Kind == KMap || a.Kind == KMake && T == a.Typ {
					in[i] = e.intern(Term{Kind: KOpaque, Aux: "absent"})
				} else {
					in[i] = e.Load(s, a, T)
				}
			}
		}
		res.mem[a] = mergeTerm("m"+fmt.Sprint(a.ID), in, derefType(a.Typ))
	}
	// epochs
	keys := map[string]bool{}
	for _, s := range states {
		for k := range s.epoch {
			keys[k] = true
		}
	}
	res.epoch = map[string]*Term{}
	for k := range keys {
		var eps []*Term
		same := true
		for _, s := range states {
			eps = append(eps, s.epoch[k])
			if s.epoch[k] != states[0].epoch[k] {
				same = false
			}
		}
		if same {
			res.epoch[k] = eps[0]
		} else {
			res.epoch[k] = e.intern(Term{Kind: KEpoch, Aux: "join " + id + k, Deps: deps})
		}
	}
	for _, s := range states[1:] {
		for k := range s.escaped {
			res.escaped[k] = true
		}
		for k := range s.made {
			res.create(k)
		}
	}
	// facts
	res.truth = map[*Term]bool{}
	for f, v := range states[0].truth {
		ok := true
		for _, s := range states[1:] {
			if w, known := e.Truth(s, f); !known || w != v {
				ok = false
				break
			}
		}
		if ok {
			res.truth[f] = v
		}
	}
	for si := 1; si < n; si++ {
		for f, v := range states[si].truth {
			if _, done := res.truth[f]; done {
				continue
			}
			ok := true
			for sj, s := range states {
				if sj == si {
					continue
				}
				if w, known := e.Truth(s, f); !known || w != v {
					ok = false
					break
				}
			}
			if ok {
				res.truth[f] = v
			}
		}
	}
	for _, b := range binds {
		// nilness or truth of the joined value
		var atoms []*Term
		if isBool(b.merged.Typ) {
			atoms = append(atoms, b.merged)
		} else if nillable(b.merged.Typ) {
			atoms = append(atoms, e.Eq(b.merged, e.Nil()))
		}
		for _, a := range atoms {
			var val bool
			ok := true
			for i, s := range states {
				v, known := e.Truth(s, e.Subst(a, b.merged, b.in[i]))
				if !known || i > 0 && v != val {
					ok = false
					break
				}
				val = v
			}
			if ok {
				res.truth[a] = val
			}
		}
		for si, s := range states {
			if k := b.in[si].Kind; k == KConst || k == KNil {
				continue
			}
			for f, v := range s.truth {
				if !f.Mentions(b.in[si]) {
					continue
				}
				g := e.Subst(f, b.in[si], b.merged)
				if _, done := res.truth[g]; done || g.Kind == KConst {
					continue
				}
				ok := true
				for sj, o := range states {
					if sj == si {
						continue
					}
					w, known := e.Truth(o, e.Subst(g, b.merged, b.in[sj]))
					if !known || w != v {
						ok = false
						break
					}
				}
				if ok {
					res.truth[g] = v
				}
			}
		}
	}
	// integer relations
	zs := make([]*Zone, n)
	for i, s := range states {
		z := s.zone.clone()
		eq := func(m, t *Term) {
			mb, mo := e.Lin(m)
			tb, to := e.Lin(t)
			if mb == tb {
				return
			}
			z.set(mb, tb, to-mo)
			z.set(tb, mb, mo-to)
		}
		for _, b := range binds {
			if b.in[i] == b.merged {
				continue
			}
			if isInt(b.merged.Typ) {
				eq(b.merged, b.in[i])
			} else if hasLen(b.merged.Typ) {
				eq(e.Len(b.merged), e.Len(b.in[i]))
				if _, ok := b.merged.Typ.Underlying().(*types.Slice); ok {
					eq(e.Cap(b.merged), e.Cap(b.in[i]))
				}
			}
		}
		zs[i] = z
	}
	live := e.liveVars(res)
	for _, v := range slotVals {
		// results of a call are not a part of the state
		if isInt(v.Typ) {
			if b, _ := e.Lin(v); b != nil {
				live[b] = true
			}
		} else if hasLen(v.Typ) {
			live[e.Len(v)] = true
		}
	}
	if prev == nil {
		// values of fields in memory may be loaded again
		for _, z := range zs {
			for k := range z.c {
				for _, v := range k {
					if v != nil && v.Kind == KInit && e.nonNeg(v) {
						live[v] = true
					}
				}
			}
		}
	}
	for i := range zs {
		zs[i] = zs[i].closed(e, live)
	}
	rz := newZone()
	for k, c := range zs[0].c {
		ok := true
		for _, z := range zs[1:] {
			d, has := z.c[k]
			if !has {
				d = e.implicit(k[0], k[1])
			}
			if d >= inf {
				ok = false
				break
			}
			if d > c {
				c = d
			}
		}
		if ok {
			rz.c[k] = c
		}
	}
	if prev != nil {
		// widening against the previous state: keep only bounds that did not grow
		for k, c := range rz.c {
			if p := prev.zone.bound(e, k[0], k[1]); p < c {
				delete(rz.c, k)
			}
		}
	}
	res.zone = rz
	return res
}

// liveVars are integer bases that matter for the state.
func (e *Engine) liveVars(s *State) map[*Term]bool {
	v := map[*Term]bool{}
	seen := map[*Term]bool{}
	var add func(t *Term, depth int)
	add = func(t *Term, depth int) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if isInt(t.Typ) {
			if b, _ := e.Lin(t); b != nil {
				v[b] = true
			}
		} else if hasLen(t.Typ) || t.Kind == KList || t.Kind == KSlice || t.Kind == KMake || t.Kind == KCat {
			if b, _ := e.Lin(e.Len(t)); b != nil {
				v[b] = true
			}
			if b, _ := e.Lin(e.Cap(t)); b != nil {
				v[b] = true
			}
		}
		if depth < 3 {
			for _, a := range t.Args {
				add(a, depth+1)
			}
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			add(t, 0)
		}
		for _, d := range f.defers {
			for _, t := range d.args {
				add(t, 0)
			}
		}
	}
	for a, t := range s.mem {
		add(t, 1)
		if a.Kind == KIndexAddr {
			add(a.Args[1], 3)
		}
	}
	for _, t := range s.Track {
		add(t, 0)
	}
	for k := range s.zone.c {
		for _, t := range k {
			if t != nil && t.Kind == KGhost {
				v[t] = true
			}
		}
	}
	return v
}

func (e *Engine) prune(s *State) {
	if len(s.zone.c) > 60 {
		s.zone = s.zone.closed(e, e.liveVars(s))
	}
}

// classOf describes what is known about a value for partitioning.
func (e *Engine) classOf(s *State, t *Term, T types.Type, consts bool) string {
	if t == nil {
		return ""
	}
	if t.Kind == KTuple {
		var sb strings.Builder
		for _, a := range t.Args {
			sb.WriteString(e.classOf(s, a, a.Typ, consts))
		}
		return sb.String()
	}
	switch {
	case isBool(T):
		if v, k := e.Truth(s, t); k {
			if v {
				return "T"
			}
			return "F"
		}
		return "?"
	case nillable(T):
		if _, isSlice := T.Underlying().(*types.Slice); isSlice {
			if consts {
				return e.constList(t)
			}
			return ""
		}
		if _, isMap := T.Underlying().(*types.Map); isMap {
			return ""
		}
		if v, k := e.nilness(s, t); k {
			if v {
				return "N"
			}
			if t.Kind == KFunc || t.Kind == KClosure {
				return "f" + fmt.Sprint(t.ID)
			}
			return "V"
		}
		return "?"
	}
	if consts && t.Kind == KConst {
		return "=" + t.Val.ExactString()
	}
	if consts && isString(T) {
		if v, k := e.Truth(s, e.Eq(t, e.Str(""))); k {
			if v {
				return "e"
			}
			return "n"
		}
	}
	return ""
}

// constList names a list of constants of known length.
func (e *Engine) constList(t *Term) string {
	if t.Kind == KNil {
		return "=[]"
	}
	if t.Kind != KList || len(t.Args) > 9 {
		return ""
	}
	base := ""
	if t.Args[0] != nil {
		if base = e.constList(t.Args[0]); base == "" {
			return ""
		}
	}
	for _, a := range t.Args[1:] {
		if a.Kind != KConst {
			return ""
		}
		base += "," + a.Val.ExactString()
	}
	return base + "."
}
