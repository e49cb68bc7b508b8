package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Zone is a set of difference bounds x-y <= c over integer terms; the nil term
// stands for zero. Lengths are implicitly non-negative.
type Zone struct {
	c    map[[2]*Term]int64
	adj  map[*Term][]zedge
	memo map[*Term]map[*Term]int64
}

func newZone() *Zone { return &Zone{c: map[[2]*Term]int64{}} }

func (z *Zone) clone() *Zone {
	n := &Zone{c: make(map[[2]*Term]int64, len(z.c)), adj: z.adj, memo: z.memo}
	for k, v := range z.c {
		n.c[k] = v
	}
	return n
}

const inf = math.MaxInt64 / 4

func (e *Engine) nonNeg(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Kind {
	case KLen, KCap:
		return true
	case KBin:
		if t.Op == token.ADD && isInt(t.Typ) && e.nonNeg(t.Args[0]) {
			if n, ok := constInt(t.Args[1]); ok {
				return n >= 0
			}
			return e.nonNeg(t.Args[1])
		}
	case KOpaque:
		if v, ok := t.Obj.(*types.Var); ok && e.NonNeg[v] {
			return true
		}
	case KInit:
		if a := t.Args[0]; a.Kind == KFieldAddr {
			if v, ok := a.Obj.(*types.Var); ok && e.NonNeg[v] {
				return true
			}
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// implicit edges: 0 - len <= 0, len - cap <= 0
func (z *Zone) vars() map[*Term]bool {
	v := map[*Term]bool{}
	for k := range z.c {
		v[k[0]] = true
		v[k[1]] = true
	}
	return v
}

// bound gives the least c with x-y <= c that is derivable.
func (z *Zone) bound(e *Engine, x, y *Term) int64 {
	if x == y {
		return 0
	}
	if len(z.c) == 0 {
		return e.implicit(x, y)
	}
	if z.adj == nil {
		z.adj = make(map[*Term][]zedge, len(z.c))
		for k, c := range z.c {
			z.adj[k[1]] = append(z.adj[k[1]], zedge{k[0], c})
		}
	}
	if len(z.adj[y]) == 0 && y != nil && !e.nonNeg(y) {
		return inf
	}
	if z.memo == nil {
		z.memo = map[*Term]map[*Term]int64{}
	}
	dist := z.memo[y]
	if dist == nil {
		// Bellman-Ford from y: dist[v] = best bound of v-y
		dist = map[*Term]int64{y: 0}
		queue := []*Term{y}
		inq := map[*Term]bool{y: true}
		n := 0
		relax := func(v *Term, d int64) {
			if o, ok := dist[v]; !ok || d < o {
				dist[v] = d
				if !inq[v] {
					inq[v] = true
					queue = append(queue, v)
				}
			}
		}
		for len(queue) > 0 && n < 4000 {
			n++
			v := queue[0]
			queue = queue[1:]
			inq[v] = false
			d := dist[v]
			for _, ed := range z.adj[v] {
				relax(ed.to, d+ed.c)
			}
			if v != nil && e.nonNeg(v) {
				relax(nil, d)
			}
			if v != nil && v.Kind == KCap {
				relax(e.Len(v.Args[0]), d)
			}
		}
		z.memo[y] = dist
	}
	if d, ok := dist[x]; ok {
		return d
	}
	if x != nil && x.Kind == KLen {
		if d, ok := dist[e.Cap(x.Args[0])]; ok {
			return d
		}
	}
	return inf
}

type zedge struct {
	to *Term
	c  int64
}

func (e *Engine) implicit(x, y *Term) int64 {
	if x == nil && e.nonNeg(y) {
		return 0
	}
	if x != nil && y != nil && x.Kind == KLen && e.Cap(x.Args[0]) == y {
		return 0
	}
	return inf
}

func (z *Zone) set(x, y *Term, c int64) {
	if x == y {
		return
	}
	k := [2]*Term{x, y}
	if o, ok := z.c[k]; !ok || c < o {
		z.c[k] = c
		z.adj, z.memo = nil, nil
	}
}

// closed returns the full closure restricted to vars (nil is always kept).
func (z *Zone) closed(e *Engine, keep map[*Term]bool) *Zone {
	vm := z.vars()
	for v := range keep {
		vm[v] = true
	}
	delete(vm, nil)
	vars := make([]*Term, 0, len(vm)+1)
	for v := range vm {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
	vars = append(vars, nil)
	n := len(vars)
	idx := map[*Term]int{}
	for i, v := range vars {
		idx[v] = i
	}
	d := make([]int64, n*n)
	for i := range d {
		d[i] = inf
	}
	for i := 0; i < n; i++ {
		d[i*n+i] = 0
	}
	put := func(a, b int, c int64) {
		if c < d[a*n+b] {
			d[a*n+b] = c
		}
	}
	for k, c := range z.c {
		put(idx[k[0]], idx[k[1]], c)
	}
	for i, v := range vars {
		if e.nonNeg(v) {
			put(n-1, i, 0)
			if v.Kind == KLen {
				if j, ok := idx[e.Cap(v.Args[0])]; ok {
					put(i, j, 0)
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			ik := d[i*n+k]
			if ik >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				if kj := d[k*n+j]; kj < inf && ik+kj < d[i*n+j] {
					d[i*n+j] = ik + kj
				}
			}
		}
	}
	r := newZone()
	for i, a := range vars {
		if a != nil && !keep[a] {
			continue
		}
		for j, b := range vars {
			if i == j || b != nil && !keep[b] {
				continue
			}
			if c := d[i*n+j]; c < inf {
				if a == nil && e.nonNeg(b) && c == 0 {
					continue // implicit
				}
				r.c[[2]*Term{a, b}] = c
			}
		}
	}
	return r
}

// shift replaces variable v by v+n.
func (z *Zone) shift(v *Term, n int64) {
	nc := make(map[[2]*Term]int64, len(z.c))
	for k, c := range z.c {
		if k[0] == v {
			c += n
		}
		if k[1] == v {
			c -= n
		}
		nc[k] = c
	}
	z.c = nc
	z.adj, z.memo = nil, nil
}

func (z *Zone) drop(v *Term) {
	z.adj, z.memo = nil, nil
	for k := range z.c {
		if k[0] == v || k[1] == v {
			delete(z.c, k)
		}
	}
}

func (z *Zone) rename(m map[*Term]*Term) {
	nc := make(map[[2]*Term]int64, len(z.c))
	for k, c := range z.c {
		if t, ok := m[k[0]]; ok {
			k[0] = t
		}
		if t, ok := m[k[1]]; ok {
			k[1] = t
		}
		if k[0] != k[1] {
			nc[k] = c
		}
	}
	z.c = nc
	z.adj, z.memo = nil, nil
}

func zoneEqual(a, b *Zone) bool {
	if len(a.c) != len(b.c) {
		return false
	}
	for k, c := range a.c {
		if d, ok := b.c[k]; !ok || c != d {
			return false
		}
	}
	return true
}

// ZoneString prints bounds of a state for debugging.
func (e *Engine) ZoneString(s *State, filter string) string {
	var l []string
	name := func(t *Term) string {
		if t == nil {
			return "0"
		}
		return t.String()
	}
	for k, c := range s.zone.c {
		if n := name(k[0]) + name(k[1]); !strings.Contains(n, filter) || strings.Contains(n, "opaque") || strings.Contains(n, "cap(") || strings.Contains(n, "&") {
			continue
		}
		l = append(l, fmt.Sprintf("%s-%s<=%d", name(k[0]), name(k[1]), c))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// UpperBounds lists terms a value is known to not exceed.
func (e *Engine) UpperBounds(s *State, t *Term) []*Term {
	b, off := e.Lin(t)
	var out []*Term
	for v := range s.zone.vars() {
		if v == nil || v == b || v.Kind == KGhost {
			continue
		}
		if c := s.zone.bound(e, b, v); c < inf && c+off <= 1<<20 {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}
