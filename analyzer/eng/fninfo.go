package eng

import (
	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	outer  *loopInfo
}

type fnInfo struct {
	counters map[*ssa.Phi]bool
	fn       *ssa.Function
	rpo      []*ssa.BasicBlock
	rpoIdx   map[*ssa.BasicBlock]int
	loops    map[*ssa.BasicBlock]*loopInfo // by header
	inner    map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	liveIn   []map[ssa.Value]bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn, rpoIdx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}}
	e.infos[fn] = in
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.rpoIdx[post[i]] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	for _, b := range in.rpo {
		for _, l := range in.loops {
			if l.body[b] {
				cur := in.inner[b]
				if cur == nil || len(l.body) < len(cur.body) {
					in.inner[b] = l
				}
			}
		}
	}
	for h, l := range in.loops {
		for _, o := range in.loops {
			if o != l && o.body[h] && (l.outer == nil || len(o.body) < len(l.outer.body)) {
				l.outer = o
			}
		}
	}
	in.liveness()
	return in
}

func (in *fnInfo) liveness() {
	n := len(in.fn.Blocks)
	in.liveIn = make([]map[ssa.Value]bool, n)
	use := make([]map[ssa.Value]bool, n)
	def := make([]map[ssa.Value]bool, n)
	phiUse := make([]map[ssa.Value]bool, n) // uses by phis of successors
	for i := range use {
		use[i], def[i], phiUse[i], in.liveIn[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar, nil:
			return false
		}
		return true
	}
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				for i, v := range phi.Edges {
					if tracked(v) {
						phiUse[b.Preds[i].Index][v] = true
					}
				}
				def[b.Index][phi] = true
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && tracked(*op) && !def[b.Index][*op] {
					use[b.Index][*op] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[b.Index][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := in.fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for v := range phiUse[i] {
				live[v] = true
			}
			for _, s := range b.Succs {
				for v := range in.liveIn[s.Index] {
					live[v] = true
				}
			}
			for v := range live {
				if !def[i][v] && !in.liveIn[i][v] {
					in.liveIn[i][v] = true
					changed = true
				}
			}
			for v := range use[i] {
				if !in.liveIn[i][v] {
					in.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
}
