package chk

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Languages of regular expressions (Go syntax) are compared through a product of subset automata
// over classes of runes that no expression distinguishes. Zero-width assertions are supported.

type reLang struct {
	prog *syntax.Prog
}

// compileSearch gives the language of texts in which the pattern is found anywhere.
func compileSearch(pat string) (*reLang, error) {
	return compileLang("(?s:.*)(?:" + pat + ")(?s:.*)")
}

func compileLang(pat string) (*reLang, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &reLang{p}, nil
}

// runeClasses are representatives of all classes of runes the programs distinguish.
func runeClasses(ls ...*reLang) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true}
	for _, l := range ls {
		for i := range l.prog.Inst {
			in := &l.prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				rs := in.Rune
				if len(rs) == 1 {
					r := rs[0]
					cut[r], cut[r+1] = true, true
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						for f := simpleFold(r); f != r; f = simpleFold(f) {
							cut[f], cut[f+1] = true, true
						}
					}
					continue
				}
				for j := 0; j+1 < len(rs); j += 2 {
					cut[rs[j]], cut[rs[j+1]+1] = true, true
				}
			}
		}
	}
	var out []rune
	for r := range cut {
		if r <= 0x10ffff {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// closure follows empty transitions given the runes around the position (-1: text boundary).
func (l *reLang) closure(set map[uint32]bool, prev, next rune) (runes []uint32, match bool) {
	flag := syntax.EmptyOpContext(prev, next)
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &l.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				walk(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			runes = append(runes, pc)
		}
	}
	for pc := range set {
		walk(pc)
	}
	return
}

func (l *reLang) step(set map[uint32]bool, prev, next rune) map[uint32]bool {
	runes, _ := l.closure(set, prev, next)
	out := map[uint32]bool{}
	for _, pc := range runes {
		in := &l.prog.Inst[pc]
		if in.MatchRune(next) {
			out[in.Out] = true
		}
	}
	return out
}

func (l *reLang) accepts(set map[uint32]bool, prev rune) bool {
	// InstMatch is reached whatever follows, but the search continues till the end of text
	_, m := l.closure(set, prev, -1)
	return m
}

func setKey(set map[uint32]bool) string {
	var l []int
	for k := range set {
		l = append(l, int(k))
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

// included tells whether every text of a belongs to b; otherwise it returns a text that does not.
func included(a, b *reLang) (bool, string, error) {
	type node struct {
		sa, sb map[uint32]bool
		prev   rune
		text   string
	}
	classes := runeClasses(a, b)
	start := node{map[uint32]bool{uint32(a.prog.Start): true}, map[uint32]bool{uint32(b.prog.Start): true}, -1, ""}
	queue := []node{start}
	seen := map[string]bool{}
	for n := 0; len(queue) > 0; n++ {
		if n > 20000 {
			return false, "", fmt.Errorf("too many states")
		}
		x := queue[0]
		queue = queue[1:]
		if a.accepts(x.sa, x.prev) && !b.accepts(x.sb, x.prev) {
			return false, x.text, nil
		}
		for _, r := range classes {
			y := node{a.step(x.sa, x.prev, r), b.step(x.sb, x.prev, r), r, x.text + string(r)}
			if len(y.sa) == 0 {
				continue
			}
			k := fmt.Sprint(setKey(y.sa), setKey(y.sb), contextOf(r))
			if !seen[k] {
				seen[k] = true
				queue = append(queue, y)
			}
		}
	}
	return true, "", nil
}

func contextOf(r rune) int {
	switch {
	case r == '\n':
		return 1
	case syntax.IsWordChar(r):
		return 2
	}
	return 3
}

func simpleFold(r rune) rune {
	// orbit of r computed from the folding flag of the library
	return unicode.SimpleFold(r)
}

// searchIncluded: every text where pattern a is found belongs to the language of b (also searched).
func searchIncluded(a, b string) (bool, string, error) {
	la, err := compileSearch(a)
	if err != nil {
		return false, "", err
	}
	lb, err := compileSearch(b)
	if err != nil {
		return false, "", err
	}
	ok, ex, err := included(la, lb)
	return ok, strings.ToValidUTF8(ex, "?"), err
}
