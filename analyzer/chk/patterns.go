package chk

import (
	"fmt"
	"go/token"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

func init() { Rules["C22"] = ruleC22 }

var compilers = map[string]bool{
	"regexp.Compile": true, "regexp.MustCompile": true,
	"regexp.CompilePOSIX": true, "regexp.MustCompilePOSIX": true,
	"regexp.MatchString": true, "regexp.Match": true, "regexp.MatchReader": true,
}

// hole is a variable part of a pattern.
type hole struct {
	t      *eng.Term
	quoted bool // literal text
}

// piece of a pattern: constant text, a hole or alternatives.
type piece struct {
	lit  string
	hole *hole
	alts [][]piece // texts an element of a joined list may be
	sep  string
}

// pattern is a sequence of pieces.
type patternText []piece

var placeholders = []string{"жщ", "юф", "эц", "шы", "дл", "рп", "бт", "км", "нг", "хъ", "яч", "вс"}

func ruleC22(c *Ctx) {
	c.Rule = "Every regular expression compiled from a variable text is found by abstract interpretation of functions extracting links for a set of prefixes and of other functions compiling such patterns. The pattern is expanded to sequences of constant texts and variable parts, joined lists have elements as parts. Every variable part is replaced by distinct placeholder texts and the syntax tree must be the same as if each alternative were explicitly grouped; every part that depends on the request must be passed through regexp.QuoteMeta after the last change of the text and it must not be folded to another case; every alternative must follow an anchor or a delimiter and every configured scheme must be followed by nothing but a colon in the compiled program."
	e := c.Engine()
	p := c.P
	g := p.Graph()
	seen := map[token.Pos]bool{}
	judged := map[string]bool{}
	client := false
	nClient, nScheme := 0, 0
	at := func(pos token.Pos) string { return p.Prog.Fset.Position(pos).String() }
	judge := func(ev *eng.CallEvent) {
		if !compilers[ev.Name] || len(ev.Args) == 0 {
			return
		}
		seen[ev.Pos] = true
		alts, why := expandPattern(e, ev.St, ev.Args[0], 0)
		if why != "" {
			c.Violate("undecided:"+at(ev.Pos), ev.Pos, "text of a pattern is not understood: %s", why)
			return
		}
		for _, txt := range alts {
			if client {
				for _, h := range holesOf(txt) {
					if !h.quoted && !configured(h.t) {
						c.Violate("not literal:"+at(ev.Pos), ev.Pos, "text that depends on prefixes of a request is a part of the pattern without regexp.QuoteMeta: %v", h.t)
					}
				}
			}
			key := fmt.Sprint(ev.Pos, describePattern(txt), client)
			if judged[key] {
				continue
			}
			judged[key] = true
			n := len(holesOf(txt))
			if n == 0 {
				continue
			}
			c.Count("patterns with variable parts", 1)
			c.Count("variable parts of patterns", n)
			if client {
				nClient += n
			} else {
				nScheme += n
			}
			if why := ungrouped(c, txt); why != "" {
				c.Violate("grouping:"+at(ev.Pos), ev.Pos, "in the pattern %s %s", describePattern(txt), why)
			}
		}
	}
	e.SetHooks(&eng.Hooks{NoUnroll: true, OnCall: judge, Model: buildTexts(e), OnInstr: func(st *eng.State, in ssa.Instruction) { newBuilder(e, st, in) }})
	defer e.SetHooks(&eng.Hooks{})
	run := func(f *ssa.Function) {
		c.Count("functions interpreted", 1)
		st := eng.NewState()
		var args []*eng.Term
		for i, prm := range f.Params {
			args = append(args, e.Param(fmt.Sprintf("%s#%d", f.Name(), i), prm.Type()))
		}
		if f.Pkg != nil && f == f.Pkg.Func("init") {
			if v, ok := f.Pkg.Members["init$guard"].(*ssa.Global); ok {
				e.StoreQuiet(st, e.GlobalTerm(v), e.Bool(false), derefT(v.Type()))
			}
		}
		e.Run(f, st, args, nil, "C22 "+f.String())
	}
	client = true
	for _, f := range p.extractors("ExtractSet") {
		run(f)
	}
	client = false
	// other functions
	type site struct {
		f   *ssa.Function
		pos token.Pos
	}
	var sites []site
	callers := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for f := range g.Edges {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, ed := range g.Edges[f] {
			if ed.To != nil && len(ed.To.Blocks) > 0 {
				callers[ed.To] = append(callers[ed.To], f)
			}
			if !compilers[ed.Name] || ed.Site == nil || len(ed.Site.Common().Args) == 0 {
				continue
			}
			c.Count("places where patterns are compiled", 1)
			if _, isConst := ssaConstText(ed.Site.Common().Args[0]); isConst {
				continue
			}
			sites = append(sites, site{f, ed.Site.Pos()})
		}
	}
	ran := map[*ssa.Function]bool{}
	for _, s := range sites {
		if seen[s.pos] {
			continue
		}
		// the topmost functions in the package
		done := map[*ssa.Function]bool{}
		var roots []*ssa.Function
		var climb func(f *ssa.Function)
		climb = func(f *ssa.Function) {
			if done[f] {
				return
			}
			done[f] = true
			outside := len(callers[f]) == 0
			for _, x := range callers[f] {
				if fnPkg(x) != fnPkg(f) {
					outside = true
				} else {
					climb(x)
				}
			}
			if outside && f.Parent() == nil {
				roots = append(roots, f)
			} else if f.Parent() != nil {
				climb(f.Parent())
			}
		}
		climb(s.f)
		for _, f := range roots {
			if !ran[f] {
				ran[f] = true
				run(f)
			}
		}
		if !seen[s.pos] {
			c.Violate("unseen:"+at(s.pos), s.pos, "the pattern is not analysed")
		}
	}
	c.Need("variable parts of patterns", 4)
	if nClient == 0 {
		c.Missing("patterns built from prefixes of requests")
	}
	if nScheme == 0 {
		c.Missing("patterns built from configured schemes")
	}
}

// configured: value of a package variable, not of an argument.
func configured(t *eng.Term) bool {
	ok := false
	t.AnySub(func(x *eng.Term) bool {
		if x.Kind == eng.KGlobal {
			ok = true
		}
		return false
	})
	return ok && !t.AnySub(func(x *eng.Term) bool { return x.Kind == eng.KParam })
}

func holesOf(txt []piece) (r []*hole) {
	for _, p := range txt {
		if p.hole != nil {
			r = append(r, p.hole)
		}
		for _, a := range p.alts {
			r = append(r, holesOf(a)...)
		}
	}
	return
}

func describePattern(txt []piece) string {
	var b strings.Builder
	for _, p := range txt {
		switch {
		case p.hole != nil && p.hole.quoted:
			b.WriteString("PREFIX")
		case p.hole != nil:
			b.WriteString("SCHEME")
		case p.alts != nil:
			for i, a := range p.alts {
				if i > 0 {
					b.WriteString(p.sep)
				}
				b.WriteString(describePattern(a))
			}
			b.WriteString(p.sep + "...")
		default:
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

// expandPattern lists texts a pattern may have.
func expandPattern(e *eng.Engine, st *eng.State, t *eng.Term, depth int) (out [][]piece, why string) {
	return expandParts(e, st, loopTexts(e, st, t), depth)
}

func expandParts(e *eng.Engine, st *eng.State, alternatives [][]part, depth int) (out [][]piece, why string) {
	for _, parts := range alternatives {
		cur := [][]piece{nil}
		for _, x := range parts {
			var add [][]piece
			switch {
			case x.t == nil:
				add = [][]piece{{{lit: x.lit}}}
			case x.list != nil && depth < 4:
				var subs [][][]part
				if x.elems != nil {
					subs = [][][]part{x.elems}
				} else {
					el, unknown := listParts(e, st, x.list)
					if unknown != nil {
						if el, _ = e.Elems(st, x.list); len(el) == 0 {
							return nil, fmt.Sprintf("elements of %v", x.list)
						}
					}
					for _, y := range el {
						subs = append(subs, loopTexts(e, st, y))
					}
				}
				var alts [][]piece
				has := map[string]bool{}
				for _, y := range subs {
					sub, w := expandParts(e, st, y, depth+1)
					if w != "" {
						return nil, w
					}
					for _, s := range sub {
						if k := describePattern(s) + fmt.Sprint(len(holesOf(s))); !has[k] || !allQuoted(s) {
							has[k] = true
							alts = append(alts, s)
						}
					}
				}
				if len(alts) == 0 {
					add = [][]piece{{{lit: ""}}}
				} else {
					add = [][]piece{{{alts: alts, sep: x.sep}}}
				}
			default:
				add = [][]piece{{{hole: &hole{t: x.t, quoted: isQuoted(e, st, x.t)}}}}
			}
			var next [][]piece
			for _, a := range cur {
				for _, b := range add {
					next = append(next, append(append([]piece(nil), a...), b...))
				}
			}
			cur = next
		}
		out = append(out, cur...)
	}
	return out, ""
}

func allQuoted(txt []piece) bool {
	for _, h := range holesOf(txt) {
		if !h.quoted {
			return false
		}
	}
	return true
}

// isQuoted: literal text of a value.
func isQuoted(e *eng.Engine, st *eng.State, t *eng.Term) bool {
	for {
		if t.Kind == eng.KConv && len(t.Args) == 1 {
			t = t.Args[0]
			continue
		}
		if t.Kind != eng.KCall {
			return false
		}
		switch t.CalleeName() {
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			if s, ok := eng.ConstStr(t.Args[1]); !ok || strings.ContainsAny(s, `\.+*?()|[]{}^$`) {
				return false
			}
			t = t.Args[0]
			continue
		case "regexp.QuoteMeta":
			// the text itself must not be changed
			return !t.Args[0].AnySub(func(x *eng.Term) bool {
				if x.Kind != eng.KCall {
					return false
				}
				n := x.CalleeName()
				for _, w := range []string{"strings.Join", "regexp.QuoteMeta", "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle", "strings.Map", "strings.Replace", "strings.Repeat", "strings.ToValidUTF8",
					"(*strings.Replacer)", "bytes.To", "bytes.Replace", "bytes.Map", "net/url.", "(*net/url.", "(*regexp.Regexp).Replace", "html.", "strconv."} {
					if strings.HasPrefix(n, w) {
						return true
					}
				}
				return false
			})
		}
		return false
	}
}

// render makes a pattern with placeholders; special is the index of a piece that is written as is,
// everything else is grouped.
type rendering struct {
	next int
}

func (r *rendering) token() string {
	t := placeholders[r.next%len(placeholders)]
	r.next++
	return t
}

// text of a sequence; pick selects alternatives
func (r *rendering) text(txt []piece, group bool) string {
	var b strings.Builder
	for _, p := range txt {
		switch {
		case p.hole != nil && p.hole.quoted:
			if group {
				b.WriteString("(?:" + r.token() + ")")
			} else {
				b.WriteString(r.token())
			}
		case p.hole != nil:
			s := r.token() + "|" + r.token()
			if group {
				s = "(?:" + s + ")"
			}
			b.WriteString(s)
		case p.alts != nil:
			s := "(?:(?:" + r.text(p.alts[0], true) + ")|(?:" + r.text(p.alts[len(p.alts)-1], true) + "))"
			b.WriteString(s)
		default:
			b.WriteString(p.lit)
		}
	}
	return b.String()
}

// ungrouped explains which part is not grouped properly.
func ungrouped(c *Ctx, txt []piece) string {
	compare := func(i int, raw, grouped func(r *rendering) string) string {
		var s [2]string
		for k, mid := range []func(r *rendering) string{raw, grouped} {
			r := &rendering{}
			before := r.text(txt[:i], true)
			r.next = 0
			m := mid(r)
			r.next = 1
			s[k] = before + m + r.text(txt[i+1:], true)
		}
		c.Count("pairs of syntax trees compared", 1)
		a, err1 := treeOf(s[0])
		b, err2 := treeOf(s[1])
		if err2 != nil {
			return "parts are not a valid pattern: " + err2.Error()
		}
		if err1 != nil || a != b {
			return fmt.Sprintf("an alternative is not limited by a group: %s is not the same as %s", s[0], s[1])
		}
		if folded(b) {
			return "letter case of a variable part is ignored"
		}
		return ""
	}
	for i, p := range txt {
		i, p := i, p
		switch {
		case p.hole != nil:
			one := []piece{p}
			if w := compare(i, func(r *rendering) string { return r.text(one, false) }, func(r *rendering) string { return r.text(one, true) }); w != "" {
				return w
			}
			if w := surroundings(txt, i, !p.hole.quoted, func(r *rendering) string { return r.text(one, true) }); w != "" {
				return w
			}
		case p.alts != nil:
			for _, a := range p.alts {
				for _, b := range p.alts {
					if w := compare(i,
						func(r *rendering) string { return r.plain(a) + p.sep + r.plain(b) },
						func(r *rendering) string { return "(?:(?:" + r.text(a, true) + ")|(?:" + r.text(b, true) + "))" }); w != "" {
						return w
					}
				}
				if w := compare(i, func(r *rendering) string { return r.plain(a) }, func(r *rendering) string { return "(?:" + r.text(a, true) + ")" }); w != "" {
					return w
				}
				if w := surroundings(txt, i, !allQuoted(a), func(r *rendering) string { return "(?:" + r.text(a, true) + ")" }); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

// plain text of an element: quoted texts are literal and alternatives inside
// of a scheme are those of the list.
func (r *rendering) plain(txt []piece) string {
	return r.text(txt, false)
}

// surroundings: an alternative starts at an anchor or a delimiter and nothing but a colon may follow a scheme.
func surroundings(txt []piece, i int, colon bool, mid func(r *rendering) string) string {
	r := &rendering{}
	before := r.text(txt[:i], true)
	r.next = 0
	m := mid(r)
	n := r.next
	r.next = 2
	after := r.text(txt[i+1:], true)
	// placeholders of the part are different from all others
	uniq := []rune("ѣѳѵѯѱѡѥѩѭѫѧѕ")
	for k := 0; k < n && k < len(placeholders); k++ {
		m = strings.ReplaceAll(m, placeholders[k], string(uniq[k]))
	}
	re, err := syntax.Parse(before+m+after, syntax.Perl)
	if err != nil {
		return err.Error()
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return err.Error()
	}
	// before
	seen := map[uint32]bool{}
	todo := []uint32{uint32(prog.Start)}
	for len(todo) > 0 {
		pc := todo[0]
		todo = todo[1:]
		if seen[pc] {
			continue
		}
		seen[pc] = true
		x := &prog.Inst[pc]
		switch x.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			todo = append(todo, x.Out, x.Arg)
		case syntax.InstCapture, syntax.InstNop:
			todo = append(todo, x.Out)
		case syntax.InstRune1, syntax.InstRune:
			if len(x.Rune) > 0 && strings.ContainsRune(string(uniq), x.Rune[0]) {
				return "an alternative may be found in the middle of a word"
			}
		}
	}
	if !colon {
		return ""
	}
	for k := range prog.Inst {
		in := &prog.Inst[k]
		if in.Op != syntax.InstRune1 && in.Op != syntax.InstRune || len(in.Rune) == 0 || !strings.ContainsRune(string(uniq), in.Rune[0]) {
			continue
		}
		seen := map[uint32]bool{}
		todo := []uint32{in.Out}
		for len(todo) > 0 {
			pc := todo[0]
			todo = todo[1:]
			if seen[pc] {
				continue
			}
			seen[pc] = true
			x := &prog.Inst[pc]
			switch x.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				todo = append(todo, x.Out, x.Arg)
			case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
				todo = append(todo, x.Out)
			case syntax.InstFail:
			case syntax.InstRune1, syntax.InstRune:
				ok := len(x.Rune) > 0
				for _, ch := range x.Rune {
					if ch != ':' {
						ok = false
					}
				}
				if !ok {
					return "a scheme may be followed by other characters than a colon"
				}
			default:
				return "a scheme is not followed by a colon"
			}
		}
	}
	return ""
}

// treeOf is a normalised form of a syntax tree.
func treeOf(pattern string) (string, error) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	writeTree(&b, re)
	return b.String(), nil
}

func writeTree(b *strings.Builder, re *syntax.Regexp) {
	sub := re.Sub
	if re.Op == syntax.OpConcat || re.Op == syntax.OpAlternate {
		sub = flattenTree(re.Op, re.Sub)
	}
	if re.Op == syntax.OpConcat {
		var merged []*syntax.Regexp
		for _, s := range sub {
			if s.Op == syntax.OpEmptyMatch {
				continue
			}
			if n := len(merged); n > 0 && s.Op == syntax.OpLiteral && merged[n-1].Op == syntax.OpLiteral && s.Flags&syntax.FoldCase == merged[n-1].Flags&syntax.FoldCase {
				m := *merged[n-1]
				m.Rune = append(append([]rune(nil), m.Rune...), s.Rune...)
				merged[n-1] = &m
				continue
			}
			merged = append(merged, s)
		}
		sub = merged
		if len(sub) == 1 {
			writeTree(b, sub[0])
			return
		}
	}
	fmt.Fprintf(b, "%v", re.Op)
	switch re.Op {
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			b.WriteString("/i")
		}
		fmt.Fprintf(b, "%q", string(re.Rune))
	case syntax.OpCharClass:
		fmt.Fprintf(b, "%d", re.Rune)
	case syntax.OpRepeat:
		fmt.Fprintf(b, "%d,%d", re.Min, re.Max)
	}
	if re.Flags&syntax.NonGreedy != 0 && re.Op != syntax.OpLiteral && re.Op != syntax.OpConcat && re.Op != syntax.OpAlternate && re.Op != syntax.OpCapture && re.Op != syntax.OpCharClass {
		b.WriteString("?")
	}
	if len(sub) > 0 {
		b.WriteString("(")
		for i, s := range sub {
			if i > 0 {
				b.WriteString(" ")
			}
			writeTree(b, s)
		}
		b.WriteString(")")
	}
}

func flattenTree(op syntax.Op, sub []*syntax.Regexp) (r []*syntax.Regexp) {
	for _, s := range sub {
		if s.Op == op {
			r = append(r, flattenTree(op, s.Sub)...)
		} else {
			r = append(r, s)
		}
	}
	return
}

// folded: case of a placeholder does not matter.
func folded(tree string) bool {
	for _, f := range strings.Split(tree, "Literal/i")[1:] {
		if q := strings.Index(f[1:], `"`); q >= 0 {
			if strings.IndexFunc(f[:q+1], func(r rune) bool { return r >= 'Ѐ' && r <= 'ӿ' }) >= 0 {
				return true
			}
		}
	}
	return false
}

func builderSlot(t *eng.Term) string { return fmt.Sprintf("text of builder %p", t) }

// newBuilder notices local builders of texts.
func newBuilder(e *eng.Engine, st *eng.State, in ssa.Instruction) {
	b := in.Block()
	for i, x := range b.Instrs {
		if i > 0 && x == in {
			if a, ok := b.Instrs[i-1].(*ssa.Alloc); ok {
				switch derefT(a.Type()).String() {
				case "strings.Builder", "bytes.Buffer":
					e.SetSlot(st, builderSlot(e.Val(st, a)), e.Str(""))
				}
			}
			return
		}
	}
}

// buildTexts models gathering of a text by methods of strings.Builder.
func buildTexts(e *eng.Engine) func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
	return func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		op := strings.TrimPrefix(strings.TrimPrefix(ev.Name, "(*strings.Builder)."), "(*bytes.Buffer).")
		if len(ev.Args) == 0 {
			return nil, false
		}
		args := ev.Args
		if op == ev.Name {
			if ev.Name != "io.WriteString" && ev.Name != "fmt.Fprintf" {
				return nil, false
			}
			for args[0].Kind == eng.KIface {
				args = append([]*eng.Term{args[0].Args[0]}, args[1:]...)
			}
			op = strings.TrimPrefix(strings.TrimPrefix(ev.Name, "io."), "fmt.")
		}
		slot := builderSlot(args[0])
		cur := e.Slot(ev.St, slot)
		if cur == nil {
			return nil, false
		}
		done := func(res ...*eng.Term) ([]eng.Outcome, bool) {
			return []eng.Outcome{{St: ev.St, Res: res}}, true
		}
		switch op {
		case "String":
			return done(cur)
		case "Len":
			return done(e.Len(cur))
		case "Grow":
			return done()
		case "Reset":
			e.SetSlot(ev.St, slot, e.Str(""))
			return done()
		case "WriteString":
			e.SetSlot(ev.St, slot, e.Concat(cur, args[1]))
			return done(e.Len(args[1]), e.Nil())
		case "WriteByte", "WriteRune":
			x := e.Pure("text of a character", e.Str("").Typ, args[1])
			if n, ok := eng.ConstInt(args[1]); ok {
				x = e.Str(string(rune(n)))
			}
			e.SetSlot(ev.St, slot, e.Concat(cur, x))
			if op == "WriteByte" {
				return done(e.Nil())
			}
			return done(e.Unknown(ev.St, "written", ev.Res[0]), e.Nil())
		case "Fprintf":
			e.SetSlot(ev.St, slot, e.Concat(cur, e.Pure("fmt.Sprintf", e.Str("").Typ, args[1:]...)))
			return done(e.Unknown(ev.St, "written", ev.Res[0]), e.Nil())
		}
		e.SetSlot(ev.St, slot, e.Unknown(ev.St, "text", e.Str("").Typ))
		return nil, false
	}
}
