package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C11"] = ruleC11 }

const (
	ghSourcesRead = "source files read till the end"
	ghSourcesLeft = "source files not read yet"
)

// suffix: the value is the list without some of its first elements.
func (c *Ctx) suffix(e *eng.Engine, t, l *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == l || seen[t] {
			return true
		}
		seen[t] = true
		switch t.Kind {
		case eng.KSlice:
			return (len(t.Args) < 3 || t.Args[2] == nil) && walk(t.Args[0])
		case eng.KPhi:
			in := e.Incoming(t)
			for _, x := range in {
				if !walk(x) {
					return false
				}
			}
			return len(in) > 0
		}
		return false
	}
	return walk(t)
}

// splitters of the library pass the whole file to the scanner.
var splitters = map[string]bool{"bufio.ScanLines": true, "bufio.ScanWords": true, "bufio.ScanRunes": true, "bufio.ScanBytes": true}

// rewrap makes a reader of the same data.
var rewrap = map[string]bool{"bufio.NewReader": true, "bufio.NewReaderSize": true, "io.TeeReader": true}

// partReaders read a next part of the data.
var partReaders = map[string]bool{
	"(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadSlice": true,
	"(*bufio.Reader).ReadRune": true, "(*bufio.Reader).ReadByte": true, "(*bufio.Reader).Read": true,
	"(*bufio.Reader).ReadLine": true, "(io.Reader).Read": true,
}

// allReaders read the data till its end.
var allReaders = map[string]bool{"io.ReadAll": true, "io/ioutil.ReadAll": true, "io.Copy": true}

func isReader(T types.Type) bool {
	in, ok := T.Underlying().(*types.Interface)
	if !ok || in.NumMethods() == 0 {
		return false
	}
	m, _, _ := types.LookupFieldOrMethod(in, false, nil, "Read")
	_, ok = m.(*types.Func)
	return ok
}

func lastError(f *ssa.Function) int {
	n := f.Signature.Results().Len()
	if n == 0 || !eng.IsErrorType(f.Signature.Results().At(n-1).Type()) {
		return -1
	}
	return n - 1
}

// success: the error result of the outcome may be nil.
func mayBeNil(e *eng.Engine, o eng.Outcome, i int) bool {
	isnil, known := e.IsNil(o.St, o.Res[i])
	return !known || isnil
}

// readsAll proves that a function reads its argument till the end unless it reports an error.
func (c *Ctx) readsAll(f *ssa.Function) {
	name := relName(c.P, f)
	errIdx := lastError(f)
	if errIdx < 0 {
		c.Violate("no-error:"+name, f.Pos(), "%s reads a file but can not report errors", name)
		return
	}
	e := c.Engine()
	st := eng.NewState()
	var args []*eng.Term
	src := map[*eng.Term]bool{} // the file and readers made of it
	for _, p := range f.Params {
		a := e.Param(name+" "+p.Name(), p.Type())
		if isReader(p.Type()) {
			src[a] = true
		}
		args = append(args, a)
	}
	if f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			e.Assume(st, e.Eq(args[0], e.Nil()), false)
		}
	}
	if len(src) != 1 {
		c.Violate("file:"+name, f.Pos(), "the file %s reads is not recognized", name)
		return
	}
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	scanners := map[*eng.Term]bool{}
	boolT := types.Typ[types.Bool]
	_ = boolT
	eof := func(st *eng.State) *eng.Term {
		if pkg := c.P.Prog.ImportedPackage("io"); pkg != nil {
			if g := pkg.Var("EOF"); g != nil {
				return e.Load(st, e.GlobalTerm(g), derefT(g.Type()))
			}
		}
		return nil
	}
	// parts are outcomes of a call with the given error
	with := func(ev *eng.CallEvent, err *eng.Term, ghost, kind string) eng.Outcome {
		st := ev.St.Clone()
		if ghost != "" {
			st.SetGhost("input", ghost)
		}
		o := eng.Outcome{St: st}
		for i, T := range ev.Res {
			if eng.IsErrorType(T) {
				o.Res = append(o.Res, err)
				continue
			}
			o.Res = append(o.Res, e.Pure(fmt.Sprintf("%s %s %d", kind, ev.SiteID, i), T))
		}
		return o
	}
	failure := func(ev *eng.CallEvent) (*eng.Term, *eng.Term) {
		t := e.Pure("failure of "+ev.SiteID, types.Universe.Lookup("error").Type())
		return t, eof(ev.St)
	}
	e.SetHooks(&eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		var recv *eng.Term
		if len(ev.Args) > 0 {
			recv = strip(ev.Args[0])
		}
		switch {
		case ev.Name == "bufio.NewScanner":
			if !src[recv] {
				c.Violate("source:"+name, ev.Pos, "%s reads something else than its file: %v", name, recv)
				return nil, false
			}
			t := e.Pure("scanner "+ev.SiteID, ev.Res[0])
			e.Assume(ev.St, e.Eq(t, e.Nil()), false)
			scanners[t] = true
			c.Count("readers of files", 1)
			return []eng.Outcome{{St: ev.St, Res: []*eng.Term{t}}}, true
		case rewrap[ev.Name] && src[recv]:
			t := e.Pure("reader "+ev.SiteID, ev.Res[0])
			e.Assume(ev.St, e.Eq(t, e.Nil()), false)
			src[t] = true
			return []eng.Outcome{{St: ev.St, Res: []*eng.Term{t}}}, true
		case ev.Name == "(*bufio.Scanner).Split" && scanners[recv]:
			g := ev.Args[1]
			for g.Kind == eng.KConv {
				g = g.Args[0]
			}
			if g.Kind != eng.KFunc || g.Fn == nil || g.Fn.Object() == nil || !splitters[g.Fn.Object().(*types.Func).FullName()] {
				c.Violate("split:"+name, ev.Pos, "%s splits the file by an unknown function, it may stop before the end", name)
			}
			return []eng.Outcome{{St: ev.St}}, true
		case ev.Name == "(*bufio.Scanner).Scan" && scanners[recv]:
			more, end := ev.St.Clone(), ev.St
			if end.Ghost["input"] == "" || end.Ghost["input"] == "open" {
				end.SetGhost("input", "stopped")
			}
			if more.Ghost["input"] != "" && more.Ghost["input"] != "open" {
				return []eng.Outcome{{St: end, Res: []*eng.Term{e.Bool(false)}}}, true
			}
			more.SetGhost("input", "open")
			return []eng.Outcome{{St: more, Res: []*eng.Term{e.Bool(true)}}, {St: end, Res: []*eng.Term{e.Bool(false)}}}, true
		case ev.Name == "(*bufio.Scanner).Err" && scanners[recv]:
			c.Count("results of reading taken", 1)
			bad, _ := failure(ev)
			bad = e.Pure("failure of the scanner", bad.Typ)
			var outs []eng.Outcome
			if s := ev.St.Ghost["input"]; s != "failed" {
				g := s
				if s == "stopped" {
					g = "complete"
				}
				outs = append(outs, with(ev, e.Nil(), g, ""))
			}
			if s := ev.St.Ghost["input"]; s == "stopped" || s == "failed" {
				o := with(ev, bad, "failed", "")
				e.Assume(o.St, e.Eq(bad, e.Nil()), false)
				outs = append(outs, o)
			}
			return outs, true
		case partReaders[ev.Name] && (src[recv]):
			bad, end := failure(ev)
			o := with(ev, bad, "failed", "part")
			e.Assume(o.St, e.Eq(bad, e.Nil()), false)
			outs := []eng.Outcome{with(ev, e.Nil(), "open", "part")}
			if end != nil {
				e.Assume(o.St, e.Eq(bad, end), false)
				x := with(ev, end, "complete", "part")
				e.Assume(x.St, e.Eq(end, e.Nil()), false)
				outs = append(outs, x)
			}
			c.Count("readers of files", 1)
			return append(outs, o), true
		case allReaders[ev.Name]:
			in := recv
			if ev.Name == "io.Copy" && len(ev.Args) > 1 {
				in = strip(ev.Args[1])
			}
			if !src[in] {
				return nil, false
			}
			bad, _ := failure(ev)
			o := with(ev, bad, "failed", "data")
			e.Assume(o.St, e.Eq(bad, e.Nil()), false)
			c.Count("readers of files", 1)
			return []eng.Outcome{with(ev, e.Nil(), "complete", "data"), o}, true
		case ev.Name == "errors.Is" && len(ev.Args) == 2:
			if end := eof(ev.St); end != nil && ev.Args[1] == end {
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Eq(ev.Args[0], end)}}}, true
			}
		}
		if ev.Callee != nil && len(ev.Callee.Blocks) > 0 && c.P.InModule(pkgOf(ev.Callee)) {
			return nil, false
		}
		for _, a := range ev.Args {
			if src[strip(a)] {
				c.Violate("unknown:"+name, ev.Pos, "%s passes the file to %s, it is not known whether it is read till the end", name, ev.Name)
			}
		}
		return nil, false
	}})
	for _, o := range e.Run(f, st, args, nil, "reads "+name) {
		if o.Panic {
			continue
		}
		c.Count("outcomes of reading", 1)
		if !mayBeNil(e, o, errIdx) {
			c.Count("reported errors", 1)
			continue
		}
		pos := f.Pos()
		if o.Ret != nil && o.Ret.Pos() != token.NoPos {
			pos = o.Ret.Pos()
		}
		switch o.St.Ghost["input"] {
		case "complete":
			c.Count("complete results", 1)
		case "failed":
			c.Violate("error-lost:"+name, pos, "%s may return no error though reading has failed", name)
		case "stopped":
			c.Violate("error-unchecked:"+name, pos, "%s may return no error though it has not checked why reading stopped", name)
		default:
			c.Violate("unread:"+name, pos, "%s may return no error before the end of the file", name)
		}
	}
}

// sourceMethod: the interface method is implemented by types of sources.
func (c *Ctx) sourceMethod(m *types.Func, name string) bool {
	if m == nil || m.Name() != name {
		return false
	}
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return false
	}
	in, ok := recv.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for _, f := range c.P.extractors("Extract") {
		if types.Implements(f.Signature.Recv().Type(), in) {
			return true
		}
	}
	return false
}

// readsGroup proves that a function reads all sources of its list unless it reports an error.
func (c *Ctx) readsGroup(f *ssa.Function, list int) {
	name := relName(c.P, f)
	errIdx := lastError(f)
	if errIdx < 0 {
		c.Violate("no-error:"+name, f.Pos(), "%s reads files but can not report errors", name)
		return
	}
	e := c.Engine()
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(name+" "+p.Name(), p.Type()))
	}
	l := args[list]
	c.Count("functions that read lists of files", 1)
	strip := func(t *eng.Term) *eng.Term {
		for t.Kind == eng.KIface || t.Kind == eng.KConv || t.Kind == eng.KAssert {
			t = t.Args[0]
		}
		return t
	}
	strT := types.Typ[types.String]
	nameOf := func(src *eng.Term) *eng.Term { return e.Pure("name of the source", strT, src) }
	var stdin *eng.Term
	if pkg := c.P.Prog.ImportedPackage("os"); pkg != nil {
		if g := pkg.Var("Stdin"); g != nil {
			stdin = e.GlobalTerm(g)
		}
	}
	failed := func(o eng.Outcome) eng.Outcome {
		o.St.SetGhost("failed", "1")
		return o
	}
	closes := func(in *ssa.Defer) bool {
		if in.Call.IsInvoke() {
			return in.Call.Method.Name() == "Close"
		}
		callee := in.Call.StaticCallee()
		return callee != nil && callee.String() == "(*os.File).Close"
	}
	e.SetHooks(&eng.Hooks{IgnoreDefer: closes, Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		src := func() *eng.Term {
			t := ev.Args[0]
			for t.Kind == eng.KConv {
				t = t.Args[0]
			}
			return t
		}
		switch {
		case openers[ev.Name]:
			ok, bad := outcome(e, ev, true), outcome(e, ev, false)
			t := e.Pure("opened file", ev.Res[0], ev.Args[0])
			ok.Res[0] = t
			e.Assume(ok.St, e.Eq(t, e.Nil()), false)
			ok.St.SetGhost("opened", "1")
			bad.Res[0] = e.Nil()
			c.Count("opened sources", 1)
			return []eng.Outcome{ok, failed(bad)}, true
		case ev.Invoke && c.sourceMethod(ev.Obj, "Name"):
			return []eng.Outcome{{St: ev.St, Res: []*eng.Term{nameOf(src())}}}, true
		case ev.Invoke && (c.sourceMethod(ev.Obj, "Extract") || c.sourceMethod(ev.Obj, "ExtractSet")):
			c.Count("reads of sources", 1)
			el, idx, isElem := elemRef(src())
			next := isElem && el == l && sameIdx(e, ev.St, idx, e.Ghost(ghSourcesRead)) ||
				isElem && c.suffix(e, el, l) && sameIdx(e, ev.St, idx, e.Int(0)) && sameIdx(e, ev.St, e.Len(el), e.Ghost(ghSourcesLeft))
			if !next {
				c.Violate("order:"+name, ev.Pos, "%s: sources are not read one after another, exactly once each", name)
			}
			in := strip(ev.Args[1])
			switch {
			case in.Kind == eng.KCall && in.CalleeName() == "opened file":
				want := nameOf(src())
				if !e.Reaches(ev.St, in.Args[0], func(t *eng.Term) bool { return t == want }) {
					c.Violate("name:"+name, ev.Pos, "%s: a source is extracted from a file of another name", name)
				}
			case stdin != nil && in.Kind == eng.KInit && in.Args[0] == stdin:
				if v, known := e.Truth(ev.St, e.Eq(nameOf(src()), e.Str("-"))); !known || !v {
					c.Violate("stdin:"+name, ev.Pos, "%s: the standard input may be read instead of the file of the source", name)
				}
			default:
				c.Violate("input:"+name, ev.Pos, "%s: a source is extracted from %v instead of its file", name, in)
			}
			ev.St.SetGhost("opened", "")
			ok, bad := outcome(e, ev, true), outcome(e, ev, false)
			e.GhostInc(ok.St, ghSourcesRead, 1)
			e.GhostInc(ok.St, ghSourcesLeft, -1)
			return []eng.Outcome{ok, failed(bad)}, true
		}
		return nil, false
	}})
	e.GhostSet(st, ghSourcesRead, 0)
	e.GhostAssign(st, ghSourcesLeft, e.Len(l))
	st.Track["list"] = l
	for _, o := range e.Run(f, st, args, nil, "group "+name) {
		if o.Panic {
			continue
		}
		c.Count("outcomes for lists", 1)
		if !mayBeNil(e, o, errIdx) {
			continue
		}
		pos := f.Pos()
		if o.Ret != nil && o.Ret.Pos() != token.NoPos {
			pos = o.Ret.Pos()
		}
		if o.St.Ghost["failed"] != "" {
			c.Violate("error-lost:"+name, pos, "%s may return no error though a source has not been read", name)
		} else if !e.LE(o.St, e.Len(l), e.Ghost(ghSourcesRead), 0) && !e.LE(o.St, e.Ghost(ghSourcesLeft), e.Int(0), 0) {
			c.Violate("unread:"+name, pos, "%s may return no error before all sources are read", name)
		} else {
			c.Count("complete results", 1)
		}
	}
}

// storesError: the function keeps an error in a structure.
func storesError(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), types.Universe.Lookup("error").Type()) {
				if _, ok := st.Addr.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

// reports proves that a caller of functions reading files reports their errors.
func (c *Ctx) reports(f *ssa.Function, readers map[*ssa.Function]bool) {
	name := relName(c.P, f)
	errIdx := lastError(f)
	e := c.Engine()
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(name+" "+p.Name(), p.Type()))
	}
	own := fnPkg(f)
	c.Count("callers that report errors", 1)
	e.SetHooks(&eng.Hooks{
		Boundary: func(g *ssa.Function) bool { return fnPkg(g) != own },
		Model:    c.forkReaders(e, readers),
	})
	for _, o := range e.Run(f, st, args, nil, "caller "+name) {
		if o.Panic || o.St.Ghost["failed"] == "" {
			continue
		}
		c.Count("failures of callers", 1)
		if errIdx >= 0 && !mayBeNil(e, o, errIdx) {
			continue
		}
		pos := f.Pos()
		if o.Ret != nil && o.Ret.Pos() != token.NoPos {
			pos = o.Ret.Pos()
		}
		c.Violate("error-lost:"+name, pos, "%s may return no error though reading of source files has failed", name)
	}
}

func (c *Ctx) forkReaders(e *eng.Engine, readers map[*ssa.Function]bool) func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
	return func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		if ev.Callee == nil || !readers[ev.Callee] {
			return nil, false
		}
		c.Count("calls of functions that read files", 1)
		ok, bad := outcome(e, ev, true), outcome(e, ev, false)
		bad.St.SetGhost("failed", "1")
		return []eng.Outcome{ok, bad}, true
	}
}

func ruleC11(c *Ctx) {
	c.Rule = "Methods of sources are interpreted with reading that may stop at any point because of the end of the file or a failure: they return no error only when the reader has been asked why it stopped and that was the end. Functions reading lists of files are interpreted with every open and every source failing or not: without an error the number of sources that were read till the end is that of the list. Their callers and handlers of requests report such errors."
	// methods of sources
	seen := map[*ssa.Function]bool{}
	readAll := func(f *ssa.Function) {
		if obj, ok := f.Object().(*types.Func); ok {
			if g := c.P.Prog.FuncValue(obj); g != nil {
				f = g
			}
		}
		if seen[f] {
			return
		}
		seen[f] = true
		c.Count("functions that read files", 1)
		c.readsAll(f)
	}
	source := map[*ssa.Function]bool{}
	var src []*ssa.Function
	for _, m := range []string{"Extract", "ExtractSet"} {
		for _, f := range c.P.extractors(m) {
			source[f] = true
			src = append(src, f)
			readAll(f)
		}
	}
	scan := map[string]bool{"bufio.NewScanner": true}
	for _, f := range c.P.ModuleFuncs() {
		if f.Parent() != nil || f.Synthetic != "" || lastError(f) < 0 || !callsAny(f, scan) || len(src) == 0 || fnPkg(f) != fnPkg(src[0]) {
			continue
		}
		n := 0
		for _, p := range f.Params {
			if isReader(p.Type()) {
				n++
			}
		}
		if n == 1 {
			readAll(f)
		}
	}
	c.Need("functions that read files", 4)
	c.Need("readers of files", 4)
	c.Need("reported errors", 4)
	// functions that read lists of sources
	readers := map[*ssa.Function]bool{}
	for _, f := range src {
		readers[f] = true
		if obj, ok := f.Object().(*types.Func); ok {
			if g := c.P.Prog.FuncValue(obj); g != nil {
				readers[g] = true
			}
		}
	}
	g := c.P.Graph()
	for changed := true; changed; {
		changed = false
		for f, es := range g.Edges {
			if readers[f] || len(src) == 0 || fnPkg(f) != fnPkg(src[0]) {
				continue
			}
			for _, ed := range es {
				if ed.To != nil && readers[ed.To] {
					readers[f] = true
					changed = true
				}
			}
		}
	}
	outer := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]bool{}
	for from, es := range g.Edges {
		if fnPkg(from) == fnPkg(src[0]) || !c.P.InModule(pkgOf(from)) {
			continue
		}
		for _, ed := range es {
			if ed.To != nil && readers[ed.To] && !source[ed.To] {
				outer[ed.To] = true
				callers[from] = true
			}
		}
	}
	for _, f := range c.P.ModuleFuncs() {
		if !outer[f] {
			continue
		}
		list := -1
		for i, p := range f.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
				if m, _, _ := types.LookupFieldOrMethod(sl.Elem(), false, nil, "Extract"); m != nil {
					list = i
				}
			}
		}
		if list < 0 {
			c.Violate("list:"+relName(c.P, f), f.Pos(), "the list of sources read by %s is not recognized", relName(c.P, f))
			continue
		}
		c.readsGroup(f, list)
	}
	c.Need("functions that read lists of files", 2)
	c.Need("opened sources", 2)
	c.Need("complete results", 6)
	// other packages
	for _, f := range c.P.ModuleFuncs() {
		if lastError(f) < 0 && f.Signature.Recv() != nil && storesError(f) {
			// The error is reported later, see handlersReport.
			continue
		}
		if callers[f] && f.Parent() == nil && f.Synthetic == "" {
			c.reports(f, readers)
		}
	}
	c.Need("callers that report errors", 2)
	c.Need("failures of callers", 2)
	c.handlersReport(readers)
	// the one-time loading
	c.Only = func(key string) bool {
		for _, k := range []string{"load-error", "not-loaded", "rewritten", "early-read", "go:", "goroutine", "anchor", "undecided", "missing"} {
			if strings.HasPrefix(key, k) {
				return true
			}
		}
		return false
	}
	rule := c.Rule
	ruleC10(c)
	c.Rule = rule
	c.Only = nil
}

// handlersReport: requests whose handlers read files fail if reading fails.
func (c *Ctx) handlersReport(readers map[*ssa.Function]bool) {
	s := c.Server()
	if s == nil {
		return
	}
	name, fn := s.handlerOf("linkremark.linkSet", "burl.linkSet")
	if fn == nil {
		c.Missing("handler of linkSet")
		return
	}
	own := fnPkg(fn)
	n := 0
	for _, o := range s.Run(name, &eng.Hooks{
		Boundary: func(g *ssa.Function) bool { return fnPkg(g) != own && !pureGetter(g) },
		Model:    c.forkReaders(s.E, readers),
	}) {
		if o.Panic {
			continue
		}
		if o.St.Ghost["failed"] == "" {
			continue
		}
		n++
		if s.maySucceed(o) {
			c.Violate("error-lost:"+name, fn.Pos(), "%s may succeed though reading of source files has failed", relName(c.P, fn))
		}
	}
	c.Count("failures in linkSet", n)
	c.Need("failures in linkSet", 1)
}
