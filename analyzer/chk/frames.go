package chk

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	Rules["C01"] = ruleC01
	Rules["C02"] = ruleC02
}

const framePkg = "pkg/webextensions"

// framed is a codec made for a pair of streams.
type framed struct {
	c                     *Ctx
	e                     *eng.Engine
	name                  string
	st                    *eng.State
	codec                 *eng.Term // interface value
	conn                  *eng.Term // the object passed to the codec that is wrapped
	inner, reader, writer *eng.Term
	buf                   *eng.Term // bytes.Buffer messages are collected in
	lim                   *eng.Term // io.LimitedReader messages are read from
	limT                  types.Type
	msg                   *eng.Term // content of the buffer
	announced             *eng.Term // size from the header
}

// codecs interprets constructors of codecs.
func (c *Ctx) codecs() []*framed {
	var l []*framed
	for _, name := range []string{"NewServerCodecSplit", "NewClientCodecSplit"} {
		fn := c.P.Func(framePkg, name)
		if fn == nil || fn.Signature.Params().Len() != 3 {
			c.Missing("constructor " + name)
			continue
		}
		e := c.Engine()
		f := &framed{c: c, e: e, name: name}
		ps := fn.Signature.Params()
		f.reader = e.Param("input of "+name, ps.At(0).Type())
		f.writer = e.Param("output of "+name, ps.At(1).Type())
		factory := e.Param("factory of "+name, ps.At(2).Type())
		f.inner = e.Param("codec wrapped by "+name, ps.At(2).Type().Underlying().(*types.Signature).Results().At(0).Type())
		f.msg = e.Param("message", types.NewSlice(types.Typ[types.Byte]))
		f.announced = e.Param("announced size", types.Typ[types.Uint32])
		e.SetHooks(&eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if ev.FnTerm == factory {
				if f.conn != nil && f.conn != ev.Args[0] {
					c.Violate("factory:"+name, ev.Pos, "several objects are passed to the codec factory by %s", name)
				}
				f.conn = ev.Args[0]
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{f.inner}}}, true
			}
			return nil, false
		}})
		st := eng.NewState()
		for _, p := range []*eng.Term{f.reader, f.writer, factory, f.inner} {
			e.Assume(st, e.Eq(p, e.Nil()), false)
		}
		n := 0
		for _, o := range e.Run(fn, st, []*eng.Term{f.reader, f.writer, factory}, nil, name) {
			if o.Panic || len(o.Res) != 1 {
				continue
			}
			n++
			f.st, f.codec = o.St, o.Res[0]
		}
		if n != 1 || f.conn == nil || f.codec.Kind != eng.KIface || f.conn.Kind != eng.KIface {
			c.Missing("codec created by " + name)
			continue
		}
		c.Count("codecs", 1)
		l = append(l, f)
	}
	c.Need("codecs", 2)
	return l
}

// embedded gives the address of an embedded library structure, promoted methods are called for.
func (f *framed) embedded(recv *eng.Term, pkg, name string) (*eng.Term, types.Type) {
	p, ok := recv.Typ.Underlying().(*types.Pointer)
	if !ok {
		return recv, nil
	}
	T := p.Elem()
	if n := namedOf(T); n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg {
		return recv, T
	}
	str, ok := T.Underlying().(*types.Struct)
	if !ok {
		return recv, nil
	}
	for i := 0; i < str.NumFields(); i++ {
		if !str.Field(i).Embedded() {
			continue
		}
		if r, T := f.embedded(f.e.FieldAddr(recv, T, i), pkg, name); T != nil {
			return r, T
		}
	}
	return recv, nil
}

func (f *framed) method(recv *eng.Term, name string) *ssa.Function {
	ms := f.c.P.Prog.MethodSets.MethodSet(recv.Typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return f.c.P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// run interprets a method of an interface value with arbitrary arguments.
func (f *framed) run(recv *eng.Term, name string, st *eng.State, h *eng.Hooks) ([]eng.Outcome, []*eng.Term) {
	fn := f.method(recv, name)
	if fn == nil {
		f.c.Missing(name + " of the object created by " + f.name)
		return nil, nil
	}
	args := []*eng.Term{recv.Args[0]}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		p := f.e.Param(name+" argument "+sig.Params().At(i).Name(), sig.Params().At(i).Type())
		args = append(args, p)
	}
	f.e.SetHooks(h)
	return f.e.Run(fn, st.Clone(), args, nil, f.name+" "+name), args[1:]
}

func (f *framed) fail(ev *eng.CallEvent, ghost, val string) eng.Outcome {
	st := ev.St.Clone()
	if ghost != "" {
		st.SetGhost(ghost, val)
	}
	o := eng.Outcome{St: st}
	for i, T := range ev.Res {
		t := f.e.Pure("failed "+ev.SiteID, T, f.e.Int(int64(i)))
		if eng.IsErrorType(T) {
			f.e.Assume(st, f.e.Eq(t, f.e.Nil()), false)
		}
		o.Res = append(o.Res, t)
	}
	return o
}

func (f *framed) succeed(ev *eng.CallEvent, ghost, val string) eng.Outcome {
	st := ev.St.Clone()
	if ghost != "" {
		st.SetGhost(ghost, val)
	}
	o := eng.Outcome{St: st}
	for i, T := range ev.Res {
		t := f.e.Nil()
		if !eng.IsErrorType(T) {
			t = f.e.Pure("result "+ev.SiteID, T, f.e.Int(int64(i)))
		}
		o.Res = append(o.Res, t)
	}
	return o
}

// nativeOrder: the byte order is the one of the architecture messages are exchanged on.
func (f *framed) nativeOrder(t *eng.Term) bool {
	T := t.Typ
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KGlobal {
		if v := f.e.GlobalInit(t.Args[0].Glob); v != nil {
			T = v.Type()
			if m, ok := v.(*ssa.MakeInterface); ok {
				T = m.X.Type()
			}
		}
	}
	n := namedOf(T)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/binary" && (n.Obj().Name() == "littleEndian" || n.Obj().Name() == "nativeEndian")
}

// wide strips conversions that do not change numbers below 2^32.
func wide(t *eng.Term) *eng.Term {
	for t.Kind == eng.KConv && len(t.Args) == 1 {
		b, ok := t.Typ.Underlying().(*types.Basic)
		if !ok {
			break
		}
		switch b.Kind() {
		case types.Int, types.Int64, types.Uint, types.Uint32, types.Uint64, types.Uintptr:
			t = t.Args[0]
			continue
		}
		break
	}
	return t
}

func is32(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Int32)
}

func (f *framed) exactLen(st *eng.State, t *eng.Term, n int64) bool {
	e := f.e
	return e.LE(st, e.Len(t), e.Int(n), 0) && e.LE(st, e.Int(n), e.Len(t), 0)
}

// isWriter: the output stream itself.
func (f *framed) same(t, stream *eng.Term) bool {
	for _, o := range f.e.Origins(t) {
		if o != stream {
			return false
		}
	}
	return true
}

func rootID(t *eng.Term) string { return "bytes " + eng.Root(sliceBase(t)).String() }

func sliceBase(t *eng.Term) *eng.Term {
	for t.Kind == eng.KSlice {
		t = t.Args[0]
	}
	return t
}

// ---- C01

func ruleC01(c *Ctx) {
	c.Rule = "Typestate of the output: codecs made by NewServerCodecSplit and NewClientCodecSplit are interpreted abstractly with the wrapped codec succeeding or failing and every write to the output succeeding or failing. The object passed to the wrapped codec has to put the bytes to a bytes.Buffer unchanged. Sending starts with an empty buffer; the only writes to the output are the 4 byte length of the buffer in native byte order and then the whole buffer; a nil error is returned only if encoding and both writes succeeded; the buffer is empty on every exit. Reading and closing write nothing."
	for _, f := range c.codecs() {
		f.findBuffer()
		if f.buf == nil {
			continue
		}
		m := "WriteResponse"
		if f.method(f.codec, m) == nil {
			m = "WriteRequest"
		}
		e := f.e
		st := f.st.Clone()
		st.SetGhost("buf", "empty")
		outs, _ := f.run(f.codec, m, st, &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) { return f.writeModel(ev, m) }})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			c.Count("outcomes of sending", 1)
			if o.St.Ghost["buf"] != "empty" {
				c.Violate("left:"+f.name, f.method(f.codec, m).Pos(), "%s of the codec made by %s may leave data of a message in the buffer (encoding %s, output %s), it would become a part of the next frame", m, f.name, word(o.St.Ghost["enc"]), word(o.St.Ghost["seq"]))
			}
			n, known := e.IsNil(o.St, o.Res[0])
			if known && !n {
				continue
			}
			if o.St.Ghost["enc"] != "ok" || o.St.Ghost["seq"] != "frame" {
				c.Violate("sent:"+f.name, f.method(f.codec, m).Pos(), "%s of the codec made by %s may report success though encoding is %s and output is %s", m, f.name, word(o.St.Ghost["enc"]), word(o.St.Ghost["seq"]))
			} else {
				c.Count("successful outcomes", 1)
			}
		}
		for _, other := range []string{"ReadRequestHeader", "ReadRequestBody", "ReadResponseHeader", "ReadResponseBody", "Close"} {
			if f.method(f.codec, other) == nil {
				continue
			}
			f.run(f.codec, other, f.st, &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
				f.quiet(ev, other)
				return nil, false
			}})
			c.Count("other methods", 1)
		}
		f.run(f.conn, "Close", f.st, &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			f.quiet(ev, "Close")
			return nil, false
		}})
	}
	c.Need("outcomes of sending", 6)
	c.Need("successful outcomes", 2)
	c.Need("header writes", 2)
	c.Need("body writes", 2)
	c.Assume = append(c.Assume, "a codec of net/rpc/jsonrpc writes a message by a single call of Write of the connection; writers follow the io.Writer contract", "net/rpc serializes calls of WriteResponse and WriteRequest")
}

func word(s string) string {
	if s == "" {
		return "not started"
	}
	return s
}

// quiet reports any write to the output.
func (f *framed) quiet(ev *eng.CallEvent, where string) {
	for i, a := range ev.Args {
		if a == f.writer && (i > 0 || ev.Invoke && !strings.HasSuffix(ev.Name, ".Close")) {
			f.c.Violate("extra:"+where+f.name, ev.Pos, "%s uses the output stream of the codec made by %s (%s)", where, f.name, ev.Name)
		}
	}
}

// findBuffer interprets Write of the connection.
func (f *framed) findBuffer() {
	c, e := f.c, f.e
	var p *eng.Term
	bad := false
	calls := 0
	outs, args := f.run(f.conn, "Write", f.st, &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		switch {
		case ev.Name == "(*bytes.Buffer).Write":
			calls++
			f.buf, _ = f.embedded(ev.Args[0], "bytes", "Buffer")
			st := ev.St
			n := st.Ghost["written"]
			if ev.Args[1].Kind == eng.KParam && strings.HasPrefix(ev.Args[1].String(), "Write argument") {
				st.SetGhost("written", n+"p")
			} else {
				st.SetGhost("written", n+"?")
			}
			return []eng.Outcome{f.succeed(ev, "", ""), f.fail(ev, "written", "failed")}, true
		case ev.Args != nil:
			f.quiet(ev, "Write")
		}
		return nil, false
	}})
	if len(args) == 1 {
		p = args[0]
	}
	_ = p
	for _, o := range outs {
		n, known := e.IsNil(o.St, o.Res[len(o.Res)-1])
		if known && !n {
			continue
		}
		if o.St.Ghost["written"] != "p" {
			bad = true
		}
	}
	if calls == 0 || bad {
		c.Violate("collect:"+f.name, token.NoPos, "Write of the connection made by %s does not put exactly its argument to a buffer", f.name)
		f.buf = nil
		return
	}
	c.Count("connections", 1)
}

// headerOf classifies bytes written to the output.
func (f *framed) classify(st *eng.State, t *eng.Term) string {
	e := f.e
	if t == f.msg || t.Kind == eng.KSlice && t.Args[0] == f.msg && e.LE(st, e.Len(f.msg), e.Len(t), 0) {
		return "body"
	}
	if st.Ghost[rootID(t)] == "length" && f.exactLen(st, t, 4) {
		return "header"
	}
	if t.Kind == eng.KCat && len(t.Args) == 2 && f.classify(st, t.Args[0]) == "header" && f.classify(st, t.Args[1]) == "body" {
		return "frame"
	}
	return ""
}

func (f *framed) isLength(st *eng.State, v *eng.Term) bool {
	return wide(v) == f.e.Len(f.msg)
}

func (f *framed) writeModel(ev *eng.CallEvent, m string) ([]eng.Outcome, bool) {
	c, e, st := f.c, f.e, ev.St
	bad := func(key, format string) {
		c.Violate(key+":"+f.name, ev.Pos, "codec made by %s: "+format, f.name)
	}
	write := func(what string) ([]eng.Outcome, bool) {
		seq := st.Ghost["seq"]
		next := map[string]string{"header": "header", "body": "frame", "frame": "frame"}[what]
		switch {
		case st.Ghost["enc"] != "ok":
			bad("early", "something is sent though no message was encoded successfully")
		case what == "header" && seq == "", what == "body" && seq == "header", what == "frame" && seq == "":
		default:
			bad("order", what+" is written while the output is in the state "+word(seq))
		}
		if what != "body" {
			c.Count("header writes", 1)
		}
		if what != "header" {
			c.Count("body writes", 1)
		}
		return []eng.Outcome{f.succeed(ev, "seq", next), f.fail(ev, "seq", "failed")}, true
	}
	isBuf := func(i int) bool {
		if len(ev.Args) <= i {
			return false
		}
		a := ev.Args[i]
		if a.Kind == eng.KIface {
			a = a.Args[0]
		}
		if a.Typ == nil || a.Kind == eng.KNil {
			return false
		}
		b, _ := f.embedded(a, "bytes", "Buffer")
		return b == f.buf
	}
	toOut := func(i int) bool { return len(ev.Args) > i && f.same(ev.Args[i], f.writer) }
	full := st.Ghost["buf"] == "message"
	switch {
	case ev.Invoke && len(ev.Args) > 0 && f.same(ev.Args[0], f.inner):
		if !strings.HasSuffix(ev.Name, "."+m) {
			return nil, false
		}
		if st.Ghost["buf"] != "empty" || st.Ghost["seq"] != "" || st.Ghost["enc"] != "" {
			bad("encode", "a message is encoded while the buffer is not empty or the frame is started")
		}
		c.Count("encodings", 1)
		a, b := f.succeed(ev, "enc", "ok"), f.fail(ev, "enc", "failed")
		a.St.SetGhost("buf", "message")
		b.St.SetGhost("buf", "rest")
		return []eng.Outcome{a, b}, true
	case strings.HasPrefix(ev.Name, "(*bytes.Buffer).") && isBuf(0):
		switch op := strings.TrimPrefix(ev.Name, "(*bytes.Buffer)."); op {
		case "Len":
			if full {
				return []eng.Outcome{{St: st, Res: []*eng.Term{e.Len(f.msg)}}}, true
			}
		case "Bytes":
			if full {
				return []eng.Outcome{{St: st, Res: []*eng.Term{f.msg}}}, true
			}
		case "Reset":
			st.SetGhost("buf", "empty")
			return []eng.Outcome{{St: st}}, true
		case "Truncate":
			if n, ok := eng.ConstInt(ev.Args[1]); ok && n == 0 {
				st.SetGhost("buf", "empty")
				return []eng.Outcome{{St: st}}, true
			}
			st.SetGhost("buf", "rest")
		case "WriteTo":
			if toOut(1) {
				if !full {
					bad("body", "the buffer does not hold exactly the message when it is sent")
				}
				o, _ := write("body")
				o[0].St.SetGhost("buf", "empty")
				o[1].St.SetGhost("buf", "rest")
				return o, true
			}
			st.SetGhost("buf", "rest")
		case "Cap", "Available", "Grow", "String":
		default:
			st.SetGhost("buf", "rest")
		}
		return nil, false
	case ev.Name == "encoding/binary.Write" && toOut(0):
		d := ev.Args[2]
		v, T := d, d.Typ
		if d.Kind == eng.KIface {
			v, T = d.Args[0], d.Typ
			if p, ok := T.Underlying().(*types.Pointer); ok {
				T = p.Elem()
				v = e.Load(st, v, T)
			}
		}
		switch {
		case T == nil || !is32(T):
			bad("width", "the header is not a 4 byte number")
		case !f.nativeOrder(strip(ev.Args[1])) && !f.nativeOrder(ev.Args[1]):
			bad("order4", "the header is not in native byte order")
		case !full || !f.isLength(st, v):
			bad("length", "the header is not the length of the message in the buffer")
		}
		return write("header")
	case strings.HasSuffix(ev.Name, ".PutUint32") || strings.HasSuffix(ev.Name, ".AppendUint32"):
		v := ev.Args[len(ev.Args)-1]
		ok := full && f.isLength(st, v) && (f.nativeOrder(ev.Args[0]) || f.nativeOrder(strip(ev.Args[0])))
		val := "other"
		if ok {
			val = "length"
		}
		if strings.HasSuffix(ev.Name, ".PutUint32") {
			st.SetGhost(rootID(ev.Args[1]), val)
			return []eng.Outcome{{St: st}}, true
		}
		t := e.Pure("header "+val, ev.Res[0])
		if !f.exactLen(st, ev.Args[1], 0) {
			val = "other"
		}
		st.SetGhost(rootID(t), val)
		e.Assume(st, e.Eq(e.Len(t), e.Int(4)), true)
		return []eng.Outcome{{St: st, Res: []*eng.Term{t}}}, true
	case ev.Name == "io.Copy" && toOut(0) && isBuf(1):
		if !full {
			bad("body", "the buffer does not hold exactly the message when it is sent")
		}
		o, _ := write("body")
		o[0].St.SetGhost("buf", "empty")
		o[1].St.SetGhost("buf", "rest")
		return o, true
	case (strings.HasSuffix(ev.Name, ".Write") && ev.Invoke) && toOut(0):
		what := f.classify(st, ev.Args[1])
		if what == "" || what != "header" && !full {
			bad("bytes", "unexpected bytes are written to the output")
			what = "frame"
		}
		return write(what)
	}
	for i := range ev.Args {
		if !toOut(i) {
			continue
		}
		if ev.Callee != nil && len(ev.Callee.Blocks) > 0 && c.inModule(ev) {
			continue
		}
		bad("other", "the output is used by "+ev.Name)
	}
	if !c.inModule(ev) {
		for i := range ev.Args {
			if isBuf(i) {
				st.SetGhost("buf", "rest")
			}
		}
	}
	return nil, false
}

// ---- C02

func ruleC02(c *Ctx) {
	c.Rule = "Typestate of the input: codecs made by NewServerCodecSplit and NewClientCodecSplit are interpreted abstractly, an arbitrary part of the previous frame being unread. The object passed to the wrapped codec has to read through an io.LimitedReader of the input. The header is read only if nothing is left of the previous frame or the rest was skipped; the wrapped codec is called only after a header was read successfully, with the limit set to exactly the announced size, known not to exceed 1 GiB; any failure is returned. Reading of bodies never touches headers."
	for _, f := range c.codecs() {
		f.findLimited()
		if f.lim == nil {
			continue
		}
		m, body := "ReadRequestHeader", "ReadRequestBody"
		if f.method(f.codec, m) == nil {
			m, body = "ReadResponseHeader", "ReadResponseBody"
		}
		e := f.e
		str := f.limT.Underlying().(*types.Struct)
		nIdx := -1
		for i := 0; i < str.NumFields(); i++ {
			if str.Field(i).Name() == "N" {
				nIdx = i
			}
		}
		if nIdx < 0 {
			c.Missing("limit of io.LimitedReader")
			continue
		}
		e.NonNeg[str.Field(nIdx)] = true
		nAddr := e.FieldAddr(f.lim, f.limT, nIdx)
		T := types.Typ[types.Int64]
		left := e.Param("unread part of the previous frame", T)
		st := f.st.Clone()
		e.StoreQuiet(st, nAddr, left, T)
		e.Assume(st, e.Less(left, e.Int(0)), false)
		header := func(read bool) func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			return func(ev *eng.CallEvent) ([]eng.Outcome, bool) { return f.readModel(ev, m, read, nAddr, left) }
		}
		outs, _ := f.run(f.codec, m, st, &eng.Hooks{Model: header(true)})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			c.Count("outcomes of reading", 1)
			n, known := e.IsNil(o.St, o.Res[0])
			if known && !n {
				continue
			}
			if o.St.Ghost["dec"] != "ok" {
				c.Violate("read:"+f.name, f.method(f.codec, m).Pos(), "%s of the codec made by %s may report success though reading of the header is %s and decoding is %s", m, f.name, word(o.St.Ghost["hdr"]), word(o.St.Ghost["dec"]))
			} else {
				c.Count("successful outcomes", 1)
			}
		}
		st = f.st.Clone()
		e.StoreQuiet(st, nAddr, left, T)
		f.run(f.codec, body, st, &eng.Hooks{Model: header(false)})
		c.Count("body methods", 1)
	}
	c.Need("outcomes of reading", 6)
	c.Need("successful outcomes", 2)
	c.Need("header reads", 2)
	c.Need("decodings", 2)
	c.Assume = append(c.Assume, "io.LimitedReader never reads more than N bytes and maintains N; readers follow the io.Reader contract", "net/rpc reads header and body of a message in turn from one goroutine")
}

// findLimited interprets Read of the connection.
func (f *framed) findLimited() {
	c, e := f.c, f.e
	bad := false
	outs, args := f.run(f.conn, "Read", f.st, &eng.Hooks{Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
		if ev.Name == "(*io.LimitedReader).Read" {
			r, T := f.embedded(ev.Args[0], "io", "LimitedReader")
			if f.lim != nil && f.lim != r {
				bad = true
			}
			f.lim, f.limT = r, T
			if ev.Args[1].Kind != eng.KParam {
				bad = true
			}
			o := f.succeed(ev, "read", ev.St.Ghost["read"]+"r")
			o.Res[1] = e.Pure("outcome of Read", ev.Res[1])
			return []eng.Outcome{o}, true
		}
		if ev.Invoke && len(ev.Args) > 0 && f.same(ev.Args[0], f.reader) {
			c.Violate("unlimited:"+f.name, ev.Pos, "Read of the connection made by %s reads the input without the limit", f.name)
		}
		return nil, false
	}})
	_ = args
	for _, o := range outs {
		if o.St.Ghost["read"] != "r" {
			bad = true
		}
	}
	if f.lim == nil || f.limT == nil || bad {
		c.Violate("limited:"+f.name, token.NoPos, "Read of the connection made by %s does not read through a single io.LimitedReader", f.name)
		f.lim = nil
		return
	}
	str := f.limT.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == "R" {
			if r := e.Load(f.st, e.FieldAddr(f.lim, f.limT, i), str.Field(i).Type()); !f.same(r, f.reader) {
				c.Violate("stream:"+f.name, token.NoPos, "the limited reader of the connection made by %s does not read the input", f.name)
			}
		}
	}
	c.Count("connections", 1)
}

func (f *framed) readModel(ev *eng.CallEvent, m string, header bool, nAddr, left *eng.Term) ([]eng.Outcome, bool) {
	c, e, st := f.c, f.e, ev.St
	bad := func(key, format string) {
		c.Violate(key+":"+f.name, ev.Pos, "codec made by %s: "+format, f.name)
	}
	T := types.Typ[types.Int64]
	n := func() *eng.Term { return e.Load(st, nAddr, T) }
	src := func(i int) string {
		if len(ev.Args) <= i {
			return ""
		}
		if f.same(ev.Args[i], f.reader) {
			return "raw"
		}
		a := ev.Args[i]
		if a.Kind == eng.KIface {
			a = a.Args[0]
		}
		if a.Typ != nil && a.Kind != eng.KNil && eng.Root(a) == eng.Root(f.lim) {
			return "limited"
		}
		return ""
	}
	isZero := func(t *eng.Term) bool { return e.LE(st, t, e.Int(0), 0) }
	// skip handles reading of the rest of a frame
	skip := func(how string) ([]eng.Outcome, bool) {
		if !header {
			bad("body", "the rest of a frame is skipped while its body has to be read")
		}
		if st.Ghost["hdr"] != "" {
			bad("skip", "bytes of the current frame are skipped")
		}
		c.Count("skips", 1)
		a, b := f.succeed(ev, "skipped", "yes"), f.fail(ev, "skipped", "failed")
		for _, o := range []eng.Outcome{a, b} {
			t := e.Pure("left after "+ev.SiteID, T)
			e.StoreQuiet(o.St, nAddr, t, T)
			e.Assume(o.St, e.Less(t, e.Int(0)), false)
		}
		if how == "all" {
			e.StoreQuiet(a.St, nAddr, e.Const(constant.MakeInt64(0), T), T)
		}
		return []eng.Outcome{a, b}, true
	}
	// head handles reading of the 4 byte header
	head := func(from string, got func(st *eng.State)) ([]eng.Outcome, bool) {
		if !header {
			bad("body", "a header is read instead of a body")
		}
		if st.Ghost["hdr"] != "" {
			bad("twice", "header is read twice")
		}
		if !isZero(left) && st.Ghost["skipped"] != "yes" {
			bad("unread", "the header is read though bytes of the previous frame may be unread")
		}
		if from == "limited" {
			if !e.LE(st, e.Int(4), n(), 0) {
				bad("limit4", "the header is read with a limit that may be less than 4 bytes")
			}
		}
		c.Count("header reads", 1)
		a, b := f.succeed(ev, "hdr", "ok"), f.fail(ev, "hdr", "failed")
		for _, o := range []eng.Outcome{a, b} {
			if from == "limited" {
				t := e.Pure("limit after "+ev.SiteID, T)
				e.StoreQuiet(o.St, nAddr, t, T)
			}
		}
		got(a.St)
		return []eng.Outcome{a, b}, true
	}
	switch {
	case ev.Invoke && len(ev.Args) > 0 && f.same(ev.Args[0], f.inner):
		if !header {
			return nil, false
		}
		if !strings.HasSuffix(ev.Name, "."+m) {
			bad("inner", "header of a message is read by "+ev.Name)
			return nil, false
		}
		c.Count("decodings", 1)
		switch {
		case st.Ghost["hdr"] != "ok":
			bad("decode", "a message is decoded though its header was not read successfully")
		case !e.LE(st, f.announced, e.Int(1<<30), 0):
			bad("large", "a message is decoded though its size may exceed 1 GiB")
		case wide(n()) != f.announced && !(e.LE(st, n(), f.announced, 0) && e.LE(st, f.announced, n(), 0)):
			bad("limit", "a message is decoded with a limit that differs from the announced size")
		}
		return []eng.Outcome{f.succeed(ev, "dec", "ok"), f.fail(ev, "dec", "failed")}, true
	case ev.Name == "encoding/binary.Read" && src(0) != "":
		d := ev.Args[2]
		var p *eng.Term
		if d.Kind == eng.KIface {
			if pt, ok := d.Typ.Underlying().(*types.Pointer); ok && is32(pt.Elem()) {
				p = d.Args[0]
			}
		}
		if p == nil || !isU32(d.Typ) {
			bad("width", "the header is not read as a 4 byte unsigned number")
		}
		if !f.nativeOrder(ev.Args[1]) && !f.nativeOrder(strip(ev.Args[1])) {
			bad("order4", "the header is not read in native byte order")
		}
		return head(src(0), func(st *eng.State) {
			if p != nil {
				e.StoreQuiet(st, p, f.announced, types.Typ[types.Uint32])
			}
		})
	case (ev.Name == "io.ReadFull" || ev.Name == "io.ReadAtLeast") && src(0) != "":
		if !f.exactLen(st, ev.Args[1], 4) {
			bad("width", "the header is not 4 bytes")
		}
		if ev.Name == "io.ReadAtLeast" && !(e.LE(st, e.Int(4), ev.Args[2], 0)) {
			bad("width", "less than 4 bytes of the header may be read")
		}
		return head(src(0), func(st *eng.State) { st.SetGhost(rootID(ev.Args[1]), "header") })
	case strings.HasSuffix(ev.Name, ".Uint32") && len(ev.Args) == 2:
		if st.Ghost[rootID(ev.Args[1])] == "header" && st.Ghost["hdr"] == "ok" {
			if !f.nativeOrder(ev.Args[0]) && !f.nativeOrder(strip(ev.Args[0])) {
				bad("order4", "the header is not read in native byte order")
			}
			return []eng.Outcome{{St: st, Res: []*eng.Term{f.announced}}}, true
		}
		return nil, false
	case (ev.Name == "io.Copy" || ev.Name == "io.CopyBuffer") && src(1) != "":
		if src(1) == "raw" {
			bad("all", "the whole input is skipped")
		}
		return skip("")
	case ev.Name == "io.CopyN" && src(1) != "":
		if wide(ev.Args[2]) != wide(n()) {
			bad("partial", "the skipped part may differ from the rest of the frame")
		}
		if src(1) == "raw" {
			return skip("")
		}
		return skip("all")
	case (ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll") && src(0) != "":
		if src(0) == "raw" {
			bad("all", "the whole input is skipped")
		}
		return skip("")
	}
	if ev.Callee != nil && len(ev.Callee.Blocks) > 0 && c.inModule(ev) {
		return nil, false
	}
	for i := range ev.Args {
		if s := src(i); s != "" && !(ev.Invoke && c.inModule(ev)) {
			bad("other", "the input is read by "+ev.Name)
		}
	}
	return nil, false
}

func isU32(T types.Type) bool {
	p, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// strip removes conversions to interfaces.
func strip(t *eng.Term) *eng.Term {
	if t.Kind == eng.KIface {
		return t.Args[0]
	}
	return t
}
