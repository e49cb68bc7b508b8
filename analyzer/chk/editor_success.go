package chk

import (
	"go/token"
	"go/types"
	"strings"

	"burlcheck/eng"
)

// commandOf describes the command a value of type *exec.Cmd stands for.
func (s *Server) commandOf(st *eng.State, recv, q *eng.Term) *command {
	var res *command
	for _, o := range s.E.Origins(recv) {
		if o.Kind != eng.KCall {
			return nil
		}
		i, ok := execMake[o.CalleeName()]
		if !ok || len(o.Args) <= i {
			return nil
		}
		c := &command{prog: o.Args[i], pos: o.Pos}
		if len(o.Args) > i+1 {
			c.list = o.Args[i+1]
			el, _ := s.E.Elems(st, c.list)
			for _, x := range el {
				c.args = append(c.args, s.classify(st, x, q))
			}
		}
		if res != nil && res.kindKey() != c.kindKey() {
			return nil
		}
		res = c
	}
	return res
}

// role of an editor command: check, prepare, uri, file, other.
func (c *command) role() string {
	if ok, lisp := c.eval(); ok {
		if strings.Contains(lisp, "org-protocol") && (strings.Contains(lisp, "features") || strings.Contains(lisp, "featurep")) {
			return "check"
		}
		return "prepare"
	}
	switch {
	case c.has(argURI):
		return "uri"
	case c.has(argFile):
		return "file"
	}
	return "other"
}

// confirms tells whether the state knows that output starts with the reply expected from the editor.
func (s *Server) confirms(st *eng.State, out *eng.Term) bool {
	e := s.E
	isConst := func(t *eng.Term) bool {
		for t.Kind == eng.KConv && len(t.Args) == 1 {
			t = t.Args[0]
		}
		c, ok := eng.ConstStr(t)
		return ok && strings.HasPrefix(strings.TrimSpace(c), "org-protocol")
	}
	ofOut := func(t *eng.Term) bool {
		return e.Reaches(nil, t, func(x *eng.Term) bool { return x == out })
	}
	for _, f := range e.Facts(st) {
		if !f.Val {
			continue
		}
		t := f.T
		switch {
		case t.Kind == eng.KCall && len(t.Args) == 2:
			switch t.CalleeName() {
			case "bytes.HasPrefix", "strings.HasPrefix", "bytes.Equal", "bytes.EqualFold":
				if ofOut(t.Args[0]) && isConst(t.Args[1]) || t.CalleeName() == "bytes.Equal" && ofOut(t.Args[1]) && isConst(t.Args[0]) {
					return true
				}
			}
		case t.Kind == eng.KBin && t.Op == token.EQL:
			a, b := t.Args[0], t.Args[1]
			if isConst(b) && ofOut(a) || isConst(a) && ofOut(b) {
				return true
			}
			// bytes.Index(out, ...) == 0
			if n, ok := eng.ConstInt(b); ok && n == 0 && a.Kind == eng.KCall && (a.CalleeName() == "bytes.Index" || a.CalleeName() == "strings.Index") && ofOut(a.Args[0]) && isConst(a.Args[1]) {
				return true
			}
		}
	}
	return false
}

// outputOf gives an object that receives the output of a command, the command if its pipe may be read.
func (s *Server) outputOf(st *eng.State, cmd *eng.Term) *eng.Term {
	str, ok := derefStruct(cmd.Typ)
	for i := 0; ok && i < str.NumFields(); i++ {
		if str.Field(i).Name() != "Stdout" {
			continue
		}
		v := unIface(s.E.Load(st, s.E.FieldAddr(cmd, cmd.Typ.Underlying().(*types.Pointer).Elem(), i), str.Field(i).Type()))
		if v.Typ != nil {
			switch v.Typ.String() {
			case "*bytes.Buffer", "*strings.Builder":
				return v
			}
		}
	}
	return cmd
}

func ruleC08(c *Ctx) {
	c.Rule = "Typestate of editor commands along all paths of the handlers of capture and visit (abstract interpretation over go/ssa with ghost state): the error of every command that was run is tracked; the URI or file command may be run only after a frame command, with all tracked errors known to be nil, for capture after the output of the org-protocol feature check is known to start with org-protocol, and only if the request carries no client side error; a nil result of the handler requires that this command was the last one, that every tracked error is nil and that the reply holds success; a nil result without any command is accepted only for a capture with a client side error and a preview reply."
	s := c.Server()
	if s == nil {
		return
	}
	cap, cfn := s.handlerOf("linkremark.capture", "capture", "burl.capture")
	vis, vfn := s.handlerOf("linkremark.visit", "burl.visit")
	if cfn == nil || vfn == nil {
		c.Missing("handlers of capture and visit")
		return
	}
	s.commandStates(cap, true)
	s.commandStates(vis, false)
	c.Need("command runs", 5)
	c.Need("successful outcomes", 2)
	c.Need("preview outcomes", 1)
	c.Assume = append(c.Assume, "exec.Cmd.Run, Output and CombinedOutput return nil only if the process was started and exited with status 0")
}

func (s *Server) commandStates(name string, capture bool) {
	c, e := s.c, s.E
	q := s.query(name)
	noError := func(st *eng.State) bool { // the request carries no client side error
		for _, t := range s.loads(st, q, "error") {
			if n, k := e.IsNil(st, t); k && n {
				return true
			}
		}
		return false
	}
	pendingErrors := func(st *eng.State) []*eng.Term {
		var l []*eng.Term
		for k, t := range st.Track {
			if !strings.HasPrefix(k, "err") {
				continue
			}
			if n, known := e.IsNil(st, t); !known || !n {
				l = append(l, t)
			}
		}
		return l
	}
	ran := func(ev *eng.CallEvent, st *eng.State, err, out *eng.Term) {
		cmd := s.commandOf(st, ev.Args[0], q)
		if cmd == nil {
			c.Violate("unknown-command:"+relName(c.P, ev.Fn), ev.Pos, "%s runs a command that can not be identified", name)
			return
		}
		c.Count("command runs", 1)
		role := cmd.role()
		key := name + ":" + role
		if st.Ghost["main"] != "" && role != st.Ghost["main"] {
			c.Violate("order:"+key, ev.Pos, "%s runs a preparatory editor command (%s) after the %s was sent", name, cmd.describe(), st.Ghost["main"])
		}
		if capture && !noError(st) {
			c.Violate("client-error:"+key, ev.Pos, "%s runs an editor command although the request may carry a client side error", name)
		}
		// err was not tested yet, check errors of earlier commands
		if role == "uri" || role == "file" {
			for range pendingErrors(st) {
				c.Violate("unchecked-error:"+key, ev.Pos, "%s is sent to the editor although a previous editor command may have failed", role)
			}
			if st.Ghost["prep"] == "" {
				c.Violate("no-frame:"+key, ev.Pos, "%s is sent to the editor without preparing a frame", role)
			}
			if capture {
				out := st.Track["out"]
				if out == nil || !s.confirms(st, out) {
					c.Violate("unconfirmed:"+key, ev.Pos, "URI is sent to the editor on a path where it has not confirmed that org-protocol is loaded")
				}
			}
			if capture != (role == "uri") {
				c.Violate("wrong-command:"+key, ev.Pos, "%s sends %s to the editor", name, role)
			}
			want := map[string]string{"uri": "data.url", "file": "file"}[role]
			for _, a := range cmd.args {
				if a.kind != argURI && a.kind != argFile {
					continue
				}
				for _, o := range e.Origins(a.t) {
					if p, ok := s.jsonPath(o, q); !(ok && p == want) && !(a.kind == argFile && s.nameOf(st, o, q)) {
						c.Violate("other-argument:"+key, ev.Pos, "%s sends %v to the editor instead of member %s of the request", name, a.t, want)
					}
				}
			}
			st.SetGhost("main", role)
		}
		if role == "prepare" {
			st.SetGhost("prep", "1")
		}
		if role == "check" {
			if out == nil {
				// is written to a buffer or is read from a pipe
				out = s.outputOf(st, ev.Args[0])
			}
			st.Track["out"] = out
		}
		st.Track["err"+ev.SiteID] = err
	}
	outs := s.Run(name, &eng.Hooks{
		Boundary: s.execOnly(),
		OnCall: func(ev *eng.CallEvent) {
			if rawExec(ev) {
				c.Violate("raw-exec:"+relName(c.P, ev.Fn), ev.Pos, "%s starts a process through %s", name, ev.Name)
			}
		},
		LostTrack: func(st *eng.State, key string, t *eng.Term, isNil, known bool) {
			if strings.HasPrefix(key, "err") && !(known && isNil) {
				st.SetGhost("lost", "1")
			}
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			switch {
			case execRun[ev.Name]:
				var out *eng.Term
				if len(res) > 1 {
					out = res[0]
				}
				ran(ev, st, res[len(res)-1], out)
			case execStart[ev.Name]:
				st.SetGhost("pending", "1")
				ran(ev, st, res[0], nil)
			case execWait[ev.Name]:
				st.SetGhost("pending", "")
				st.Track["err"+ev.SiteID] = res[0]
			}
		},
	})
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		if n, k := e.IsNil(st, o.Res[0]); k && !n {
			c.Count("failed outcomes", 1)
			continue
		} else if !k {
			st = st.Clone()
			if !e.Assume(st, e.Eq(o.Res[0], e.Nil()), true) {
				continue
			}
		}
		pos := token.NoPos
		if o.Ret != nil {
			pos = o.Ret.Pos()
		}
		member := func(path string) *eng.Term {
			for _, t := range s.loads(st, o.Reply, path) {
				return t
			}
			return nil
		}
		isBool := func(t *eng.Term, want bool) bool {
			if t == nil {
				return false
			}
			v, k := e.Truth(st, t)
			return k && v == want
		}
		isStr := func(t *eng.Term, want string) bool {
			v, ok := eng.ConstStr(t)
			return t != nil && ok && v == want
		}
		if capture && st.Ghost["main"] == "" && len(st.Track) == 0 {
			c.Count("preview outcomes", 1)
			clientErr := false
			for _, t := range s.loads(st, q, "error") {
				if n, k := e.IsNil(st, t); k && !n {
					clientErr = true
				}
			}
			if !clientErr {
				c.Violate("success-without-command:"+name, pos, "%s succeeds without running the editor on a path where the request carries no client side error", name)
			}
			if !isBool(member("preview"), true) || !isStr(member("status"), "preview") {
				c.Violate("preview-reply:"+name, pos, "a capture with a client side error is not answered with the preview status")
			}
			continue
		}
		c.Count("successful outcomes", 1)
		if st.Ghost["main"] == "" {
			c.Violate("success-without-command:"+name, pos, "%s succeeds on a path where the editor was not run with the requested URI or file", name)
		}
		if st.Ghost["pending"] != "" {
			c.Violate("not-waited:"+name, pos, "%s succeeds without waiting for the editor command", name)
		}
		if st.Ghost["lost"] != "" || len(pendingErrors(st)) > 0 {
			c.Violate("ignored-error:"+name, pos, "%s succeeds on a path where an editor command may have failed", name)
		}
		if capture {
			if !isBool(member("preview"), false) || !isStr(member("status"), "success") {
				c.Violate("success-reply:"+name, pos, "a performed capture is not answered with the status success")
			}
		} else {
			v := e.Load(st, o.Reply, derefT(o.Reply.Typ))
			if !isBool(v, true) {
				c.Violate("success-reply:"+name, pos, "a performed visit is not answered with true")
			}
		}
	}
}
