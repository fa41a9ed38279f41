package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Path-sensitive analysis of the accept loop and the connection goroutine, with the pipeline answering every modelled sequence of results: registration before serving, closing and forgetting on fatal results and panics, surviving the others; value-flow of the session lookup used for sending.", 30, checkC17)
	register("C26", "Path-sensitive analysis of both pipelines over all success/failure combinations of their stages: stage order, the value each stage receives, and that nothing is encoded or sent without a reply.", 20, checkC26)
	register("C16", "Unwinding analysis: every goroutine started by the program recovers a panic of its work, the supervision job cannot panic on any modelled path, the HTTP router installs recovery; call-graph search for process-ending calls reachable from message handling, supervision and HTTP handlers.", 12, checkC16)
}

// acceptSeq analyses the accept loop with the listener answering in sequence;
// each answer is nil (a connection) or an error.
func (c *Check) acceptSeq(answers []*Term) (outs []Out, where string, conns []*Term) {
	e := c.e
	f := e.needMethod(pServ, "TCPServer", "Start")
	st := e.newState()
	serv := Sym("serv", f.Params[0].Type())
	e.nonNil(st, serv)
	connT := types.Type(nil)
	for i := range answers {
		cn := Sym(fmt.Sprintf("accepted%d", i), connT)
		e.nonNil(st, cn)
		conns = append(conns, cn)
	}
	e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if !strings.HasSuffix(nm, "Listener).Accept") && !strings.HasSuffix(nm, "TCPListener).AcceptTCP") {
			return nil, false
		}
		n := 0
		for _, ev := range stages(st) {
			if ev.Name == "Accept" {
				n++
			}
		}
		if n >= len(answers) {
			return []callRes{{st: st, kind: outExit, why: "accept again"}}, true
		}
		st.emit(&Event{Kind: stageKind, Name: "Accept", Pos: ci.Pos()})
		if answers[n] != nil {
			return []callRes{{st: st, val: Tuple(Nil, answers[n])}}, true
		}
		return []callRes{{st: st, val: Tuple(conns[n], Nil)}}, true
	}
	e.forceUnroll = len(answers) + 2
	outs = c.run(st, f, serv)
	e.forceUnroll = 0
	e.callHook = nil
	return outs, c.fnAt(f), conns
}

// seqLenFor is how many results in a row the server loops are analysed over:
// beyond every small constant they compare with.
func (c *Check) seqLenFor() int {
	n := 12
	var fns []*ssa.Function
	for f := range c.e.allFns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+pServ {
			fns = append(fns, f)
		}
	}
	for _, k := range c.mined(2, 1100, fns...) {
		n = max(n, k+3)
	}
	return n
}

func count(st *State, kind, name string) (n int) {
	for _, ev := range st.events {
		if ev.Kind == kind && (name == "" || ev.Name == name) {
			n++
		}
	}
	return
}

// serveSeq: the pipeline answers in sequence; nil entries are success.
func (c *Check) serveSeq(r connRun, answers []*Term, panics int) []callRes {
	e := c.e
	e.forceUnroll = len(answers) + 3
	defer func() { e.forceUnroll = 0 }()
	return c.serveOuts(r, func(st *State) []callRes {
		n := 0
		for _, ev := range stages(st) {
			if ev.Name == "ProcessConnRead" {
				n++
			}
		}
		if n == panics {
			return []callRes{{st: st, kind: outPanic, why: "panic while handling a message"}}
		}
		if n >= len(answers) {
			return []callRes{{st: st, kind: outExit, why: "reads again"}}
		}
		v := Nil
		if answers[n] != nil {
			v = answers[n]
		}
		return []callRes{{st: st, val: v}}
	})
}

var (
	errEOF     = ErrSentinel("io", "EOF")
	errClosedP = ErrSentinel("io", "ErrClosedPipe")
	errNetCl   = ErrSentinel("net", "ErrClosed")
)

func checkC17(c *Check) {
	c.noCapturedRace("own-session", inPkgs("internal/server"))
	c.noReadDeadline("internal/server", "internal/protocol", "internal/protocol/model", "internal/storage")
	where := "internal/server/tcp_server.go"
	// registration before serving
	c.guard("registered", "accept", where, func() {
		reg := c.registries()
		outs, w, conns := c.acceptSeq([]*Term{nil, errNetCl})
		n := 0
		for _, o := range outs {
			goes := 0
			var key, rec *Term
			for _, ev := range o.st.events {
				if ev.Kind == "mapset" && ev.Args[0] == reg.sess {
					key, rec = ev.Args[1], ev.Args[2]
				}
				if ev.Kind == "go" {
					goes++
					c.must(rec != nil, "registered", "before serving", c.at(ev.Pos), "the connection is served before its session is registered")
				}
			}
			n++
			c.must(goes == 1, "registered", "one goroutine", w, "%d goroutines are started for one connection", goes)
			if rec != nil {
				c.must(sameTerm(o.st, o.st.get(rec, reg.sessT, "Conn"), conns[0]), "registered", "conn", w, "the session holds connection %s, not the accepted one", o.st.get(rec, reg.sessT, "Conn"))
				id := o.st.get(rec, reg.sessT, "ID")
				c.must(sameTerm(o.st, id, key), "registered", "key", w, "the session is registered under %s but its id is %s", key, id)
				addr := func(t *Term) bool { return t.K == KCall && strings.HasSuffix(t.S, ".RemoteAddr") && t.A[0] == conns[0] }
				c.must(id.K == KCall && strings.HasSuffix(id.S, ".String") && addr(id.A[0]), "registered", "id", w, "the session id %s is not the remote address", id)
			}
		}
		c.must(n > 0, "registered", "accept", w, "accept loop has no outcome")
	})
	// accept errors
	other := ErrSentinel("x", "temporary")
	long := 12
	c.guard("accept-errors", "lengths", where, func() { long = c.seqLenFor() })
	fill := func(n int, vs ...*Term) (out []*Term) {
		for len(out) < n {
			out = append(out, vs...)
		}
		return
	}
	for _, v := range []struct {
		inst  string
		ans   []*Term
		calls int
		gos   int
	}{
		{"many errors", append(fill(long, other), nil, errNetCl), long + 2, 1},
		{"many connections", append(fill(long, nil), errNetCl), long + 1, long},
		{"listener closed", []*Term{errNetCl}, 1, 0},
		{"temporary error", []*Term{other, errNetCl}, 2, 0},
		{"error between connections", []*Term{nil, other, nil, errNetCl}, 4, 2},
	} {
		c.guard("accept-errors", v.inst, where, func() {
			reg := c.registries()
			outs, w, _ := c.acceptSeq(v.ans)
			c.must(len(outs) > 0, "accept-errors", v.inst, w, "no outcome")
			for _, o := range outs {
				c.must(o.kind == outRet, "accept-errors", v.inst, w, "the accept loop does not end when the listener is closed: %s", o.why)
				c.must(count(o.st, stageKind, "Accept") == v.calls, "accept-errors", v.inst, w, "accept is called %d times, expected %d", count(o.st, stageKind, "Accept"), v.calls)
				g, s := 0, 0
				for _, ev := range o.st.events {
					if ev.Kind == "go" {
						g++
					}
					if ev.Kind == "mapset" && ev.Args[0] == reg.sess {
						s++
					}
				}
				c.must(g == v.gos && s == v.gos, "accept-errors", v.inst, w, "%d sessions and %d goroutines for %d connections", s, g, v.gos)
			}
		})
	}
	c.serveClosesOn("closes", [][2]string{{"io", "EOF"}, {"io", "ErrClosedPipe"}, {"net", "ErrClosed"}, {modPath + "/" + pStore, "ErrDeviceNotFound"}})
	// everything else leaves the connection open, without touching it
	keep := map[string]*Term{"success": nil, "unknown error": ErrSentinel("x", "other")}
	var names []string
	for _, er := range c.knownErrors() {
		if er == nil || er.K == KWrap || !strings.Contains(er.S, modPath) || strings.HasSuffix(er.S, ".ErrDeviceNotFound") || strings.HasSuffix(er.S, ".ErrActiveClose") || strings.HasSuffix(er.S, ".ErrSessionClosed") {
			continue // the last two do not come from handling a message on the server
		}
		keep[er.S[strings.LastIndex(er.S, "/")+1:]] = er
	}
	for _, n := range []string{"ErrVerifyFailed", "ErrEmptyPacket", "ErrMsgIDNotSupportted", "ErrDecodeMsg"} {
		if c.e.byPath[modPath+"/"+pProto] == nil || keep["protocol."+n] == nil && keep["model."+n] == nil {
			c.fail("survives", n, where, "the error %s no longer exists", n)
		}
	}
	for k := range keep {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		er := keep[n]
		seqs := map[string][]*Term{"": {er, er}}
		if er != nil {
			w := mk(Term{K: KWrap, A: []*Term{er, StrC("context")}})
			seqs[" wrapped"] = []*Term{w, w}
		}
		if n == "success" || n == "unknown error" {
			seqs[" many times"] = fill(long, er)
		}
		if n == "unknown error" {
			seqs[" now and then"] = fill(long, er, nil)
			seqs[" rarely"] = fill(long, er, nil, nil, nil, nil)
		}
		for _, tag := range []string{"", " wrapped", " many times", " now and then", " rarely"} {
			seq, ok := seqs[tag]
			if !ok {
				continue
			}
			inst := n + tag
			total := len(seq) + 1
			c.guard("survives", inst, where, func() {
				reg := c.registries()
				for _, r := range c.connRuns(reg.sess) {
					outs := c.serveSeq(r, append(append([]*Term(nil), seq...), errEOF), -1)
					c.must(len(outs) > 0, "survives", inst, r.pos, "no outcome")
					for _, o := range outs {
						reads, early := 0, false
						for _, ev := range o.st.events {
							if ev.Kind == stageKind && ev.Name == "ProcessConnRead" {
								reads++
							}
							if reads < total && (ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Close") || ev.Kind == "mapdel" && ev.Args[0] == reg.sess) {
								early = true
							}
						}
						c.must(reads == total, "survives", inst, r.pos, "with these results the connection is read %d times, expected %d", reads, total)
						c.must(!early, "survives", inst, r.pos, "after this result the connection is closed or forgotten while still served")
						cl, rm := c.closedAndForgotten(o.st, reg.sess, r)
						c.must(cl && rm, "survives", inst, r.pos, "at end of stream the connection is not closed or forgotten")
						for _, ev := range callsNamed(o.st, "time.Sleep") {
							d, ok := o.st.constOf(ev.Args[0])
							c.must(ok && d <= 10_000_000_000, "survives", "pause", c.at(ev.Pos), "the connection pauses for %s", ev.Args[0])
						}
					}
				}
			})
		}
	}
	// a panic while handling
	for k, ans := range [][]*Term{{}, {nil, nil}} {
		inst := fmt.Sprintf("panic after %d messages", k*2)
		c.guard("closes", inst, where, func() {
			reg := c.registries()
			for _, r := range c.connRuns(reg.sess) {
				outs := c.serveSeq(r, ans, len(ans))
				c.must(len(outs) > 0, "closes", inst, r.pos, "no outcome")
				for _, o := range outs {
					cl, rm := c.closedAndForgotten(o.st, reg.sess, r)
					c.must(cl, "closes", inst, r.pos, "a panic while handling a message leaves the connection open")
					c.must(rm, "closes", inst, r.pos, "a panic while handling a message leaves the session registered")
				}
			}
		})
	}
	// a newer session of the same address survives the end of the older one
	newer := func(st *State, reg *registries, id *Term) (*State, *Term) {
		s2 := Sym("newer", ptrTo(reg.sessT))
		c.e.nonNil(st, s2)
		st.set(s2, reg.sessT, "ID", id)
		for _, o := range c.run(st, c.e.needFn(pStore, "StoreSession"), s2) {
			if o.kind == outRet {
				return o.st, s2
			}
		}
		giveUp("a session cannot be stored")
		return nil, nil
	}
	kept := func(inst string, st *State, id, s2 *Term, pos string) {
		for _, g := range c.run(st, c.e.needFn(pStore, "GetSession"), id) {
			c.must(g.kind == outRet && isNil(g.vals[1]) && g.vals[0] == s2, "own-session", inst, pos, "ending a connection removes the session of a newer connection from the same address")
		}
	}
	for _, v := range []struct {
		inst   string
		ans    []*Term
		panics int
	}{{"end of stream", []*Term{nil, errEOF}, -1}, {"closed", []*Term{errNetCl}, -1}, {"panic", []*Term{nil}, 1}} {
		c.guard("own-session", v.inst, where, func() {
			reg := c.registries()
			for _, r := range c.connRuns(reg.sess) {
				st, s2 := newer(r.st.clone(), reg, r.sess)
				st.assume(Not(EqOther(r.rec, s2)))
				id := r.sess
				r.st = st
				outs := c.serveSeq(r, v.ans, v.panics)
				c.must(len(outs) > 0, "own-session", v.inst, r.pos, "no outcome")
				for _, o := range outs {
					cl, _ := c.closedAndForgotten(o.st, reg.sess, r)
					c.must(cl, "own-session", v.inst+" closes", r.pos, "the connection is not closed")
					kept(v.inst, o.st, id, s2, r.pos)
				}
			}
		})
	}
	// finding out whose session it is and removing it is one step for those
	// who register sessions
	c.guard("own-session", "one step", where, func() {
		reg := c.registries()
		has := func(ls []*Term, l *Term) bool {
			for _, x := range ls {
				if x == l {
					return true
				}
			}
			return false
		}
		n := 0
		for _, r := range c.connRuns(reg.sess) {
			var store *Event
			for _, ev := range r.st.events {
				if ev.Kind == "mapset" && ev.Args[0] == reg.sess {
					store = ev
				}
			}
			for _, o := range c.serveSeq(r, []*Term{errEOF}, -1) {
				var get *Event
				var since []*Term // locks taken since the lookup
				for _, ev := range o.st.events {
					switch {
					case ev.Kind == "mapget" && ev.Args[0] == reg.sess:
						get, since = ev, nil
					case ev.Kind == "lock":
						since = append(since, ev.Args[0])
					case ev.Kind == "mapdel" && ev.Args[0] == reg.sess:
						n++
						ok := false
						if get != nil {
							for _, l := range ev.Locks {
								if has(get.Locks, l) && has(store.Locks, l) && !has(since, l) {
									ok = true
								}
							}
						}
						c.must(ok, "own-session", "one step", c.at(ev.Pos), "between looking the session up and removing it another connection can register its own under the same id")
					}
				}
			}
		}
		c.must(n > 0, "own-session", "one step", where, "no session is removed")
	})
	// session registry
	c.guard("session-registry", "store get clear", "internal/storage/session_cache.go", func() {
		e := c.e
		reg := c.registries()
		st := e.newState()
		s := Sym("sess", ptrTo(reg.sessT))
		e.nonNil(st, s)
		id := st.get(s, reg.sessT, "ID")
		w := c.fnAt(e.needFn(pStore, "GetSession"))
		for _, o := range c.run(st, e.needFn(pStore, "StoreSession"), s) {
			for _, g := range c.run(o.st.clone(), e.needFn(pStore, "GetSession"), id) {
				c.must(g.kind == outRet && isNil(g.vals[1]) && g.vals[0] == s, "session-registry", "get after store", w, "a stored session is not returned by its id")
			}
			id2 := Sym("otherid", types.Typ[types.String])
			s2 := o.st.clone()
			s2.assume(Not(eqStr(id, id2, s2)))
			other := Sym("othersess", ptrTo(reg.sessT))
			e.nonNil(s2, other)
			s2.set(other, reg.sessT, "ID", id2)
			clear := e.needFn(pStore, "ClearSession")
			// cleared by id, or by the session itself
			clearArgs := func(id, s *Term) (as []*Term) {
				for _, p := range clear.Params {
					if isStringType(p.Type()) {
						as = append(as, id)
					} else {
						as = append(as, s)
					}
				}
				return as
			}
			for _, x := range c.run(s2, clear, clearArgs(id2, other)...) {
				for _, g := range c.run(x.st, e.needFn(pStore, "GetSession"), id) {
					c.must(g.kind == outRet && isNil(g.vals[1]) && g.vals[0] == s, "session-registry", "other cleared", w, "clearing one session loses another")
				}
			}
			for _, x := range c.run(o.st.clone(), clear, clearArgs(id, s)...) {
				for _, g := range c.run(x.st, e.needFn(pStore, "GetSession"), id) {
					c.must(g.kind == outRet && c.errIs(g.st, g.vals[1], pStore, "ErrSessionClosed"), "session-registry", "get after clear", w, "a cleared session is still returned, or without the session-closed error")
				}
			}
		}
	})
	c.checkServerSend(true)
	c.guard("own-session", "send", where, func() {
		e := c.e
		reg := c.registries()
		c.assumeIndexInvariant(reg)
		f := e.needMethod(pServ, "TCPServer", "Send")
		st := e.newState()
		serv := Sym("serv", f.Params[0].Type())
		e.nonNil(st, serv)
		id := Sym("id", types.Typ[types.String])
		msg := Sym("msg", f.Params[2].Type())
		e.nonNil(st, msg)
		rec := mk(Term{K: KGet, A: []*Term{reg.sess, id, Int(0)}, T: ptrTo(reg.sessT)})
		var s2 *Term
		e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			switch {
			case nm == modPath+"/"+pProto+".NewPipeline":
				pg := e.fresh("pipeline", nil, args[0])
				e.nonNil(st, pg)
				return []callRes{{st: st, val: pg}}, true
			case nm == "(*"+modPath+"/"+pProto+".Pipeline).ProcessConnWrite":
				var x *State
				x, s2 = newer(st, reg, id)
				x.assume(Not(EqOther(rec, s2)))
				return []callRes{{st: x, val: errNetCl}}, true
			}
			return nil, false
		}
		outs := c.run(st, f, serv, id, msg)
		e.callHook = nil
		n := 0
		for _, o := range outs {
			if s2 == nil || o.kind != outRet || o.st.decide(mk(Term{K: KHas, A: []*Term{reg.sess, id, Int(0)}})) != 1 {
				continue
			}
			n++
			kept("send", o.st, id, s2, c.fnAt(f))
		}
		c.must(n > 0, "own-session", "send", c.fnAt(f), "no outcome")
	})
}

// writePipeline: a message handed to the write pipeline is encoded and sent
// once, and what goes wrong is reported.
func (c *Check) writePipeline() {
	e := c.e
	c.guard("stages", "write", "internal/protocol/pipeline.go", func() {
		outs, _, _, reply, w := c.runPipeline("ProcessConnWrite", false)
		sent := 0
		for _, o := range outs {
			sg := stages(o.st)
			if !c.must(o.kind == outRet && len(sg) > 0, "stages", "write", w, "the write pipeline does nothing or ends by %s", o.why) {
				continue
			}
			c.must(sg[0].Name == "Encode", "write-order", "encode", w, "the write pipeline starts with %s", sg[0].Name)
			got := sg[0].Args[1]
			if got.K == KIface {
				got = got.A[0]
			}
			c.must(got == reply || sg[0].Args[1] == reply, "write-flow", "message to encode", w, "the encoder gets %s, not the message", sg[0].Args[1])
			fail := !isNil(sg[0].Res.A[1])
			if fail {
				c.must(len(sg) == 1, "write-order", "stop", w, "after encoding fails the write pipeline goes on")
				c.must(o.st.decide(e.errIs(o.st, o.vals[0], rootErr(sg[0].Res.A[1]))) == 1, "write-error", "encode", w, "the encoding error is not reported")
				continue
			}
			if !c.must(len(sg) == 2 && sg[1].Name == "Send", "write-order", "send", w, "the write pipeline does not send the encoded message exactly once") {
				continue
			}
			c.must(sameTerm(o.st, sg[1].Args[1], sg[0].Res.A[0]), "write-flow", "bytes to send", w, "the sender gets %s, not the encoded message", sg[1].Args[1])
			if isNil(sg[1].Res.A[1]) {
				sent++
				c.must(isNil(o.vals[0]), "write-error", "success", w, "a successful write returns %s", o.vals[0])
			} else {
				c.must(o.st.decide(e.errIs(o.st, o.vals[0], rootErr(sg[1].Res.A[1]))) == 1, "write-error", "send", w, "the send error is not reported")
			}
		}
		c.must(sent > 0, "stages", "write", w, "no outcome sends the message")
	})
}

// checkServerSend analyses Send with the write pipeline answering as given.
func (c *Check) checkServerSend(closing bool) {
	e := c.e
	name := "(*" + modPath + "/" + pProto + ".Pipeline).ProcessConnWrite"
	pdT := e.needTyp(pModel, "ProcessData")
	type sendCase struct {
		inst   string
		er     *Term
		remove bool
		either bool // whether the connection is still usable is not said
	}
	cases := []sendCase{
		{"sent", Nil, false, false},
		{"pipe closed", mk(Term{K: KWrap, A: []*Term{errClosedP, StrC("c")}}), true, false},
		{"connection closed", mk(Term{K: KWrap, A: []*Term{errNetCl, StrC("c")}}), true, false},
		{"other error", ErrSentinel("x", "other"), false, false},
	}
	for _, er := range c.knownErrors() {
		if er == nil || er.K == KWrap {
			continue
		}
		if !strings.Contains(er.S, modPath) {
			if er != errClosedP && er != errNetCl {
				cases = append(cases, sendCase{er.S, mk(Term{K: KWrap, A: []*Term{er, StrC("c")}}), false, true})
			}
			continue
		}
		if strings.HasSuffix(er.S, ".ErrSessionClosed") || strings.HasSuffix(er.S, ".ErrActiveClose") {
			continue // closing is what they mean
		}
		cases = append(cases, sendCase{er.S[strings.LastIndex(er.S, "/")+1:], er, false, false})
	}
	for _, v := range cases {
		c.guard("send", v.inst, "internal/server/tcp_server.go", func() {
			reg := c.registries()
			c.assumeIndexInvariant(reg)
			f := e.needMethod(pServ, "TCPServer", "Send")
			st := e.newState()
			serv := Sym("serv", f.Params[0].Type())
			e.nonNil(st, serv)
			id := Sym("id", types.Typ[types.String])
			msg := Sym("msg", f.Params[2].Type())
			e.nonNil(st, msg)
			var pgConn *Term
			e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				switch {
				case nm == modPath+"/"+pProto+".NewPipeline":
					pg := e.fresh("pipeline", nil, args[0])
					e.nonNil(st, pg)
					pgConn = args[0]
					return []callRes{{st: st, val: pg}}, true
				case nm == name:
					st.emit(&Event{Kind: stageKind, Name: "ProcessConnWrite", Args: args, Pos: ci.Pos()})
					return []callRes{{st: st, val: v.er}}, true
				}
				return nil, false
			}
			outs := c.run(st, f, serv, id, msg)
			e.callHook = nil
			has := mk(Term{K: KHas, A: []*Term{reg.sess, id, Int(0)}})
			w := c.fnAt(f)
			open, gone := 0, 0
			for _, o := range outs {
				if !c.must(o.kind == outRet, "send", v.inst, w, "sending ends by %s at %s", o.why, c.at(o.pos)) {
					continue
				}
				sg := stages(o.st)
				switch o.st.decide(has) {
				case -1:
					gone++
					c.must(len(sg) == 0, "send", "unknown session", w, "a message to an unknown session is written somewhere")
				case 1:
					open++
					if !c.must(len(sg) == 1, "send", "known session", w, "a message is written %d times", len(sg)) {
						continue
					}
					rec := mk(Term{K: KGet, A: []*Term{reg.sess, id, Int(0)}, T: ptrTo(reg.sessT)})
					conn := o.st.get(rec, reg.sessT, "Conn")
					pg := sg[0].Args[0]
					c.must(occurs(pg, func(t *Term) bool { return t == conn }), "send", "connection", w, "the message is written to connection %s, not the session's", pgConn)
					val := ctxValue(sg[0].Args[1], c.e.needTyp(pModel, "ProcessDataCtxKey"))
					okm := false
					if val != nil && val.K == KIface {
						okm = sameTerm(o.st, o.st.get(val.A[0], pdT, "Outgoing"), msg)
					}
					c.must(okm, "send", "message", w, "the pipeline is given %s, not the message", val)
					if !closing {
						continue
					}
					closed, removed := false, false
					for _, ev := range o.st.events {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "(net.Conn).Close") && ev.Args[0] == conn {
							closed = true
						}
						if ev.Kind == "mapdel" && ev.Args[0] == reg.sess {
							removed = removed || sameTerm(o.st, ev.Args[1], id)
						}
					}
					if v.either {
						c.must(closed == removed, "send-closes", v.inst, w, "the connection is closed but its session stays registered, or the other way round")
					} else if v.remove {
						c.must(closed && removed, "send-closes", v.inst, w, "after the connection turned out closed the session stays registered")
					} else {
						c.must(!closed && !removed, "send-keeps", v.inst, w, "the session is closed although the connection is not")
					}
				default:
					c.fail("send", v.inst, w, "a message is sent without looking up the session")
				}
			}
			c.must(open > 0 && gone > 0, "send", v.inst, w, "no outcome for a known or an unknown session")
		})
	}
}

// ctxValue finds the value stored under a key type in a context chain.
func ctxValue(ctx *Term, key types.Type) *Term {
	for ctx != nil && ctx.K == KCtx && len(ctx.A) == 3 {
		k := ctx.A[1]
		if k.K == KIface && types.Identical(k.T, key) {
			return ctx.A[2]
		}
		ctx = ctx.A[0]
	}
	return nil
}

func checkC26(c *Check) {
	c.noSharedScratch("working-state", inPkgs(pProto))
	e := c.e
	pdT := e.needTyp(pModel, "ProcessData")
	sessKey := e.needTyp(pModel, "SessionCtxKey")
	c.pipelineStopsOnError("stops-on-error")
	c.guard("stages", "read", "internal/protocol/pipeline.go", func() {
		outs, _, sess, _, w := c.runPipeline("ProcessConnRead", true)
		order := []string{"Recv", "Decode", "Process", "Encode", "Send"}
		seen := map[string]int{}
		for _, o := range outs {
			sg := stages(o.st)
			if !c.must(o.kind == outRet, "stages", "read", w, "the pipeline ends by %s at %s", o.why, c.at(o.pos)) {
				continue
			}
			for i, s := range sg {
				if !c.must(i < len(order) && s.Name == order[i], "order", s.Name, w, "stage %d is %s", i, s.Name) {
					return
				}
			}
			if !c.must(len(sg) > 0, "stages", "read", w, "an outcome reaches no stage") {
				continue
			}
			last := sg[len(sg)-1]
			okAll := true
			for _, s := range sg {
				if !isNil(s.Res.A[1]) {
					okAll = false
				}
			}
			for i, s := range sg {
				args := s.Args
				switch s.Name {
				case "Recv":
					c.must(ctxSession(args[len(args)-1], sessKey) == sess, "flow", "session to receive", w, "the receive stage does not get the session")
				case "Decode":
					c.must(sameTerm(o.st, args[1], sg[0].Res.A[0]), "flow", "frame to decode", w, "the decoder gets %s, not the received frame", args[1])
				case "Process":
					c.must(args[2] == sg[1].Res.A[0], "flow", "packet to process", w, "the processor gets %s, not the decoded packet", args[2])
					c.must(ctxSession(args[1], sessKey) == sess, "flow", "session to process", w, "the processor does not get the session of the connection")
				case "Encode":
					d := sg[i-1].Res.A[0]
					var want *Term
					if !isNil(d) {
						want = o.st.get(d, pdT, "Outgoing")
					}
					got := args[1]
					if got.K == KIface {
						got = got.A[0]
					}
					c.must(want != nil && !isNil(want) && (args[1] == want || got == want), "flow", "reply to encode", w, "the encoder gets %s, not the reply", args[1])
				case "Send":
					c.must(sameTerm(o.st, args[1], sg[i-1].Res.A[0]), "flow", "bytes to send", w, "the sender gets %s, not the encoded reply", args[1])
				}
			}
			if !okAll {
				continue
			}
			c.must(isNil(o.vals[0]), "result", "success", w, "a pass without errors returns error %s", o.vals[0])
			switch last.Name {
			case "Process":
				d := last.Res.A[0]
				none := isNil(d) || isNil(o.st.get(d, pdT, "Outgoing"))
				c.must(none, "reply-sent", "reply", w, "a reply is produced but not encoded and sent")
				seen["no reply"]++
			case "Send":
				seen["reply"]++
			default:
				c.fail("stages", "read", w, "a pass ends after %s without an error", last.Name)
			}
		}
		c.must(seen["reply"] > 0, "stages", "with reply", w, "no outcome sends a reply")
		c.must(seen["no reply"] > 0, "stages", "without reply", w, "no outcome without a reply")
	})
	c.writePipeline()
	c.onePipeline()
}

// noReadDeadline: nothing sets a time after which reading a connection fails; a
// frame that arrives slowly would be cut off and its first bytes lost.
func (c *Check) noReadDeadline(pkgs ...string) {
	in := inPkgs(pkgs...)
	for f := range c.e.allFns {
		if !in(f) || len(f.Blocks) == 0 {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if cc := ci.Common(); cc.IsInvoke() {
					name = cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil && (g.Pkg == nil || !c.e.isRepoPkg(g.Pkg.Pkg.Path())) {
					name = g.Name()
				}
				if name != "SetDeadline" && name != "SetReadDeadline" {
					continue
				}
				n++
				as := ci.Common().Args
				c.must(len(as) > 0 && zeroTime(as[len(as)-1]), "deadline", fmt.Sprintf("%s %d", shortFn(f.String()), n), c.at(ci.Pos()), "reading the connection is given a deadline: a frame that arrives slowly is cut off")
			}
		}
	}
}

// zeroTime: the value is time.Time{}.
func zeroTime(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			if r != ssa.Instruction(x) {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					return false
				}
			}
		}
		return true
	}
	return false
}

// onePipeline: the components are tied to the connection the pipeline was made for, and
// the connection goroutine gives every pass its own session
func (c *Check) onePipeline() {
	sessKey := c.e.needTyp(pModel, "SessionCtxKey")
	c.guard("wiring", "connection", "internal/protocol/pipeline.go", func() {
		reg := c.registries()
		for _, r := range c.connRuns(reg.sess) {
			var seq []*Term
			for i := 0; i < c.seqLenFor(); i++ {
				seq = append(seq, nil)
			}
			outs := c.serveSeq(r, append(seq, errEOF), -1)
			n := 0
			for _, o := range outs {
				var pg *Term
				for _, ev := range stages(o.st) {
					if ev.Name != "ProcessConnRead" {
						continue
					}
					n++
					c.must(ctxSession(ev.Args[1], sessKey) == r.rec, "wiring", "session", r.pos, "a pass is given a context without its own session")
					if pg == nil {
						pg = ev.Args[0]
						fh := o.st.content(pg, "")
						_ = fh
					}
					c.must(ev.Args[0] == pg, "wiring", "one pipeline per connection", r.pos, "each pass gets a new pipeline, which loses the bytes its reader has buffered")
				}
			}
			c.must(n > 0, "wiring", "connection", r.pos, "no pass analysed")
		}
	})
}

func ctxSession(ctx *Term, key types.Type) *Term {
	v := ctxValue(ctx, key)
	if v != nil && v.K == KIface {
		return v.A[0]
	}
	return v
}

// ---- C16 ----

func checkC16(c *Check) {
	e := c.e
	// every goroutine
	n := 0
	for _, pk := range e.sortedPkgs() {
		if !e.isRepoPkg(pk.Pkg.Path()) || strings.Contains(pk.Pkg.Path(), "/test/") {
			continue
		}
		for _, f := range fnsOf(e, pk) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g, ok := in.(*ssa.Go)
					if !ok {
						continue
					}
					n++
					inst := shortFn(f.String())
					c.guard("recovers", inst, c.at(g.Pos()), func() { c.goRecovers(inst, f, g) })
				}
			}
		}
	}
	c.must(n > 0, "recovers", "goroutines", "", "the program starts no goroutine")
	// a panic while handling a message ends with the connection's goroutine
	c.guard("contained", "connection", "internal/server/tcp_server.go", func() {
		reg := c.registries()
		for _, r := range c.connRuns(reg.sess) {
			for _, o := range c.serveSeq(r, []*Term{nil}, 1) {
				if c.must(o.kind == outRet, "contained", "connection", r.pos, "a panic while handling a message is not recovered in its goroutine and ends the process") {
					cl, rm := c.closedAndForgotten(o.st, reg.sess, r)
					c.must(cl, "contained", "connection closed", r.pos, "after a panic while handling a message nobody reads the connection any more, but it stays open")
					c.must(rm, "contained", "session removed", r.pos, "after a panic while handling a message the session stays registered")
				}
			}
		}
	})
	// the supervision job runs on the timer's goroutine
	c.guard("contained", "supervision", "internal/protocol/keepalive.go", func() {
		reg := c.registries()
		c.assumeIndexInvariant(reg)
		j := c.keepalive(reg, func(*State) { e.assertPanics = true })
		c.must(len(j.outs) > 0, "contained", "supervision", j.where, "no outcome")
		for _, o := range j.outs {
			c.must(o.kind == outRet, "contained", "supervision", c.at(o.pos), "the supervision job can end by %s, which ends the process", o.why)
		}
	})
	// message processing: outcomes that end the process
	for _, m := range []fragMode{fragNone, fragPart} {
		tag := []string{"", " fragment"}[m]
		c.eachProcess(m, allIDs(), "no-exit"+strings.TrimSpace(tag), func(d dispatch, p *procRun) {
			for _, o := range p.outs {
				c.must(o.kind != outExit, "no-exit", idName(d.id)+tag, c.at(o.pos), "processing %s can end the process: %s", idName(d.id), o.why)
			}
		})
	}
	// call-graph search for process-ending calls
	roots := []*ssa.Function{}
	for _, q := range [][3]string{{pServ, "TCPServer", "Start"}, {pServ, "TCPServer", "Send"}, {pProto, "Pipeline", "ProcessConnRead"}, {pProto, "Pipeline", "ProcessConnWrite"}} {
		if f := e.method(q[0], q[1], q[2]); f != nil {
			roots = append(roots, f)
		} else {
			c.fail("no-exit", "roots", q[0], "anchor not found: %s.%s", q[1], q[2])
		}
	}
	jobs := e.jobRunMethods()
	roots = append(roots, jobs...)
	hs := c.handlerFns()
	roots = append(roots, hs...)
	c.must(len(hs) >= 4, "no-exit", "handlers", "internal/api/api.go", "only %d HTTP handlers found", len(hs))
	reach := e.reachable(roots)
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		bad := ""
		var pos token.Pos
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := exitCall(ci.Common()); s != "" {
						bad, pos = s, in.Pos()
					}
				}
			}
		}
		c.must(bad == "", "no-exit", shortFn(f.String()), c.at(pos), "%s, reachable from message handling, calls %s", shortFn(f.String()), bad)
	}
	// HTTP
	c.guard("http-recovery", "router", "internal/api/api.go", func() {
		f := e.needFn(pAPI, "Run")
		ok := false
		for g := range e.reachable([]*ssa.Function{f}) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, isCall := in.(ssa.CallInstruction); isCall {
						if cal := ci.Common().StaticCallee(); cal != nil {
							switch cal.String() {
							case "github.com/gin-gonic/gin.Default", "github.com/gin-gonic/gin.Recovery", "github.com/gin-gonic/gin.RecoveryWithWriter", "github.com/gin-gonic/gin.CustomRecovery":
								ok = true
							}
						}
					}
				}
			}
		}
		c.must(ok, "http-recovery", "router", c.fnAt(f), "the HTTP router is created without panic recovery")
	})
}

func exitCall(cc *ssa.CallCommon) string {
	if cal := cc.StaticCallee(); cal != nil {
		s := cal.String()
		switch s {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "syscall.Exit", "runtime.Goexit",
			"github.com/rs/zerolog/log.Fatal", "(*github.com/rs/zerolog.Logger).Fatal", "(github.com/rs/zerolog.Logger).Fatal":
			return s
		}
		if strings.HasSuffix(s, "zerolog.Logger).WithLevel") || strings.HasSuffix(s, "zerolog/log.WithLevel") {
			if k, ok := cc.Args[len(cc.Args)-1].(*ssa.Const); ok && k.Int64() == 4 {
				return s + "(FatalLevel)"
			}
		}
	}
	return ""
}

// fnsOf lists every function of a package, methods and closures included.
func fnsOf(e *Engine, pk *ssa.Package) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pk.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := e.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := e.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pk {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// jobRunMethods finds the Run methods of types handed to the timer.
func (e *Engine) jobRunMethods() (out []*ssa.Function) {
	for _, pk := range e.sortedPkgs() {
		if !e.isRepoPkg(pk.Pkg.Path()) {
			continue
		}
		for _, f := range fnsOf(e, pk) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cal := ci.Common().StaticCallee()
					if cal == nil || !strings.Contains(cal.String(), "gron.Cron).Add") {
						continue
					}
					for _, a := range ci.Common().Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							if m := e.methodOf(mi.X.Type(), "Run"); m != nil {
								out = append(out, m)
							}
						}
						switch x := a.(type) {
						case *ssa.MakeClosure:
							out = append(out, x.Fn.(*ssa.Function))
						case *ssa.Function:
							out = append(out, x)
						}
					}
				}
			}
		}
	}
	return
}

// handlerFns finds the functions registered as HTTP handlers.
func (c *Check) handlerFns() (out []*ssa.Function) {
	e := c.e
	pk := e.byPath[modPath+"/"+pAPI]
	if pk == nil {
		return nil
	}
	for _, f := range fnsOf(e, pk) {
		s := f.Signature
		if s.Params().Len() == 1 && strings.HasSuffix(s.Params().At(0).Type().String(), "gin.Context") && s.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	return
}

// reachable closes a set of functions over static calls, closures created,
// method values and interface calls resolved by type (class hierarchy), within
// the repository.
func (e *Engine) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if f.Pkg != nil && !e.isRepoPkg(f.Pkg.Pkg.Path()) {
			return
		}
		if f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if cc := ci.Common(); cc.IsInvoke() {
					for _, t := range e.concreteTypes() {
						if iface, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(t, iface) {
							if sel := e.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
								add(e.prog.MethodValue(sel))
							}
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	return seen
}

func (e *Engine) concreteTypes() []types.Type {
	if e.concrete != nil {
		return e.concrete
	}
	for _, pk := range e.sortedPkgs() {
		if !e.isRepoPkg(pk.Pkg.Path()) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			if tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
				if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
					continue
				}
				e.concrete = append(e.concrete, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	return e.concrete
}

func defers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// goRecovers: the function started as a goroutine recovers when the work it
// was handed (function-typed parameters, or anything it calls) panics.
func (c *Check) goRecovers(inst string, f *ssa.Function, g *ssa.Go) {
	e := c.e
	cc := g.Common()
	var target *ssa.Function
	switch v := cc.Value.(type) {
	case *ssa.Function:
		target = v
	case *ssa.MakeClosure:
		target = v.Fn.(*ssa.Function)
	default:
		if cal := cc.StaticCallee(); cal != nil {
			target = cal
		} else {
			giveUp("goroutine started on an unknown function")
		}
	}
	if target.Pkg != nil && !e.isRepoPkg(target.Pkg.Pkg.Path()) {
		giveUp("goroutine runs %s directly, outside this program", target)
	}
	st := e.newState()
	var args, bind []*Term
	for i, p := range target.Params {
		a := Sym(fmt.Sprintf("goarg%d", i), p.Type())
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			a = Sym(fmt.Sprintf("work%d", i), p.Type())
		}
		e.nonNil(st, a)
		args = append(args, a)
	}
	for i, fv := range target.FreeVars {
		a := Sym(fmt.Sprintf("gofree%d", i), fv.Type())
		e.nonNil(st, a)
		bind = append(bind, a)
	}
	// the first thing that does work panics: every call except the deferral
	calls := 0
	inDefer := false
	scope := map[*ssa.Function]bool{target: true}
	e.callHook = func(_ *Engine, st *State, nm string, as []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if _, isDefer := ci.(*ssa.Defer); isDefer || inDefer {
			return nil, false
		}
		if !scope[ci.Parent()] {
			return nil, false
		}
		// a function of this program that defers something may be what
		// recovers: the work is what it runs
		if cal := ci.Common().StaticCallee(); cal != nil && cal.Pkg != nil && e.isRepoPkg(cal.Pkg.Pkg.Path()) && defers(cal) {
			if _, isClosure := ci.Common().Value.(*ssa.MakeClosure); !isClosure && cal.Parent() == nil {
				scope[cal] = true
				return nil, false
			}
		}
		calls++
		return []callRes{{st: st, kind: outPanic, why: "panic in " + shortFn(nm), pos: ci.Pos()}}, true
	}
	e.pathCount = 0
	e.assertPanics = true // a recovered value has any type
	outs := e.call(st, target, args, bind, nil)
	e.callHook, e.assertPanics = nil, false
	c.must(calls > 0, "recovers", inst, c.at(g.Pos()), "the goroutine does nothing")
	for _, o := range outs {
		c.must(o.kind == outRet, "recovers", inst, c.at(g.Pos()), "a panic in the goroutine started here (%s) is not recovered and ends the process", o.why)
	}
}
