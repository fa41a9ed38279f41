package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Path-sensitive analysis of the terminal client (dialling, the read loop with the pipeline answering every modelled sequence of results, sending with every modelled write result) and value-flow analysis of the handlers of platform messages, with the parameter store observed through its own lookup before and after.", 30, checkC27)
}

const pClient = "internal/client"

func checkC27(c *Check) {
	c.noCapturedRace("captured", inPkgs("test/client"))
	c.noReadDeadline("internal/client", "internal/protocol")
	where := "internal/client/tcp_client.go"
	c.clientDial(where)
	c.clientLoop(where)
	c.clientSend(where)
	c.terminalReplies()
}

func (c *Check) clientDial(where string) {
	c.guard("dial", "connection", where, func() {
		e := c.e
		cliT := e.needTyp(pClient, "TCPClient")
		sT := e.needTyp(pModel, "Session")
		f := e.needMethod(pClient, "TCPClient", "Dial")
		st := e.newState()
		cli := Sym("cli", f.Params[0].Type())
		addr := Sym("addr", f.Params[1].Type())
		e.nonNil(st, cli)
		before := st.get(cli, cliT, "Session")
		ok, bad := 0, 0
		w := c.fnAt(f)
		for _, o := range c.run(st, f, cli, addr) {
			if !c.must(o.kind == outRet, "dial", "returns", w, "dialling ends by %s", o.why) {
				continue
			}
			var ds []*Event
			for _, ev := range o.st.events {
				if ev.Kind == "call" && strings.Contains(ev.Name, "net.") && strings.Contains(ev.Name, "Dial") {
					ds = append(ds, ev)
				}
			}
			if !c.must(len(ds) == 1, "dial", "once", w, "the address is dialled %d times", len(ds)) {
				continue
			}
			named := false
			for _, a := range ds[0].Args {
				named = named || a == addr
			}
			c.must(named, "dial", "address", w, "the address dialled is not the one given")
			conn, er := c.resultsOf(ds[0])
			sess := o.st.get(cli, cliT, "Session")
			switch o.st.decide(mkEqNil(er)) {
			case 1:
				ok++
				c.must(o.st.isNilNow(o.vals[0]) || isNil(o.vals[0]), "dial", "success reported", w, "a successful dial returns %s", o.vals[0])
				if c.must(o.st.isNonNil(sess) && sess != before, "dial", "session", w, "no new session after a successful dial") {
					got := o.st.get(sess, sT, "Conn")
					c.must(sameTerm(o.st, got, conn), "dial", "session connection", w, "the session holds %s, not the connection dialled", got)
					id := o.st.get(sess, sT, "ID")
					c.must(id.K == KCall && strings.HasSuffix(id.S, ".String") && id.A[0].K == KCall && strings.HasSuffix(id.A[0].S, ".RemoteAddr") && id.A[0].A[0] == conn, "dial", "session id", w, "the session id %s is not the remote address", id)
				}
			case -1:
				bad++
				c.must(!o.st.isNilNow(o.vals[0]) && o.st.decide(mkEqNil(o.vals[0])) == -1, "dial", "failure reported", w, "a failed dial is reported as %s", o.vals[0])
				for _, ev := range o.st.events {
					if ev.Kind == "call" && strings.Contains(ev.Name, "Conn).") {
						c.fail("dial", "failure changes nothing", c.at(ev.Pos), "a failed dial calls %s", shortFn(ev.Name))
					}
				}
				c.must(sess == before, "dial", "failure changes nothing", w, "a failed dial changes the session")
			default:
				c.fail("dial", "outcome", w, "the result of dialling is not examined")
			}
		}
		c.must(ok > 0 && bad > 0, "dial", "outcomes", w, "dialling has %d good and %d bad outcomes", ok, bad)
	})
}

// clientLoop: the read loop under every modelled sequence of results.
func (c *Check) clientLoop(where string) {
	long := 12
	type cse struct {
		inst  string
		seq   []*Term
		reads int
		open  bool // still reading at the end of the sequence
	}
	wrapE := func(t *Term) *Term { return mk(Term{K: KWrap, A: []*Term{t, StrC("context")}}) }
	other := ErrSentinel("x", "other")
	active := ErrSentinel(modPath+"/"+pProto, "ErrActiveClose")
	rep := func(n int, vs ...*Term) (out []*Term) {
		for len(out) < n {
			out = append(out, vs...)
		}
		return
	}
	var cases []cse
	c.guard("client-loop", "lengths", where, func() {
		var fns []*ssa.Function
		for f := range c.e.allFns {
			if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+pClient {
				fns = append(fns, f)
			}
		}
		for _, k := range c.mined(2, 1100, fns...) {
			long = max(long, k+3)
		}
		for _, v := range []struct {
			n string
			e *Term
		}{{"end of stream", errEOF}, {"pipe closed", errClosedP}, {"connection closed", errNetCl}, {"active close", active}} {
			cases = append(cases, cse{v.n, []*Term{v.e}, 1, false},
				cse{v.n + " wrapped", []*Term{wrapE(v.e)}, 1, false},
				cse{v.n + " after messages", []*Term{nil, other, nil, wrapE(v.e)}, 4, false})
		}
		cases = append(cases, cse{"many messages", rep(long, nil), long, true},
			cse{"many errors", rep(long, other), long, true},
			cse{"now and then", rep(long, other, nil), len(rep(long, other, nil)), true})
		for _, er := range c.knownErrors() {
			if er == nil || er.K == KWrap || !strings.Contains(er.S, modPath) || strings.HasSuffix(er.S, ".ErrActiveClose") || strings.HasSuffix(er.S, ".ErrSessionClosed") {
				continue
			}
			n := er.S[strings.LastIndex(er.S, "/")+1:]
			cases = append(cases, cse{n, []*Term{er, wrapE(er)}, 2, true})
		}
	})
	for _, v := range cases {
		c.guard("client-loop", v.inst, where, func() {
			e := c.e
			cliT := e.needTyp(pClient, "TCPClient")
			sT := e.needTyp(pModel, "Session")
			f := e.needMethod(pClient, "TCPClient", "Start")
			st := e.newState()
			cli := Sym("cli", f.Params[0].Type())
			e.nonNil(st, cli)
			sess := st.get(cli, cliT, "Session")
			e.nonNil(st, sess)
			conn := st.get(sess, sT, "Conn")
			e.nonNil(st, conn)
			name := "(*" + modPath + "/" + pProto + ".Pipeline).ProcessConnRead"
			e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				switch nm {
				case modPath + "/" + pProto + ".NewPipeline":
					pg := e.fresh("pipeline", nil, args[0])
					e.nonNil(st, pg)
					return []callRes{{st: st, val: pg}}, true
				case name:
					n := count(st, stageKind, "ProcessConnRead")
					if n >= len(v.seq) {
						return []callRes{{st: st, kind: outExit, why: "reads again"}}, true
					}
					st.emit(&Event{Kind: stageKind, Name: "ProcessConnRead", Args: args, Pos: ci.Pos()})
					er := Nil
					if v.seq[n] != nil {
						er = v.seq[n]
					}
					return []callRes{{st: st, val: er}}, true
				}
				return nil, false
			}
			e.forceUnroll = len(v.seq) + 3
			outs := c.run(st, f, cli)
			e.forceUnroll = 0
			e.callHook = nil
			w := c.fnAt(f)
			c.must(len(outs) > 0, "client-loop", v.inst, w, "no outcome")
			for _, o := range outs {
				reads := 0
				var pg *Term
				for _, ev := range o.st.events {
					switch {
					case ev.Kind == stageKind:
						reads++
						c.must(occurs(ev.Args[0], func(t *Term) bool { return t == conn }), "client-loop", "own connection", w, "messages are read from %s, not from the client's connection", ev.Args[0])
						c.must(pg == nil || pg == ev.Args[0], "client-loop", "one reader", w, "each pass uses a new reader, so buffered bytes are lost")
						pg = ev.Args[0]
						val := ctxValue(ev.Args[1], e.needTyp(pModel, "SessionCtxKey"))
						c.must(val != nil && val.K == KIface && sameTerm(o.st, val.A[0], sess), "client-loop", "own session", w, "messages are handled with another session than the client's")
					case ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Close"):
						c.must(!v.open || reads > v.reads, "client-loop", v.inst, c.at(ev.Pos), "the connection is closed after a result that does not end it")
					case ev.Kind == "call" && ev.Name == "time.Sleep":
						d, ok := o.st.constOf(ev.Args[0])
						c.must(ok && d <= 10_000_000_000, "client-loop", "pause", c.at(ev.Pos), "the client pauses for %s", ev.Args[0])
					}
				}
				c.must(reads == v.reads, "client-loop", v.inst, w, "with these results the connection is read %d times, expected %d", reads, v.reads)
				if v.open {
					c.must(o.kind == outExit && o.why == "reads again", "client-loop", v.inst, w, "the client stops reading after a result that does not end the connection (%s)", o.why)
				} else {
					c.must(o.kind == outRet, "client-loop", v.inst, w, "the client goes on reading (%s)", o.why)
				}
			}
		})
	}
}

func (c *Check) clientSend(where string) {
	type cse struct {
		inst  string
		er    *Term
		close bool
		free  bool // whether the connection is still usable is not said
	}
	wrapE := func(t *Term) *Term { return mk(Term{K: KWrap, A: []*Term{t, StrC("context")}}) }
	cases := []cse{{"sent", Nil, false, false}, {"pipe closed", errClosedP, true, false}, {"connection closed", errNetCl, true, false},
		{"pipe closed wrapped", wrapE(errClosedP), true, false}, {"connection closed wrapped", wrapE(errNetCl), true, false},
		{"other error", ErrSentinel("x", "other"), false, false}}
	c.guard("client-send", "errors", where, func() {
		for _, er := range c.knownErrors() {
			if er != nil && er.K != KWrap && !strings.Contains(er.S, modPath) && er != errClosedP && er != errNetCl {
				cases = append(cases, cse{er.S, wrapE(er), false, true})
			}
			if er == nil || er.K == KWrap || !strings.Contains(er.S, modPath) || strings.HasSuffix(er.S, ".ErrActiveClose") || strings.HasSuffix(er.S, ".ErrSessionClosed") {
				continue
			}
			cases = append(cases, cse{er.S[strings.LastIndex(er.S, "/")+1:], er, false, false})
		}
	})
	for _, v := range cases {
		c.guard("client-send", v.inst, where, func() {
			e := c.e
			cliT := e.needTyp(pClient, "TCPClient")
			sT := e.needTyp(pModel, "Session")
			pdT := e.needTyp(pModel, "ProcessData")
			f := e.needMethod(pClient, "TCPClient", "Send")
			st := e.newState()
			cli := Sym("cli", f.Params[0].Type())
			e.nonNil(st, cli)
			sess := st.get(cli, cliT, "Session")
			e.nonNil(st, sess)
			conn := st.get(sess, sT, "Conn")
			e.nonNil(st, conn)
			msg := Sym("msg", f.Params[1].Type())
			e.nonNil(st, msg)
			e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				switch nm {
				case modPath + "/" + pProto + ".NewPipeline":
					pg := e.fresh("pipeline", nil, args[0])
					e.nonNil(st, pg)
					return []callRes{{st: st, val: pg}}, true
				case "(*" + modPath + "/" + pProto + ".Pipeline).ProcessConnWrite":
					st.emit(&Event{Kind: stageKind, Name: "ProcessConnWrite", Args: args, Pos: ci.Pos()})
					return []callRes{{st: st, val: v.er}}, true
				}
				return nil, false
			}
			outs := c.run(st, f, cli, msg)
			e.callHook = nil
			w := c.fnAt(f)
			c.must(len(outs) > 0, "client-send", v.inst, w, "no outcome")
			for _, o := range outs {
				if !c.must(o.kind == outRet, "client-send", v.inst, w, "sending ends by %s", o.why) {
					continue
				}
				sg := stages(o.st)
				if !c.must(len(sg) == 1, "client-send", "once", w, "a message is written %d times", len(sg)) {
					continue
				}
				c.must(occurs(sg[0].Args[0], func(t *Term) bool { return t == conn }), "client-send", "own connection", w, "the message is written to %s, not to the client's connection", sg[0].Args[0])
				val := ctxValue(sg[0].Args[1], e.needTyp(pModel, "ProcessDataCtxKey"))
				okm := val != nil && val.K == KIface && sameTerm(o.st, o.st.get(val.A[0], pdT, "Outgoing"), msg)
				c.must(okm, "client-send", "message", w, "another message than the given one is written")
				closes := 0
				for _, ev := range callsNamed(o.st, "(net.Conn).Close") {
					c.must(sameTerm(o.st, ev.Args[0], conn), "client-send", "closes its own", c.at(ev.Pos), "another connection is closed")
					closes++
				}
				if v.free {
				} else if v.close {
					c.must(closes > 0, "client-send", v.inst, w, "a closed connection is not shut")
				} else {
					c.must(closes == 0, "client-send", v.inst, w, "the connection is closed although the result does not end it")
				}
				c.must(sameTerm(o.st, o.st.get(cli, cliT, "Session"), sess), "client-send", "session kept", w, "sending replaces the session")
			}
		})
	}
	c.guard("client-stop", "closes", where, func() {
		e := c.e
		f := e.needMethod(pClient, "TCPClient", "Stop")
		st := e.newState()
		cli := Sym("cli", f.Params[0].Type())
		e.nonNil(st, cli)
		sess := st.get(cli, e.needTyp(pClient, "TCPClient"), "Session")
		e.nonNil(st, sess)
		conn := st.get(sess, e.needTyp(pModel, "Session"), "Conn")
		e.nonNil(st, conn)
		for _, o := range c.run(st, f, cli) {
			n := 0
			for _, ev := range callsNamed(o.st, ".Close") {
				if ev.Args[0] == conn {
					n++
				}
			}
			c.must(o.kind == outRet && n > 0, "client-stop", "closes", c.fnAt(f), "stopping does not close the client's connection")
		}
	})
}

// terminalReplies: what the terminal answers to the platform.
func (c *Check) terminalReplies() {
	e := c.e
	where := "internal/protocol/msg_processor.go"
	known := func(p *procRun, o Out) int { return p.hasDevice(o.st) }
	// registration reply
	c.guard("authenticates", "0x8100", where, func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		p := c.process(r, 0x8100, fragNone, nil)
		ok, gone := 0, 0
		for _, o := range p.outs {
			if o.kind != outRet {
				c.must(o.kind != outExit, "authenticates", "goes on", c.at(o.pos), "a registration reply ends the process")
				continue
			}
			switch known(p, o) {
			case -1:
				gone++
				c.must(c.errIs(o.st, o.vals[1], pProto, "ErrActiveClose"), "authenticates", "unknown terminal", p.fn, "a registration reply for a terminal the client does not have yields %s, not the active-close error", o.vals[1])
			case 1:
				if p.failed(o) {
					c.must(debugSerialiseFailure(o.st), "authenticates", "answered", p.fn, "a registration reply for the client's terminal fails with %s", o.vals[1])
					continue
				}
				n, ptr, t := c.outgoing(o.st, o.vals[0])
				if !c.must(n == "Msg0102", "authenticates", "answered", p.fn, "a registration reply is answered with %q", n) {
					continue
				}
				ok++
				_, in, inT := c.incoming(o.st, o.vals[0])
				code := o.st.get(in, inT, "AuthCode")
				got := o.st.get(ptr, t, "AuthCode")
				c.must(code == Sym("in.AuthCode", code.T) && sameTerm(o.st, got, code), "authenticates", "code", p.fn, "the authentication carries code %s, not the one received", got)
				dev := mk(Term{K: KGet, A: []*Term{r.phone, p.pk.phone, Int(0)}, T: ptrTo(r.devT)})
				for _, f := range []string{"IMEI", "SoftwareVersion"} {
					got, want := o.st.get(ptr, t, f), o.st.get(dev, r.devT, f)
					c.must(sameTerm(o.st, got, want), "authenticates", f, p.fn, "the authentication carries %s %s, not the terminal's", f, got)
				}
				c.must(len(c.storedDevices(o.st, r)) == 0, "authenticates", "record kept", p.fn, "a registration reply changes the terminal's record")
			case 0:
				// failed before the terminal was looked up
				c.must(p.failed(o), "authenticates", "looked up", p.fn, "a registration reply is answered without looking the terminal up")
			}
		}
		c.must(ok > 0 && gone > 0, "authenticates", "outcomes", p.fn, "%d answered, %d refused", ok, gone)
	})
	// general reply
	c.guard("general-reply", "0x8001", where, func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		p := c.process(r, 0x8001, fragNone, nil)
		m8 := e.needTyp(pModel, "Msg8001")
		n := map[string]int{}
		for _, o := range p.outs {
			if o.kind != outRet {
				c.must(o.kind != outExit, "general-reply", "goes on", c.at(o.pos), "a general reply ends the process")
				continue
			}
			res := Sym("in.Result", structOf(m8).Field(fieldIdx(m8, "Result")).Type())
			suc := o.st.decide(EqInt(res, Int(0), o.st))
			switch {
			case suc == 1 && known(p, o) == -1:
				n["unknown"]++
				c.must(c.errIs(o.st, o.vals[1], pProto, "ErrActiveClose"), "general-reply", "unknown terminal", p.fn, "a general reply for a terminal the client does not have yields %s, not the active-close error", o.vals[1])
			case suc == -1:
				n["failure"]++
				c.must(!p.failed(o) || debugSerialiseFailure(o.st), "general-reply", "failure result", p.fn, "a reply with a failure result yields error %s", o.vals[1])
				c.must(len(c.storedDevices(o.st, r)) == 0, "general-reply", "failure changes nothing", p.fn, "a reply with a failure result changes the terminal's record")
			case suc == 1 && known(p, o) == 1 && !p.failed(o):
				// the terminal leaves the offline state in which it was created
				n["success"]++
				dev := mk(Term{K: KGet, A: []*Term{r.phone, p.pk.phone, Int(0)}, T: ptrTo(r.devT)})
				was := p.pre.get(dev, r.devT, "Status")
				for _, v := range c.lookupDevice(o.st, "GetDeviceByPhone", p.pk.phone) {
					if !c.must(v.found, "general-reply", "stays", p.fn, "a general reply removes the terminal") {
						continue
					}
					now := v.st.get(v.rec, r.devT, "Status")
					off := v.st.decide(EqInt(was, Int(0), v.st))
					if off == 1 {
						c.must(sameTerm(v.st, now, Int(1)), "general-reply", "online", p.fn, "after the platform accepted it the terminal has status %s", now)
					} else {
						c.must(off == -1 && sameTerm(v.st, now, was), "general-reply", "status kept", p.fn, "a general reply changes the status of a running terminal from %s to %s", was, now)
					}
				}
			}
		}
		c.must(n["unknown"] > 0 && n["failure"] > 0 && n["success"] > 0, "general-reply", "outcomes", p.fn, "%v", n)
	})
	c.terminalParams(where)
	// stored media query
	c.guard("media-query", "0x9205", where, func() {
		r := c.registries()
		p := c.process(r, 0x9205, fragNone, nil)
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || p.failed(o) {
				continue
			}
			n++
			name, ptr, t := c.outgoing(o.st, o.vals[0])
			_, in, inT := c.incoming(o.st, o.vals[0])
			if !c.must(name == "Msg1205", "media-query", "answered", p.fn, "answered with %q", name) {
				continue
			}
			for _, f := range []string{"LogicChannelID", "StartTime", "EndTime"} {
				got, want := o.st.get(ptr, t, f), o.st.get(in, inT, f)
				c.must(sameTerm(o.st, got, want), "media-query", f, p.fn, "the answer's %s is %s, the query's is %s", f, got, want)
			}
			c.must(sameTerm(o.st, o.st.get(ptr, t, "MediaCount"), Int(1)), "media-query", "count", p.fn, "the answer lists one resource but states %s", o.st.get(ptr, t, "MediaCount"))
			c.must(len(p.effects(o)) == 0, "media-query", "no effect", p.fn, "a query changes state: %s", evString(e, p.effects(o)))
		}
		c.must(n > 0, "media-query", "outcomes", p.fn, "no successful outcome")
	})
}

// terminalParams: setting and querying parameters, observed through the store.
func (c *Check) terminalParams(where string) {
	e := c.e
	pT := e.needTyp(pModel, "ParamData")
	lT := e.needTyp(pModel, "DeviceParams")
	// list makes a parameter list of one phone.
	list := func(st *State, d, phone *Term, name string, ids []int64) map[int64]*Term {
		e.nonNil(st, d)
		m := map[int64]*Term{}
		var els []*Term
		for _, id := range ids {
			p := Sym(fmt.Sprintf("%s%d", name, id), ptrTo(pT))
			e.nonNil(st, p)
			st.set(p, pT, "ParamID", Int(id))
			m[id] = st.get(p, pT, "ParamValue")
			els = append(els, SElem(p))
		}
		st.set(d, lT, "Params", st.newSlice(Seq(els...)))
		st.set(d, lT, "ParamCnt", Int(int64(len(ids))))
		st.set(d, lT, "DevicePhone", phone)
		return m
	}
	stored := func(st *State, phone *Term) (outs []Out) {
		s := st.clone()
		return c.run(s, e.needMethod(pStore, "DeviceParamsCache", "GetDeviceParamsByPhone"), c.single(s, pStore, "GetDeviceParamsCache"), phone)
	}
	store := func(st *State, d *Term) {
		s := st.clone()
		for _, o := range c.run(s, e.needMethod(pStore, "DeviceParamsCache", "CacheDeviceParams"), c.single(s, pStore, "GetDeviceParamsCache"), d) {
			if o.kind == outRet {
				*st = *o.st
				return
			}
		}
		giveUp("a parameter list cannot be stored")
	}
	forget := func(st *State, phone *Term) {
		s := st.clone()
		for _, o := range c.run(s, e.needMethod(pStore, "DeviceParamsCache", "DelDeviceParamsByPhone"), c.single(s, pStore, "GetDeviceParamsCache"), phone) {
			if o.kind == outRet {
				*st = *o.st
				return
			}
		}
		giveUp("a parameter list cannot be removed")
	}
	holds := func(rule, inst, w string, st *State, l *Term, want map[int64]*Term) {
		els, ok := listElems(st, st.get(l, lT, "Params"))
		if !c.must(ok && len(els) == len(want), rule, inst, w, "%d parameters, expected %d", len(els), len(want)) {
			return
		}
		for id, v := range want {
			n := 0
			for _, el := range els {
				if sameTerm(st, st.get(el, pT, "ParamID"), Int(id)) {
					n++
					c.must(sameTerm(st, st.get(el, pT, "ParamValue"), v), rule, inst, w, "parameter %#x has value %s, expected %s", id, st.get(el, pT, "ParamValue"), v)
				}
			}
			c.must(n == 1, rule, inst, w, "parameter %#x occurs %d times", id, n)
		}
	}
	other := Sym("otherphone", types.Typ[types.String])
	type cse struct {
		inst     string
		old, new []int64
	}
	for _, v := range []cse{
		{"first", nil, []int64{0x84, 0x01, 0x31}},
		{"one of three", []int64{0x84, 0x01, 0x31}, []int64{0x31}},
		{"all", []int64{0x01, 0x20}, []int64{0x20, 0x01}},
		{"first, one", nil, []int64{0x20}},
	} {
		c.guard("set-parameters", v.inst, where, func() {
			r := c.registries()
			e.forceUnroll = 12
			in := Sym("in.Parameters", ptrTo(lT))
			var ov, nv, xv map[int64]*Term
			p := c.process(r, 0x8103, fragNone, func(st *State, p packet) {
				st.assume(Not(eqStr(other, p.phone, st)))
				x := Sym("otherlist", ptrTo(lT))
				xv = list(st, x, other, "x", []int64{0x01, 0x31})
				store(st, x)
				if v.old != nil {
					o := Sym("oldlist", ptrTo(lT))
					ov = list(st, o, p.phone, "old", v.old)
					store(st, o)
				} else {
					forget(st, p.phone)
				}
				nv = list(st, in, p.phone, "new", v.new)
			})
			want := map[int64]*Term{}
			for id, t := range ov {
				want[id] = t
			}
			for id, t := range nv {
				want[id] = t
			}
			n := 0
			for _, o := range p.outs {
				if o.kind != outRet || p.failed(o) {
					c.must(o.kind != outExit, "set-parameters", v.inst, c.at(o.pos), "ends the process")
					continue
				}
				n++
				for _, g := range stored(o.st, p.pk.phone) {
					if c.must(g.kind == outRet && isNil(g.vals[1]), "set-parameters", v.inst, p.fn, "the parameters set are not stored under the terminal's phone") {
						holds("set-parameters", v.inst, p.fn, g.st, g.vals[0], want)
					}
				}
				for _, g := range stored(o.st, other) {
					if c.must(g.kind == outRet && isNil(g.vals[1]), "set-parameters", "other terminal", p.fn, "setting parameters of one terminal loses those of another") {
						holds("set-parameters", "other terminal", p.fn, g.st, g.vals[0], xv)
					}
				}
			}
			c.must(n > 0, "set-parameters", v.inst, p.fn, "no successful outcome")
		})
	}
	for _, has := range []bool{true, false} {
		inst := map[bool]string{true: "stored", false: "none stored"}[has]
		c.guard("query-parameters", inst, where, func() {
			r := c.registries()
			e.forceUnroll = 12
			// decoding the built-in list: contract established by C21
			c.moreHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				if nm != "(*"+modPath+"/"+pModel+".DeviceParams).Decode" {
					return nil, false
				}
				st.set(args[0], lT, "DevicePhone", args[1])
				st.set(args[0], lT, "ParamCnt", args[2])
				st.set(args[0], lT, "Params", Sym("builtin", structOf(lT).Field(fieldIdx(lT, "Params")).Type()))
				return []callRes{{st: st, val: Nil}}, true
			}
			defer func() { c.moreHook = nil }()
			var ov map[int64]*Term
			p := c.process(r, 0x8104, fragNone, func(st *State, p packet) {
				if has {
					o := Sym("oldlist", ptrTo(lT))
					ov = list(st, o, p.phone, "old", []int64{0x01, 0x31, 0x84})
					store(st, o)
				} else {
					forget(st, p.phone)
				}
			})
			n := 0
			for _, o := range p.outs {
				if o.kind != outRet || p.failed(o) {
					c.must(o.kind != outExit, "query-parameters", inst, c.at(o.pos), "ends the process")
					continue
				}
				name, ptr, t := c.outgoing(o.st, o.vals[0])
				if !c.must(name == "Msg0104", "query-parameters", inst, p.fn, "answered with %q", name) {
					continue
				}
				n++
				l := o.st.get(ptr, t, "Parameters")
				if !c.must(o.st.isNonNil(l), "query-parameters", inst, p.fn, "the answer has no parameter list") {
					continue
				}
				if has {
					holds("query-parameters", inst, p.fn, o.st, l, ov)
					for _, g := range stored(o.st, p.pk.phone) {
						if c.must(g.kind == outRet && isNil(g.vals[1]), "query-parameters", "kept", p.fn, "a query loses the stored parameters") {
							holds("query-parameters", "kept", p.fn, g.st, g.vals[0], ov)
						}
					}
					continue
				}
				// what is answered is what is stored from then on
				for _, g := range stored(o.st, p.pk.phone) {
					if c.must(g.kind == outRet && isNil(g.vals[1]), "query-parameters", "remembered", p.fn, "the default parameters answered are not kept for the terminal") {
						a, b := g.st.get(l, lT, "Params"), g.st.get(g.vals[0], lT, "Params")
						c.must(sameTerm(g.st, a, b), "query-parameters", "remembered", p.fn, "the parameters kept are not those answered")
					}
				}
			}
			c.must(n > 0, "query-parameters", inst, p.fn, "no successful outcome")
		})
	}
	// a decoded list belongs to the phone in the header
	for _, m := range []string{"Msg8103", "Msg0104"} {
		c.guard("list-phone", m, "internal/protocol/model", func() {
			mT := e.needTyp(pModel, m)
			f := e.needMethod(pModel, m, "Decode")
			st := e.newState()
			pk := e.newPacket(st, map[string]int64{"Msg8103": 0x8103, "Msg0104": 0x0104}[m])
			msg := Sym("m", ptrTo(mT))
			e.nonNil(st, msg)
			var bs []*Term
			pre := 1
			if m == "Msg0104" {
				pre = 3
			}
			for i := 0; i < pre-1; i++ {
				bs = append(bs, SElem(Sym(fmt.Sprintf("b%d", i), types.Typ[types.Uint8])))
			}
			for _, k := range []int64{1, 0, 0, 0, 0x01, 4} {
				bs = append(bs, SElem(Int(k)))
			}
			for i := 0; i < 4; i++ {
				bs = append(bs, SElem(Sym(fmt.Sprintf("v%d", i), types.Typ[types.Uint8])))
			}
			st.set(pk.pkt, e.needTyp(pModel, "PacketData"), "Body", st.newSlice(Seq(bs...)))
			e.forceUnroll = 4
			n := 0
			for _, o := range c.run(st, f, msg, pk.pkt) {
				if o.kind != outRet || !isNil(o.vals[0]) {
					continue
				}
				n++
				l := o.st.get(msg, mT, "Parameters")
				c.must(o.st.isNonNil(l) && sameTerm(o.st, o.st.get(l, lT, "DevicePhone"), pk.phone), "list-phone", m, c.fnAt(f), "the decoded parameter list does not carry the phone of the message")
			}
			c.must(n > 0, "list-phone", m, c.fnAt(f), "no successful outcome")
		})
	}
}

// resultsOf gives the two results of an external call.
func (c *Check) resultsOf(ev *Event) (a, b *Term) {
	tp, ok := ev.Res.T.(*types.Tuple)
	if !ok || tp.Len() != 2 {
		giveUp("%s does not yield two results", ev.Name)
	}
	return proj(ev.Res, 0, tp.At(0).Type()), proj(ev.Res, 1, tp.At(1).Type())
}
