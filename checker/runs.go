package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An entry is one way the program is entered by a goroutine of its own.
type entry struct {
	name  string
	where string
	run   func() []callRes
}

type handler struct {
	method, path string
	fn           *Term
	st           *State
	pos          string
}

// httpHandlers interprets the router set-up and returns the handlers it registers.
func (c *Check) httpHandlers() []handler {
	e := c.e
	f := e.needFn(pAPI, "Run")
	st := e.newState()
	var args []*Term
	for i, p := range f.Params {
		a := Sym([]string{"serv", "cfg"}[min(i, 1)], p.Type())
		e.nonNil(st, a)
		args = append(args, a)
	}
	prefix := map[*Term]string{}
	var out []handler
	seen := map[string]bool{}
	const gp = "github.com/gin-gonic/gin."
	e.callHook = func(_ *Engine, st *State, nm string, as []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if !strings.Contains(nm, gp) {
			return nil, false
		}
		m := nm[strings.LastIndex(nm, ".")+1:]
		recv := ""
		if len(as) > 0 {
			b, _, _ := splitPtr(as[0])
			recv = prefix[b]
		}
		res := func() []callRes {
			if ci == nil {
				return ret1(st, Nil)
			}
			sig := ci.Common().Signature()
			r := e.fresh(nm, sigType(sig), as...)
			if sig.Results().Len() == 1 {
				if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
					e.nonNil(st, r)
				}
			}
			return ret1(st, resultOf(r, sig))
		}
		switch m {
		case "Group":
			rs := res()
			if as[1].K != KStr {
				giveUp("HTTP group with a computed path at %s", c.at(ci.Pos()))
			}
			prefix[rs[0].val] = recv + as[1].S
			return rs, true
		case "GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "Any", "Handle":
			k := 1
			if m == "Handle" {
				if as[1].K != KStr {
					giveUp("HTTP route with a computed method at %s", c.at(ci.Pos()))
				}
				m, k = as[1].S, 2
			}
			if as[k].K != KStr {
				giveUp("HTTP route with a computed path at %s", c.at(ci.Pos()))
			}
			q := st.seqOfSlice(as[k+1])
			for _, sgm := range q.A {
				if sgm.K != KSElem {
					giveUp("HTTP route with computed handlers at %s", c.at(ci.Pos()))
				}
				h := handler{m, recv + as[k].S, sgm.A[0], st.clone(), c.at(ci.Pos())}
				if id := h.method + h.path + h.pos; !seen[id] {
					seen[id] = true
					out = append(out, h)
				}
			}
			return res(), true
		case "Run":
			st.emit(&Event{Kind: stageKind, Name: "router.Run", Args: as, Pos: ci.Pos()})
		}
		return res(), true
	}
	c.run(st, f, args...)
	e.callHook = nil
	for i := range out {
		out[i].st.events = nil
	}
	return out
}

// runHandler analyses one handler.
func (c *Check) runHandler(h handler, hook func(*Engine, *State, string, []*Term, ssa.CallInstruction) ([]callRes, bool)) ([]callRes, *Term, *State) {
	e := c.e
	st := h.st.clone()
	gc := Sym("gin", nil)
	e.nonNil(st, gc)
	e.pathCount = 0
	pre := st.clone()
	e.callHook = hook
	rs := e.invoke(st, nil, h.fn, []*Term{gc}, nil)
	e.callHook = nil
	e.pathsTotal += len(rs)
	return rs, gc, pre
}

// entries enumerates every way shared state is reached.
func (c *Check) entries() []entry {
	e := c.e
	var out []entry
	conv := func(os []Out) (rs []callRes) {
		for _, o := range os {
			rs = append(rs, callRes{st: o.st, kind: o.kind, why: o.why, pos: o.pos})
		}
		return
	}
	for _, m := range []fragMode{fragNone, fragPart} {
		for _, id := range allIDs() {
			out = append(out, entry{"process " + idName(id) + []string{"", " fragment"}[m], "internal/protocol/msg_processor.go", func() []callRes {
				r := c.registries()
				c.assumeIndexInvariant(r)
				return conv(c.process(r, id, m, nil).outs)
			}})
		}
	}
	out = append(out, entry{"process other ids", "internal/protocol/msg_processor.go", func() []callRes {
		return conv(c.unsupported(c.registries(), fragNone).outs)
	}})
	out = append(out, entry{"supervision job", "internal/protocol/keepalive.go", func() []callRes {
		r := c.registries()
		c.assumeIndexInvariant(r)
		return conv(c.keepalive(r, nil).outs)
	}})
	out = append(out, entry{"packet decode", "internal/protocol/packet_codec.go", func() []callRes {
		f := e.needMethod(pProto, "JT808PacketCodec", "Decode")
		st := e.newState()
		pc := c.single(st.clone(), pProto, "NewJT808PacketCodec")
		e.nonNil(st, pc)
		n := 18
		b := make([]*Term, n)
		for i := range b {
			b[i] = SElem(Sym(fmt.Sprintf("b%d", i), types.Typ[types.Uint8]))
		}
		return conv(c.run(st, f, pc, st.newSlice(Seq(b...))))
	}})
	out = append(out, entry{"packet encode", "internal/protocol/packet_codec.go", func() []callRes {
		f := e.needMethod(pProto, "JT808PacketCodec", "Encode")
		mT := ptrTo(e.needTyp(pModel, "Msg0002"))
		enc := e.methodOf(mT, "Encode")
		if enc == nil {
			giveUp("anchor not found: Msg0002.Encode")
		}
		st := e.newState()
		pc := c.single(st.clone(), pProto, "NewJT808PacketCodec")
		e.nonNil(st, pc)
		m := Sym("msg", mT)
		e.nonNil(st, m)
		b := seqOfElems(wordTerms(st, []int64{-1, 0x7e, -1}, "b", []int64{0x7e, 0x7d, 1, 2}))
		e.callHook = func(_ *Engine, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			if name == enc.String() {
				return []callRes{{st: s, val: Tuple(s.newSlice(b), Nil)}}, true
			}
			return nil, false
		}
		outs := c.run(st, f, pc, mk(Term{K: KIface, T: mT, A: []*Term{m}}))
		e.callHook = nil
		return conv(outs)
	}})
	out = append(out, entry{"segment", "internal/storage/segment_cache.go", func() []callRes {
		f := e.needFn(pStore, "CacheSegment")
		st := e.newState()
		s := Sym("seg", f.Params[0].Type())
		e.nonNil(st, s)
		return conv(c.run(st, f, s))
	}})
	out = append(out, entry{"accept loop", "internal/server/tcp_server.go", func() []callRes {
		outs, _, _ := c.acceptSeq([]*Term{nil, ErrSentinel("x", "temporary"), nil, errNetCl})
		return conv(outs)
	}})
	out = append(out, entry{"connection", "internal/server/tcp_server.go", func() (rs []callRes) {
		reg := c.registries()
		for _, r := range c.connRuns(reg.sess) {
			rs = append(rs, c.serveSeq(r, []*Term{nil, ErrSentinel("x", "other"), errEOF}, -1)...)
			rs = append(rs, c.serveSeq(r, []*Term{errNetCl}, -1)...)
			rs = append(rs, c.serveSeq(r, []*Term{ErrSentinel(modPath+"/"+pStore, "ErrDeviceNotFound")}, -1)...)
			rs = append(rs, c.serveSeq(r, []*Term{nil}, 1)...)
		}
		return
	}})
	out = append(out, entry{"server send", "internal/server/tcp_server.go", func() (rs []callRes) {
		f := e.needMethod(pServ, "TCPServer", "Send")
		st := e.newState()
		serv := Sym("serv", f.Params[0].Type())
		e.nonNil(st, serv)
		msg := Sym("msg", f.Params[2].Type())
		e.nonNil(st, msg)
		for _, er := range []*Term{nil, errNetCl, errClosedP} {
			c.stageErr = er
			e.callHook = c.stageHook()
			rs = append(rs, conv(c.run(st.clone(), f, serv, Sym("id", types.Typ[types.String]), msg))...)
			e.callHook = nil
			c.stageErr = nil
		}
		return
	}})
	out = append(out, entry{"server stop", "internal/server/tcp_server.go", func() (rs []callRes) {
		f := e.needMethod(pServ, "TCPServer", "Stop")
		st := e.newState()
		serv := Sym("serv", f.Params[0].Type())
		e.nonNil(st, serv)
		return conv(c.run(st, f, serv))
	}})
	out = append(out, entry{"http handlers", "internal/api/api.go", func() (rs []callRes) {
		hs := c.httpHandlers()
		if len(hs) == 0 {
			giveUp("no HTTP handler found")
		}
		for _, h := range hs {
			for _, er := range []*Term{nil, errNetCl} {
				c.stageErr = er
				x, _, _ := c.runHandler(h, c.stageHook())
				c.stageErr = nil
				rs = append(rs, x...)
			}
		}
		return
	}})
	// storage API
	for _, rel := range []string{pStore, pRing} {
		pk := e.byPath[modPath+"/"+rel]
		if pk == nil {
			continue
		}
		for _, f := range fnsOf(e, pk) {
			if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 {
				continue
			}
			out = append(out, entry{"api " + shortFn(f.String()), c.at(f.Pos()), func() []callRes {
				st := e.newState()
				var args []*Term
				for i, p := range f.Params {
					nm := fmt.Sprintf("arg%d", i)
					if i == 0 && f.Signature.Recv() != nil {
						nm = "recv"
						if strings.Contains(p.Type().String(), "DeviceCache") {
							args = append(args, c.deviceCache(st))
							continue
						}
						if strings.Contains(p.Type().String(), "GeoCache") {
							args = append(args, c.geoCache(st))
							continue
						}
						if strings.Contains(p.Type().String(), "DeviceParamsCache") {
							args = append(args, c.single(st.clone(), pStore, "GetDeviceParamsCache"))
							continue
						}
					}
					a := Sym(nm, p.Type())
					if _, ok := p.Type().Underlying().(*types.Pointer); ok {
						e.nonNil(st, a)
					}
					args = append(args, a)
				}
				return conv(c.run(st, f, args...))
			}})
		}
	}
	// one-time initialisers and the goroutines they start
	out = append(out, entry{"initialisers", "internal/storage", func() (rs []callRes) {
		n := 0
		for _, rel := range []string{pStore, pProto} {
			pk := e.byPath[modPath+"/"+rel]
			for _, f := range fnsOf(e, pk) {
				if f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
					continue
				}
				if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				n++
				type g struct {
					st *State
					ev *Event
				}
				var gos []g
				prev := e.onEvent
				e.onEvent = func(s *State, ev *Event) {
					if prev != nil {
						prev(s, ev)
					}
					if ev.Kind == "go" {
						gos = append(gos, g{s.clone(), ev})
					}
				}
				e.execOnce = true
				rs = append(rs, conv(c.run(e.newState(), f))...)
				e.execOnce = false
				e.onEvent = prev
				for _, x := range gos {
					x.st.events = nil
					e.pathCount = 0
					// by the time the goroutine runs the singletons are
					// the shared ones every other goroutine sees
					for b := range x.st.heap {
						if rootOf(b).K == KGlobal {
							delete(x.st.heap, b)
						}
					}
					x.st.locks = map[*Term]int{}
					rs = append(rs, e.invoke(x.st, nil, x.ev.Args[0], x.ev.Args[1:], nil)...)
				}
			}
		}
		if n == 0 {
			giveUp("no initialiser found")
		}
		return
	}})
	for i := range out {
		if out[i].name != "initialisers" {
			out[i].run = c.withGoroutines(out[i].run)
		}
	}
	return out
}

// goKey names the code a go statement starts.
func goKey(args []*Term) string {
	k := ""
	for _, a := range args {
		if a.K == KFunc || a.K == KClosure {
			k += a.S + " "
		}
	}
	return k
}

// withGoroutines adds the goroutines an entry starts on the way; the connection
// goroutines of the accept loop are an entry of their own.
func (c *Check) withGoroutines(run func() []callRes) func() []callRes {
	return func() []callRes {
		e := c.e
		conn := map[string]bool{}
		prev := e.onEvent
		e.onEvent = nil
		for _, r := range c.acceptRuns() {
			conn[goKey(append([]*Term{r.fn}, r.args...))] = true
		}
		type g struct {
			st *State
			ev *Event
		}
		var gos []g
		e.onEvent = func(s *State, ev *Event) {
			if prev != nil {
				prev(s, ev)
			}
			if ev.Kind == "go" && !conn[goKey(ev.Args)] && len(gos) < 64 {
				gos = append(gos, g{s.clone(), ev})
			}
		}
		rs := run()
		for i := 0; i < len(gos); i++ {
			x := gos[i]
			x.st.events = nil
			x.st.locks = map[*Term]int{}
			e.pathCount = 0
			rs = append(rs, e.invoke(x.st, nil, x.ev.Args[0], x.ev.Args[1:], nil)...)
		}
		e.onEvent = prev
		return rs
	}
}
