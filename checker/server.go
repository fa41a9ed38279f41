package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stageHook replaces the five pipeline components by their contracts: each may
// succeed with an arbitrary value or fail with an arbitrary error.
const stageKind = "stage"

func stageOf(name string) string {
	p := pkgOf(name)
	if p != modPath+"/"+pProto {
		return ""
	}
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.HasPrefix(name, "(") {
		return ""
	}
	recv := name[1:i]
	switch m := name[i+1:]; m {
	case "Recv", "Send":
		if strings.Contains(recv, "FrameHandler") {
			return m
		}
	case "Decode", "Encode":
		if strings.Contains(recv, "PacketCodec") {
			return m
		}
	case "Process":
		if strings.Contains(recv, "MsgProcessor") {
			return m
		}
	}
	return ""
}

type stageRes struct {
	val  *Term
	fail bool
}

func (c *Check) stageHook() func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
	e := c.e
	pdT := e.needTyp(pModel, "ProcessData")
	pkT := e.needTyp(pModel, "PacketData")
	frT := e.needTyp(pProto, "FramePayload")
	msgT := e.needTyp(pModel, "JT808Msg")
	return func(_ *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		sg := stageOf(name)
		if sg == "" {
			return nil, false
		}
		var rs []callRes
		add := func(tag string, val *Term, ok bool, prep func(s *State)) {
			s := st.clone()
			er := Nil
			if !ok {
				er = Sym("err:stage."+sg, nil)
				if c.stageErr != nil {
					er = c.stageErr
				}
			}
			if prep != nil {
				prep(s)
			}
			s.emit(&Event{Kind: stageKind, Name: sg, Args: args, Res: Tuple(or(val, Nil), er), Pos: ci.Pos()})
			if sg == "Send" {
				rs = append(rs, callRes{st: s, val: er})
				return
			}
			rs = append(rs, callRes{st: s, val: Tuple(val, er)})
		}
		switch sg {
		case "Recv":
			fr := Sym("frame", frT)
			add("ok", fr, true, nil)
			add("err", Nil, false, nil)
		case "Decode":
			pk := Sym("packet", ptrTo(pkT))
			add("ok", pk, true, func(s *State) { e.nonNil(s, pk) })
			add("err", Nil, false, nil)
		case "Process":
			d := Sym("data", ptrTo(pdT))
			reply := Sym("reply", msgT)
			add("reply", d, true, func(s *State) { e.nonNil(s, d); e.nonNil(s, reply); s.set(d, pdT, "Outgoing", reply) })
			add("noreply", d, true, func(s *State) { e.nonNil(s, d); s.set(d, pdT, "Outgoing", Nil) })
			add("nodata", Nil, true, nil)
			add("err+data", d, false, func(s *State) { e.nonNil(s, d); e.nonNil(s, reply); s.set(d, pdT, "Outgoing", reply) })
			add("err", Nil, false, nil)
		case "Encode":
			b := Sym("bytes", types.NewSlice(types.Typ[types.Uint8]))
			add("ok", b, true, nil)
			add("err", Nil, false, nil)
		case "Send":
			add("ok", nil, true, nil)
			add("err", nil, false, nil)
		}
		return rs, true
	}
}

func or(a, b *Term) *Term {
	if a == nil {
		return b
	}
	return a
}

// newPipeline interprets NewPipeline on a symbolic connection.
func (c *Check) newPipeline() (*State, *Term, *Term) {
	e := c.e
	f := e.needFn(pProto, "NewPipeline")
	st := e.newState()
	conn := Sym("conn", f.Params[0].Type())
	e.nonNil(st, conn)
	for _, o := range c.run(st, f, conn) {
		if o.kind == outRet {
			o.st.events = nil
			return o.st, o.vals[0], conn
		}
	}
	giveUp("NewPipeline yields no value")
	return nil, nil, nil
}

func stages(st *State) (out []*Event) {
	for _, ev := range st.events {
		if ev.Kind == stageKind {
			out = append(out, ev)
		}
	}
	return
}

// runPipeline analyses one of the two pipeline entry points.
func (c *Check) runPipeline(method string, readSide bool) (outs []Out, ctx, sess, reply *Term, where string) {
	e := c.e
	st, pg, _ := c.newPipeline()
	ctx, sess = e.ctxWithSession(st)
	pdT := e.needTyp(pModel, "ProcessData")
	if !readSide {
		d := Sym("data", ptrTo(pdT))
		e.nonNil(st, d)
		reply = Sym("reply", e.needTyp(pModel, "JT808Msg"))
		e.nonNil(st, reply)
		st.set(d, pdT, "Outgoing", reply)
		kT := e.needTyp(pModel, "ProcessDataCtxKey")
		ctx = mk(Term{K: KCtx, A: []*Term{mk(Term{K: KCtx, S: "bg"}), mk(Term{K: KIface, T: kT, A: []*Term{Struct(kT, nil)}}), mk(Term{K: KIface, T: ptrTo(pdT), A: []*Term{d}})}})
	}
	f := e.needMethod(pProto, "Pipeline", method)
	for _, er := range c.knownErrors() {
		c.stageErr = er
		e.callHook = c.stageHook()
		outs = append(outs, c.run(st.clone(), f, pg, ctx)...)
	}
	c.stageErr = nil
	e.callHook = nil
	return outs, ctx, sess, reply, c.fnAt(f)
}

// knownErrors are the errors a stage can fail with: one nobody knows (nil
// here), every error variable of the module, those of the network and io
// packages, and each of them wrapped.
func (c *Check) knownErrors() []*Term {
	e := c.e
	var names [][2]string
	for path, pk := range e.byPath {
		if !strings.HasPrefix(path, modPath+"/") {
			continue
		}
		for n, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if ok && types.Identical(g.Type().(*types.Pointer).Elem(), errType) && token.IsExported(n) {
				names = append(names, [2]string{path, n})
			}
		}
	}
	for _, n := range []string{"EOF", "ErrUnexpectedEOF", "ErrClosedPipe", "ErrShortWrite", "ErrNoProgress", "ErrShortBuffer"} {
		names = append(names, [2]string{"io", n})
	}
	names = append(names, [2]string{"net", "ErrClosed"}, [2]string{"os", "ErrDeadlineExceeded"}, [2]string{"os", "ErrClosed"}, [2]string{"syscall", "EPIPE"}, [2]string{"syscall", "ECONNRESET"}, [2]string{"context", "Canceled"}, [2]string{"context", "DeadlineExceeded"}, [2]string{"bufio", "ErrBufferFull"}, [2]string{"bufio", "ErrNegativeCount"})
	// and any other error variable of a library the module names
	seen := map[[2]string]bool{}
	for _, n := range names {
		seen[n] = true
	}
	for f := range e.allFns {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var buf [10]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || !token.IsExported(g.Name()) || !types.Identical(g.Type().(*types.Pointer).Elem(), errType) {
						continue
					}
					if n := [2]string{g.Pkg.Pkg.Path(), g.Name()}; !seen[n] {
						seen[n] = true
						names = append(names, n)
					}
				}
			}
		}
	}
	sort.Slice(names, func(i, j int) bool { return names[i][0]+names[i][1] < names[j][0]+names[j][1] })
	out := []*Term{nil}
	for _, n := range names {
		er := ErrSentinel(n[0], n[1])
		out = append(out, er, mk(Term{K: KWrap, A: []*Term{er, StrC("context")}}))
	}
	return out
}

// rootErr is the error at the bottom of a wrapped one.
func rootErr(t *Term) *Term {
	for t.K == KWrap {
		t = t.A[0]
	}
	return t
}

// pipelineStopsOnError: a stage error ends the pass, is returned, and nothing is sent.
func (c *Check) pipelineStopsOnError(rule string) {
	c.guard(rule, "read pipeline", "internal/protocol/pipeline.go", func() {
		outs, _, _, _, where := c.runPipeline("ProcessConnRead", true)
		n := 0
		for _, o := range outs {
			sg := stages(o.st)
			failed := -1
			for i, s := range sg {
				if !isNil(s.Res.A[1]) {
					failed = i
					break
				}
			}
			if failed < 0 {
				continue
			}
			n++
			er := sg[failed].Res.A[1]
			c.must(failed == len(sg)-1, rule, "after "+sg[failed].Name, where, "after %s fails with %s the pipeline goes on with %s", sg[failed].Name, er, sg[len(sg)-1].Name)
			c.must(o.kind == outRet && o.st.decide(c.e.errIs(o.st, o.vals[0], rootErr(er))) == 1, rule, "error of "+sg[failed].Name, where, "the error %s of %s is not what the caller gets", er, sg[failed].Name)
		}
		c.must(n > 0, rule, "read pipeline", where, "no failing outcome analysed")
	})
}

// ---- the connection goroutine ----

type connRun struct {
	st   *State // state at the go statement
	fn   *Term  // goroutine function
	args []*Term
	sess *Term
	conn *Term
	rec  *Term // the session record
	pos  string
}

// acceptRuns analyses the accept loop and returns the goroutines it starts.
func (c *Check) acceptRuns() []connRun {
	e := c.e
	f := e.needMethod(pServ, "TCPServer", "Start")
	st := e.newState()
	serv := Sym("serv", f.Params[0].Type())
	e.nonNil(st, serv)
	var runs []connRun
	prev := e.onEvent
	e.onEvent = func(s *State, ev *Event) {
		if prev != nil {
			prev(s, ev)
		}
		if ev.Kind == "go" {
			runs = append(runs, connRun{st: s.clone(), fn: ev.Args[0], args: ev.Args[1:], pos: e.pos(ev.Pos)})
		}
	}
	c.run(st, f, serv)
	e.onEvent = prev
	for i := range runs {
		runs[i].st.locks = map[*Term]int{}
	}
	return runs
}
