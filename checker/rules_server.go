package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// withTimer performs the one-time initialisation of the keepalive timer.
func (c *Check) withTimer(st *State) *State {
	e := c.e
	f := e.fn(pProto, "NewKeepaliveTimer")
	if f == nil {
		return st
	}
	e.execOnce = true
	outs := e.call(st.clone(), f, nil, nil, nil)
	e.execOnce = false
	for _, o := range outs {
		if o.kind == outRet {
			return o.st
		}
	}
	return st
}

// serveOuts runs a connection goroutine with the read pipeline answering as
// given and returns its outcomes.
func (c *Check) serveOuts(r connRun, answer func(st *State) []callRes) []callRes {
	e := c.e
	name := "(*" + modPath + "/" + pProto + ".Pipeline).ProcessConnRead"
	n := 0
	e.callHook = func(_ *Engine, st *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if nm != name {
			return nil, false
		}
		n++
		rs := answer(st)
		for _, x := range rs {
			x.st.emit(&Event{Kind: stageKind, Name: "ProcessConnRead", Args: args, Pos: ci.Pos()})
		}
		return rs, true
	}
	e.pathCount = 0
	outs := e.invoke(r.st.clone(), nil, r.fn, r.args, nil)
	e.callHook = nil
	e.pathsTotal += len(outs)
	if n == 0 {
		giveUp("the connection goroutine started at %s never reads from the connection", r.pos)
	}
	return outs
}

// closedAndForgotten: the outcome closed the session's connection and removed
// the session from the registry.
func (c *Check) closedAndForgotten(st *State, sessMap *Term, r connRun) (closed, removed bool) {
	for _, ev := range st.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "(net.Conn).Close") && ev.Args[0] == r.conn {
			closed = true
		}
		if ev.Kind == "mapdel" && ev.Args[0] == sessMap && sameTerm(st, ev.Args[1], r.sess) {
			removed = true
		}
	}
	return
}

// withSession fills in the connection and session key of each goroutine.
func (c *Check) connRuns(sessMap *Term) []connRun {
	runs := c.acceptRuns()
	sT := c.e.needTyp(pModel, "Session")
	for i := range runs {
		for _, ev := range runs[i].st.events {
			if ev.Kind == "mapset" && ev.Args[0] == sessMap {
				runs[i].sess = ev.Args[1]
				runs[i].rec = ev.Args[2]
				runs[i].conn = runs[i].st.get(ev.Args[2], sT, "Conn")
			}
		}
		if runs[i].sess == nil {
			giveUp("the goroutine at %s starts before its session is registered", runs[i].pos)
		}
	}
	if len(runs) == 0 {
		giveUp("the accept loop starts no goroutine")
	}
	return runs
}

// serveClosesOn: when the pipeline reports one of the errors (wrapped or not),
// the goroutine ends, the connection is closed and the session removed.
func (c *Check) serveClosesOn(rule string, sentinels [][2]string) {
	for _, s := range sentinels {
		er := ErrSentinel(s[0], s[1])
		wrapped := mk(Term{K: KWrap, A: []*Term{er, StrC("context")}})
		for _, v := range []struct {
			n string
			e *Term
		}{{"", er}, {" wrapped", wrapped}} {
			inst := shortFn(s[0]) + "." + s[1] + v.n
			c.guard(rule, inst, "internal/server/tcp_server.go", func() {
				reg := c.registries()
				for _, r := range c.connRuns(reg.sess) {
					outs := c.serveSeq(r, []*Term{v.e}, -1)
					c.must(len(outs) > 0, rule, inst, r.pos, "after this error the connection goroutine keeps reading")
					for _, o := range outs {
						c.must(o.kind != outExit, rule, inst, r.pos, "after this error the connection goroutine reads again")
						if o.kind == outExit {
							continue
						}
						closed, removed := c.closedAndForgotten(o.st, reg.sess, r)
						c.must(closed, rule, inst, r.pos, "after this error the connection is not closed")
						c.must(removed, rule, inst, r.pos, "after this error the session is not removed")
					}
				}
			})
		}
	}
}

// ---- keepalive ----

type jobRun struct {
	outs  []Out
	phone *Term
	st    *State // state before the job
	where string
}

// keepalive analyses the job that registration hands to the timer, at an
// arbitrary later moment.
func (c *Check) keepalive(r *registries, prep func(*State)) *jobRun {
	e := c.e
	p := c.process(r, 0x0100, fragNone, nil)
	var jr *jobRun
	done := map[string]bool{}
	for _, o := range p.outs {
		if o.kind != outRet || p.failed(o) {
			continue
		}
		for _, ev := range timerAdds(o.st) {
			job := ev.Args[len(ev.Args)-1] // a job, or a function
			// every kind of job that some registration adds, once
			key := job.String()
			if job.K == KIface {
				key = job.T.String()
				if pt, ok := job.T.Underlying().(*types.Pointer); ok {
					if sT, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < sT.NumFields(); i++ {
							key += " " + o.st.get(job.A[0], pt.Elem(), sT.Field(i).Name()).String()
						}
					}
				}
			}
			if done[key] {
				continue
			}
			done[key] = true
			st := p.pre.clone()
			st.events = nil
			for b, ob := range o.st.heap {
				if _, ok := st.heap[b]; !ok && b.K == KAlloc {
					st.heap[b] = ob
				}
			}
			if prep != nil {
				prep(st)
			}
			if jr == nil {
				jr = &jobRun{phone: p.pk.phone, st: st.clone()}
			}
			switch {
			case job.K == KIface:
				m := e.methodOf(job.T, "Run")
				if m == nil {
					giveUp("the keepalive job has no Run method")
				}
				jr.where = c.fnAt(m)
				jr.outs = append(jr.outs, c.run(st, m, job.A[0])...)
			case job.K == KFunc || job.K == KClosure:
				f := job.P.(*ssa.Function)
				jr.where = c.fnAt(f)
				e.pathCount = 0
				jr.outs = append(jr.outs, e.call(st, f, nil, job.A, nil)...)
			default:
				giveUp("keepalive job of unknown form %s", job)
			}
		}
	}
	if jr != nil {
		return jr
	}
	giveUp("registration adds no keepalive job")
	return nil
}

// timerAdds gives the calls that add a job to the timer.
func timerAdds(st *State) (out []*Event) {
	for _, ev := range st.events {
		if ev.Kind == "call" && strings.Contains(ev.Name, "gron.Cron).Add") {
			out = append(out, ev)
		}
	}
	return
}
