package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register("C12", "Path-sensitive analysis of the supervision job that registration hands to the timer, at an arbitrary later moment: every outcome is classified by the facts registered/offline/expired (expired: a linear fact over now, last communication and keepalive) and its effect set compared with the documented one; value-flow of the refresh done by heartbeat, position report and authentication.", 25, checkC12)
}

// ratio of each atom in a linear fact, with divisions by constants folded in.
func weights(t *Term, w *big.Rat, out map[*Term]*big.Rat) *big.Rat {
	l := toLin(t)
	k := new(big.Rat).Mul(w, new(big.Rat).SetInt64(l.k))
	for a, c := range l.m {
		wa := new(big.Rat).Mul(w, new(big.Rat).SetInt64(c))
		if a.K == KOp && a.S == "div" && a.A[1].K == KInt && a.A[1].I > 0 {
			ka := weights(a.A[0], new(big.Rat).Quo(wa, new(big.Rat).SetInt64(a.A[1].I)), out)
			k.Add(k, ka)
			continue
		}
		if out[a] == nil {
			out[a] = new(big.Rat)
		}
		out[a].Add(out[a], wa)
	}
	return k
}

// expiry looks for the fact that compares now with last+keepalive: 1 the path
// knows the keepalive has passed, -1 it knows it has not, 0 neither. The clock
// may be read more than once and does not run backwards: 2 says that the
// keepalive passed between two readings, 3 that the path cannot be taken.
func expiry(st *State, keep, last *Term) int {
	res := 0
	var firstYes, lastNo int64 = -1, -1
	for _, f := range st.order {
		neg := false
		if f.K == KNot {
			neg, f = true, f.A[0]
		}
		if f.K != KGe0 {
			continue
		}
		ws := map[*Term]*big.Rat{}
		k := weights(f.A[0], big.NewRat(1, 1), ws)
		var now, kw, lw *big.Rat
		var when int64
		ok := true
		for a, w := range ws {
			switch {
			case w.Sign() == 0:
			case a == keep:
				kw = w
			case a == last:
				lw = w
			case isTimeNow(a) && now == nil:
				now = w
				eachTerm(a, map[*Term]bool{}, func(x *Term) {
					if x.K == KCall && strings.Contains(x.S, "time.Now") {
						when = x.I
					}
				})
			default:
				ok = false
			}
		}
		if !ok || now == nil || kw == nil || lw == nil {
			continue
		}
		if kw.Cmp(lw) != 0 || new(big.Rat).Neg(kw).Cmp(now) != 0 {
			continue
		}
		// threshold: at most one second of slack
		slack := new(big.Rat).Quo(k, now)
		slack.Abs(slack)
		if slack.Cmp(big.NewRat(1000000000, 1)) > 0 {
			continue
		}
		truth := now.Sign() > 0
		if neg {
			truth = !truth
		}
		v := -1
		if truth {
			v = 1
		}
		if v == 1 && (firstYes < 0 || when < firstYes) {
			firstYes = when
		}
		if v == -1 && when > lastNo {
			lastNo = when
		}
		res = v
	}
	switch {
	case firstYes < 0 || lastNo < 0:
		return res
	case firstYes < lastNo:
		return 3
	}
	return 2
}

func checkC12(c *Check) {
	c.guard("supervision", "job", "internal/protocol/keepalive.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		j := c.keepalive(r, nil)
		phone := j.phone
		has := mk(Term{K: KHas, A: []*Term{r.phone, phone, Int(0)}})
		rec := mk(Term{K: KGet, A: []*Term{r.phone, phone, Int(0)}, T: ptrTo(r.devT)})
		pre := j.st
		status := pre.get(rec, r.devT, "Status")
		keep := pre.get(rec, r.devT, "Keepalive")
		last := nsOf(pre.get(rec, r.devT, "LastestComTime"))
		old := c.devFields(pre, rec, r.devT)
		plate := old["Plate"]
		seen := map[string]int{}
		for _, o := range j.outs {
			if !c.must(o.kind == outRet, "supervision-ends", "job", j.where, "the supervision job ends by %s at %s", o.why, c.at(o.pos)) {
				continue
			}
			st := o.st
			ef := effectsOf(st.events, nil)
			cancels := callsNamed(st, "gron.Cron).Cancel")
			cancelled := false
			for _, ev := range cancels {
				if sameTerm(st, ev.Args[1], phone) {
					cancelled = true
				} else {
					c.fail("only-own", "cancel", c.at(ev.Pos), "the job cancels %s, not its own phone", ev.Args[1])
				}
			}
			exp, off := expiry(st, keep, last), st.decide(EqInt(status, Int(0), st))
			if exp == 3 {
				continue
			}
			if exp == 2 { // either reading may decide
				exp = 1
				if len(ef) == 0 {
					exp = -1
				}
			}
			switch {
			case st.decide(has) == -1:
				seen["gone"]++
				c.must(cancelled && len(ef) == len(cancels), "gone", "effects", j.where, "for a terminal that is no longer registered the job does: %s", evString(c.e, ef))
			case st.decide(has) != 1:
				c.fail("supervision", "job", j.where, "an outcome does not look up the terminal")
			case exp == -1:
				seen["fresh"]++
				c.must(len(ef) == 0, "not-expired", "no effect", j.where, "before the keepalive has passed the job does: %s", evString(c.e, ef))
			case exp == 1 && off == -1:
				seen["expired"]++
				c.must(!cancelled, "expired", "supervision continues", j.where, "supervision is cancelled when the terminal goes offline")
				c.must(len(callsNamed(st, ".Close")) == 0, "expired", "connection kept", j.where, "the connection is closed as soon as the terminal goes offline")
				for _, q := range []struct {
					m   string
					key *Term
				}{{"GetDeviceByPhone", phone}, {"GetDeviceByPlate", plate}} {
					for _, v := range c.lookupDevice(st, q.m, q.key) {
						if !c.must(v.found, "expired", q.m, j.where, "after the keepalive has passed the terminal is not found by %s", q.m) {
							continue
						}
						f := c.devFields(v.st, v.rec, r.devT)
						for k, w := range old {
							if k == "Status" {
								w = Int(0)
							}
							c.must(sameTerm(v.st, f[k], w), "expired-record", k+" "+q.m, j.where, "after the keepalive has passed %s = %s, expected %s", k, f[k], w)
						}
					}
				}
			case exp == 1 && off == 1:
				seen["cleared"]++
				closed := false
				for _, ev := range callsNamed(st, "(net.Conn).Close") {
					if ev.Args[0] == old["Conn"] {
						closed = true
					}
				}
				c.must(closed, "cleared", "connection", j.where, "the connection of a terminal that stayed offline is not closed")
				c.must(cancelled, "cleared", "job", j.where, "supervision of a cleared terminal is not cancelled")
				for _, v := range c.lookupDevice(st, "GetDeviceByPhone", phone) {
					c.must(!v.found, "cleared", "by phone", j.where, "a cleared terminal is still found by phone")
				}
				for _, v := range c.lookupDevice(st, "GetDeviceByPlate", plate) {
					c.must(!v.found, "cleared", "by plate", j.where, "a cleared terminal is still found by plate")
				}
				s := st.clone()
				for _, q := range c.run(s, c.e.needMethod(pStore, "GeoCache", "GetGeoLatestByPhone"), c.geoCache(s), phone) {
					c.must(q.kind == outRet && !isNil(q.vals[1]), "cleared", "position", j.where, "the position history of a cleared terminal is kept")
				}
				for _, ev := range st.events {
					if ev.Kind == "mapdel" {
						c.must(sameTerm(st, ev.Args[1], phone) || sameTerm(st, ev.Args[1], plate), "only-own", "mapdel", c.at(ev.Pos), "key %s of another terminal is removed", ev.Args[1])
					}
				}
			default:
				c.fail("supervision", "decided by expiry and status", j.where, "an outcome is decided without comparing now with last communication plus keepalive, or without the status: %s; effects %s", st.factsString(), evString(c.e, ef))
			}
		}
		for _, k := range []string{"gone", "fresh", "expired", "cleared"} {
			c.must(seen[k] > 0, "class", k, j.where, "no outcome of the job for the case %s", k)
		}
	})
	// the job runs every keepalive
	c.guard("period", "0x0100", "internal/protocol/keepalive.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		p := c.process(r, 0x0100, fragNone, nil)
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet {
				continue
			}
			adds := timerAdds(o.st)
			want := 0
			if len(c.storedDevices(o.st, r)) > 0 && !p.failed(o) {
				want = 1
			}
			c.must(len(adds) == want, "one-job", "0x0100", p.fn, "a registration that stores %d terminals adds %d supervision jobs", want, len(adds))
			for _, ev := range adds {
				n++
				c.checkJob(o.st, ev, p.pk.phone, p.fn)
				var keep *Term
				for _, v := range c.lookupDevice(o.st, "GetDeviceByPhone", p.pk.phone) {
					if v.found {
						f := c.devFields(v.st, v.rec, r.devT)
						keep = f["Keepalive"]
						c.must(isTimeNow(f["LastestComTime"]), "registered-record", "LastestComTime", p.fn, "last communication time after a registration is %s, expected now", f["LastestComTime"])
					}
				}
				sched := ev.Args[1]
				ok := false
				for _, ea := range callsNamed(o.st, "gron.Every") {
					if len(ea.Args) == 1 && keep != nil && sameTerm(o.st, ea.Args[0], keep) && occurs(sched, func(t *Term) bool { return t == ea.Res }) {
						ok = true
					}
				}
				if keep != nil && occurs(sched, func(t *Term) bool {
					return t.K == KCall && strings.HasSuffix(t.S, "gron.Every") && len(t.A) == 1 && sameTerm(o.st, t.A[0], keep)
				}) {
					ok = true
				}
				c.must(ok, "period", "0x0100", c.at(ev.Pos), "the job is scheduled %s, expected every keepalive %s", sched, keep)
			}
		}
		c.must(n > 0, "period", "0x0100", p.fn, "no keepalive job is scheduled")
		// the timer is started
		st := c.withTimer(c.e.newState())
		c.must(len(callsNamed(st, "gron.Cron).Start")) == 1, "timer-started", "timer", "internal/protocol/keepalive.go", "the timer is not started exactly once")
	})
	// nothing else adds a job, unless it replaces the one there is
	var rest []int64
	for _, id := range allIDs() {
		if id != 0x0100 {
			rest = append(rest, id)
		}
	}
	c.eachProcess(fragNone, rest, "one-job", func(d dispatch, p *procRun) {
		for _, o := range p.outs {
			c.noExtraJob(o.st, idName(d.id), p.pk.phone)
		}
		c.pass("one-job", idName(d.id), p.fn)
	})
	// heartbeat refreshes
	c.eachProcess(fragNone, []int64{0x0002}, "refresh", func(d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || o.st.undec || debugSerialiseFailure(o.st) || !p.registered(o.st) {
				continue
			}
			if p.failed(o) {
				c.fail("handled", idName(d.id), p.fn, "the message of a registered terminal ends with error %s", o.vals[1])
				continue
			}
			n++
			c.refreshed("refresh", idName(d.id), o.st, p, nil)
		}
		c.must(n > 0, "refresh", idName(d.id), p.fn, "no outcome for a registered terminal")
	})
	// position report: ACC off puts the terminal to sleep and refreshes, ACC on leaves the record
	c.eachProcess(fragNone, []int64{0x0200}, "sleep", func(d dispatch, p *procRun) {
		on, offn := 0, 0
		for _, o := range p.outs {
			if o.kind != outRet || o.st.undec || debugSerialiseFailure(o.st) || !p.registered(o.st) {
				continue
			}
			if p.failed(o) {
				c.fail("handled", idName(d.id), p.fn, "the message of a registered terminal ends with error %s", o.vals[1])
				continue
			}
			_, in, inT := c.incoming(o.st, o.vals[0])
			if in == nil {
				continue
			}
			sign := o.st.get(in, inT, "StatusSign")
			acc := andMask(sign, 1, o.st)
			switch o.st.decide(EqInt(acc, Int(0), o.st)) {
			case 1:
				offn++
				c.refreshed("sleep", "acc off", o.st, p, Int(2))
			case -1:
				on++
				// refreshing is welcome, a status change is not
				rec := mk(Term{K: KGet, A: []*Term{p.reg.phone, p.pk.phone, Int(0)}, T: ptrTo(p.reg.devT)})
				prev := p.pre.get(rec, p.reg.devT, "Status")
				for _, v := range c.lookupDevice(o.st, "GetDeviceByPhone", p.pk.phone) {
					if c.must(v.found, "awake", "acc on", p.fn, "after a position report the terminal is not found") {
						f := c.devFields(v.st, v.rec, p.reg.devT)
						c.must(sameTerm(v.st, f["Status"], prev), "awake", "acc on", p.fn, "a position report with ACC on changes the status to %s", f["Status"])
					}
				}
			default:
				c.fail("sleep", "acc", p.fn, "a position report is handled without looking at the ACC bit")
			}
		}
		c.must(on > 0 && offn > 0, "sleep", "classes", p.fn, "no outcome for ACC on or off (%d, %d)", on, offn)
	})
}

// refreshed: the record of the sender has last communication now, status as
// given (nil: unchanged) and everything else as before.
func (c *Check) refreshed(rule, inst string, st *State, p *procRun, status *Term) {
	r := p.reg
	rec := mk(Term{K: KGet, A: []*Term{r.phone, p.pk.phone, Int(0)}, T: ptrTo(r.devT)})
	old := c.devFields(p.pre.clone(), rec, r.devT)
	for _, q := range []struct {
		m   string
		key *Term
	}{{"GetDeviceByPhone", p.pk.phone}, {"GetDeviceByPlate", old["Plate"]}} {
		for _, v := range c.lookupDevice(st, q.m, q.key) {
			if !c.must(v.found, rule+"-present", q.m, p.fn, "afterwards the terminal is not found by %s", q.m) {
				continue
			}
			f := c.devFields(v.st, v.rec, r.devT)
			for k, w := range old {
				switch {
				case k == "LastestComTime":
					c.must(isTimeNow(f[k]), rule+"-record", k+" "+q.m, p.fn, "last communication time afterwards is %s, expected now", f[k])
					continue
				case k == "Status" && status != nil:
					w = status
				}
				c.must(sameTerm(v.st, f[k], w), rule+"-record", fmt.Sprintf("%s %s", k, q.m), p.fn, "%s afterwards is %s, expected %s", k, f[k], w)
			}
		}
	}
	for _, ev := range c.regEvents(st, r, "mapdel") {
		c.fail(rule, inst, c.at(ev.Pos), "a registry entry is removed")
	}
	var _ types.Type
}

// noExtraJob: a job is only added right after the job of the same phone was
// cancelled.
func (c *Check) noExtraJob(st *State, inst string, phone *Term) {
	free := 0
	for _, ev := range st.events {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.Contains(ev.Name, "gron.Cron).Cancel") && sameTerm(st, ev.Args[1], phone):
			free = 1
		case strings.Contains(ev.Name, "gron.Cron).Add"):
			if c.must(free > 0, "one-job", inst, c.at(ev.Pos), "a second supervision job is added for a terminal") {
				c.checkJob(st, ev, phone, c.at(ev.Pos))
			}
			free = 0
		}
	}
}
