package main

import (
	"fmt"
	"sort"
	"strings"
)

// C28: reading, deciding and updating are one step.

func init() {
	register("C28", "Path-sensitive analysis of every message handler and of the supervision job with shared maps assumed to change whenever no lock is held: for every write to the registries, some shared lock is held without a break from the lookups whose results the write stores or was decided by up to the write, and one lock serves all entry points.", 20, checkC28)
}

// eachTerm visits t and all its parts.
func eachTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.A {
		eachTerm(a, seen, f)
	}
}

// section gives the events of the critical section of l that contains event i.
func section(st *State, i int, l *Term) (lo, hi int) {
	held := false
	for _, x := range st.events[i].Locks {
		held = held || x == l
	}
	if !held {
		return -1, -1
	}
	lo, hi = -1, len(st.events)
	for j := i; j >= 0; j-- {
		ev := st.events[j]
		if (ev.Kind == "unlock" || ev.Kind == "lock") && len(ev.Args) > 0 && ev.Args[0] == l {
			if ev.Kind == "lock" {
				lo = j
			}
			break
		}
	}
	for j := i; j < len(st.events); j++ {
		ev := st.events[j]
		if ev.Kind == "unlock" && len(ev.Args) > 0 && ev.Args[0] == l {
			hi = j
			break
		}
	}
	return lo, hi
}

func checkC28(c *Check) {
	e := c.e
	type site struct {
		inst, where, what string
		locks             map[*Term]bool
	}
	var sites []site
	common := map[*Term]int{}
	var analyse func(inst string, r *registries, outs []Out, depth int) int
	analyse = func(inst string, r *registries, outs []Out, depth int) (writes int) {
		shared := func(m *Term) bool { return m == r.phone || m == r.plate || m == r.geo }
		index := func(m *Term) bool { return m == r.phone || m == r.plate }
		for _, o := range outs {
			if o.kind != outRet {
				continue
			}
			st := o.st
			// what the path starts runs later, with no lock of the path held
			for _, w := range st.events {
				if w.Kind != "go" || depth > 2 || w.Args[0].K != KFunc && w.Args[0].K != KClosure {
					continue
				}
				s := st.clone()
				s.events = nil
				s.locks = map[*Term]int{}
				s.epoch = int(e.stamp())
				var later []Out
				e.pathCount = 0
				for _, rr := range e.invoke(s, nil, w.Args[0], w.Args[1:], nil) {
					later = append(later, Out{st: rr.st, kind: rr.kind, why: rr.why, pos: rr.pos})
				}
				writes += analyse(inst+" goroutine", r, later, depth+1)
			}
			for i, w := range st.events {
				timer := w.Kind == "call" && (strings.Contains(w.Name, "gron.Cron).Add") || strings.Contains(w.Name, "gron.Cron).Cancel"))
				if !timer && (!(w.Kind == "mapset" || w.Kind == "mapdel") || !shared(w.Args[0])) {
					continue
				}
				writes++
				// what the write depends on: the record stored and the facts of the path
				var deps []*Term
				if w.Kind == "mapset" && index(w.Args[0]) {
					rec := w.Args[2]
					deps = append(deps, rec)
					for _, v := range c.devFields(st, rec, r.devT) {
						deps = append(deps, v)
					}
				}
				n := w.NF
				if n > len(st.order) {
					n = len(st.order)
				}
				facts := append(append([]*Term(nil), st.order[:n]...), st.lin...)
				reads := func(t *Term) (gs []*Term) {
					eachTerm(t, map[*Term]bool{}, func(x *Term) {
						if (x.K == KGet || x.K == KHas) && len(x.A) == 3 && index(x.A[0]) {
							gs = append(gs, x)
						}
					})
					return
				}
				ok := map[*Term]bool{}
				why := "no shared lock is held"
				for _, l := range w.Locks {
					if b, _, _ := splitPtr(l); b.K == KAlloc {
						continue
					}
					lo, _ := section(st, i, l)
					if lo < 0 {
						continue
					}
					in := map[int64]bool{}
					any := false
					for j := lo; j <= i; j++ {
						in[int64(st.events[j].Epoch)] = true
						if g := st.events[j]; g.Kind == "mapget" && index(g.Args[0]) {
							any = true
						}
					}
					inside := func(g *Term) bool { return g.A[2].K == KInt && in[g.A[2].I/1000] }
					if !any {
						why = "the lock is not held while the registry is consulted"
						continue
					}
					bad := ""
					for _, d := range deps {
						for _, g := range reads(d) {
							if !inside(g) {
								bad = fmt.Sprintf("the stored record carries %s, read before the lock was taken", d)
							}
						}
					}
					// every decision taken from an earlier lookup was repeated inside
					for _, f := range facts {
						for _, g := range reads(f) {
							if bad == "" && g.A[0] == r.plate && keyedLock(l) {
								bad = fmt.Sprintf("the update was decided by %s, and the lock held is chosen by the terminal: another terminal changes the plate index under another lock", f)
							}
							if inside(g) || bad != "" {
								continue
							}
							again := false
							for j := lo; j <= i && !again; j++ {
								ev := st.events[j]
								if ev.Kind != "mapget" || ev.Args[0] != g.A[0] || ev.Args[1] != g.A[1] {
									continue
								}
								m := map[*Term]*Term{}
								for _, k := range []Kind{KHas, KGet} {
									from := mk(Term{K: k, A: g.A, T: g.T})
									to := mk(Term{K: k, A: []*Term{g.A[0], g.A[1], Int(int64(ev.Epoch) * 1000)}, T: g.T})
									m[from] = to
								}
								f2 := subst(f, m, st)
								want := 1
								if v, isf := st.facts[f]; isf && !v {
									want = -1
								}
								again = f2 != f && st.decide(f2) == want
							}
							if !again {
								bad = fmt.Sprintf("the update was decided by %s, read before the lock was taken", f)
							}
						}
					}
					if bad != "" {
						why = bad
						continue
					}
					ok[l] = true
				}
				what := w.Kind + " "
				if timer {
					what += shortFn(w.Name)
				} else {
					what += shortFn(w.Args[0].String())
				}
				if !c.must(len(ok) > 0, "one-step", inst+" "+what, c.at(w.Pos), "%s", why) {
					continue
				}
				sites = append(sites, site{inst, c.at(w.Pos), what, ok})
				for l := range ok {
					common[l]++
				}
			}
		}
		return
	}
	total := 0
	for _, id := range allIDs() {
		inst := idName(id)
		c.guard("one-step", inst, "internal/protocol/msg_processor.go", func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			e.interfere = true
			n := analyse(inst, r, c.process(r, id, fragNone, nil).outs, 0)
			total += n
			if n == 0 {
				c.pass("no-update", inst, "internal/protocol/msg_processor.go")
			}
		})
	}
	c.guard("one-step", "supervision", "internal/protocol/keepalive.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		e.interfere = true
		j := c.keepalive(r, nil)
		n := analyse("supervision", r, j.outs, 0)
		c.must(n > 0, "one-step", "supervision", j.where, "the job updates nothing")
		total += n
	})
	c.must(total >= 12, "one-step", "updates", "", "only %d updates analysed", total)
	// one lock for all of them
	best, cnt := (*Term)(nil), -1
	for l, n := range common {
		if n > cnt || n == cnt && l.String() < best.String() {
			best, cnt = l, n
		}
	}
	if best == nil {
		return
	}
	var bad []string
	for _, s := range sites {
		if !s.locks[best] {
			bad = append(bad, s.inst+" "+s.what+" at "+s.where)
			c.fail("common-lock", s.inst+" "+s.what, s.where, "the update is not made under %s, which guards the others (%d of %d)", shortFn(best.String()), cnt, len(sites))
		}
	}
	sort.Strings(bad)
	if len(bad) == 0 {
		c.pass("common-lock", shortFn(best.String()), "")
	}
}
