package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Effect analysis of drawing a serial number (one atomic increment of the session's own counter, or one critical section), exclusive ownership of the counter over all functions, and value-flow of the drawn number into every header the platform originates.", 6, checkC18)
	register("C19", "Path-sensitive analysis of the ring buffer over sequences of operations for small capacities and for the real one at every writer position; value-flow of a position report into the history and out of the query.", 40, checkC19)
	register("C20", "Bit-level value-flow analysis of position decoding and status encoding against the documented bit table and scales.", 40, checkC20)
}

// ---- C18 ----

func checkC18(c *Check) {
	e := c.e
	sT := e.needTyp(pModel, "Session")
	w := "internal/protocol/model/session.go"
	var fn *ssa.Function
	field := -1
	c.guard("draw", "next number", w, func() {
		fn = e.needMethod(pModel, "Session", "GetNextSerialNum")
		w = c.fnAt(fn)
		st := e.newState()
		s := Sym("session", ptrTo(sT))
		e.nonNil(st, s)
		e.traceLoads = true
		outs := c.run(st, fn, s)
		e.traceLoads = false
		n := 0
		for _, o := range outs {
			if !c.must(o.kind == outRet, "draw", "next number", w, "drawing a number ends by %s", o.why) {
				continue
			}
			n++
			f, ok, why := drawnOnce(o.st, s, o.vals[0])
			c.must(ok, "draw", "one indivisible increment", w, "%s", why)
			if ok {
				field = f
			}
		}
		c.must(n > 0, "draw", "next number", w, "no outcome")
	})
	if fn == nil || field < 0 {
		return
	}
	// nobody else touches the counter
	c.guard("owned", "counter", w, func() {
		own := e.reachable([]*ssa.Function{fn})
		for f := range e.allFns {
			if e.fnIsExternal(f) || own[f] || f.Synthetic != "" || strings.HasSuffix(e.fset.Position(f.Pos()).Filename, "_test.go") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fa.Field != field {
						continue
					}
					if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), sT) {
						c.fail("owned", "counter", c.at(fa.Pos()), "%s accesses the session's serial counter directly", shortFn(f.String()))
					}
				}
			}
		}
		c.pass("owned", "counter", w)
	})
	hT := e.needTyp(pModel, "MsgHeader")
	// the number drawn is the one sent
	sent := func(inst string, st *State, hdr *Term, sess *Term, where string) {
		if !c.must(hdr != nil && !isNil(hdr), "carried", inst, where, "the message has no header") {
			return
		}
		sn := st.get(hdr, hT, "SerialNumber")
		var draws []*Event
		for _, ev := range st.events {
			if ev.Kind == "atomic" && ev.Name != "Load" && !(ev.Name == "CompareAndSwap" && ev.Res == False) || ev.Kind == "store" {
				if b, codes, _ := splitPtr(ev.Args[0]); b == sess && len(codes) >= 1 && int(codes[0]) == field {
					draws = append(draws, ev)
				}
			}
		}
		if !c.must(len(draws) == 1, "carried", inst, where, "%d numbers are drawn from the session of the receiver for one message", len(draws)) {
			return
		}
		f2, ok, why := drawnOnce(st, sess, sn)
		c.must(ok && f2 == field, "carried", inst, where, "the header carries %s, not the number drawn (%s)", sn, why)
	}
	n := 0
	for _, id := range allIDs() {
		c.guard("carried", "part of "+idName(id), "internal/protocol/msg_processor.go", func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			p := c.process(r, id, fragPart, nil)
			for _, o := range p.outs {
				if o.kind != outRet || p.failed(o) {
					continue
				}
				_, out, oT := c.outgoing(o.st, o.vals[0])
				if out == nil {
					continue
				}
				n++
				hdr := o.st.get(out, oT, "Header")
				rec := mk(Term{K: KGet, A: []*Term{r.phone, p.pk.phone, Int(0)}, T: ptrTo(r.devT)})
				sid := e.newState().get(rec, r.devT, "SessionID")
				sess := mk(Term{K: KGet, A: []*Term{r.sess, sid, Int(0)}, T: ptrTo(r.sessT)})
				sent("part of "+idName(id), o.st, hdr, sess, p.fn)
			}
		})
	}
	c.must(n > 0, "carried", "parts", "internal/protocol/msg_processor.go", "no acknowledgement of a part analysed")
	// what sends nothing draws nothing
	wasted := func(inst string, st *State, where string) {
		for _, ev := range st.events {
			if ev.Kind != "atomic" || ev.Name == "Load" {
				continue
			}
			if b, codes, _ := splitPtr(ev.Args[0]); len(codes) >= 1 && int(codes[0]) == field && b.T != nil && types.Identical(b.T, ptrTo(sT)) {
				c.fail("skipped", inst, c.at(ev.Pos), "a number is drawn although no message is sent")
			}
		}
		c.pass("skipped", inst, where)
	}
	c.eachProcess(fragNone, allIDs(), "skipped", func(d dispatch, p *procRun) {
		for _, o := range p.outs {
			wasted(idName(d.id), o.st, p.fn)
		}
	})
	for _, hr := range c.sendingHandlers() {
		for _, st := range hr.silent {
			wasted(hr.name, st, hr.where)
		}
		if len(hr.sends) == 0 {
			continue
		}
		n := 0
		for _, x := range hr.sends {
			n++
			sent(hr.name, x.st, x.hdr, x.sess, hr.where)
		}
		c.must(n > 0, "carried", hr.name, hr.where, "the request sends nothing")
	}
}

// drawnOnce: the path changes exactly one counter field of the session, by one
// atomic increment or inside one critical section, and v is its new value
// (up to a constant) cut to 16 bits.
func drawnOnce(st *State, sess, v *Term) (field int, ok bool, why string) {
	field = -1
	var add []*Event
	ep, locked, ntouch := -1, true, 0
	for _, ev := range st.events {
		switch ev.Kind {
		case "atomic", "store", "load":
		default:
			continue
		}
		b, codes, _ := splitPtr(ev.Args[0])
		if b != sess || len(codes) == 0 {
			continue
		}
		switch {
		case ev.Kind == "atomic" && ev.Name == "Add":
			add = append(add, ev)
			field = int(codes[0])
			ntouch++
		case ev.Kind == "atomic" && ev.Name == "CompareAndSwap":
			if len(ev.Args) == 4 && ev.Res == True {
				if stripTrunc(ev.Args[3]) == stripTrunc(Add(ev.Args[2], Int(1))) {
					f2 := *ev
					f2.Res = ev.Args[3]
					add = append(add, &f2)
					field = int(codes[0])
				}
			}
		case ev.Kind == "store":
			ntouch++
			field = int(codes[0])
			if len(ev.Locks) == 0 {
				locked = false
			}
			if ep >= 0 && ev.Epoch != ep {
				locked = false
			}
			ep = ev.Epoch
		}
	}
	if len(add) == 1 {
		ev := add[0]
		if ev.Name == "Add" && !sameTerm(st, ev.Args[2], Int(1)) {
			return field, false, fmt.Sprintf("the counter grows by %s, not 1", ev.Args[2])
		}
		if !low16of(st, v, ev.Res) {
			return field, false, fmt.Sprintf("the number is %s, not the low 16 bits of the incremented counter %s", v, ev.Res)
		}
		return field, true, ""
	}
	if len(add) > 1 {
		return field, false, fmt.Sprintf("%d increments for one number", len(add))
	}
	if field < 0 {
		return field, false, "no counter of the session is advanced"
	}
	for _, ev := range st.events {
		if ev.Kind != "load" {
			continue
		}
		if b, codes, _ := splitPtr(ev.Args[0]); b == sess && len(codes) > 0 && int(codes[0]) == field && (len(ev.Locks) == 0 || ev.Epoch != ep) {
			locked = false
		}
	}
	if !locked {
		return field, false, "the counter is read and written in separate steps, so two senders can draw the same number"
	}
	// under one lock: new = old + 1
	cur := st.load(FieldPtr(sess, field), types.Typ[types.Uint32])
	if !low16of(st, v, cur) {
		return field, false, fmt.Sprintf("the number is %s, not the low 16 bits of the counter %s", v, cur)
	}
	old := st.e.newState().load(FieldPtr(sess, field), types.Typ[types.Uint32])
	if stripTrunc(cur) != stripTrunc(Add(old, Int(1))) && !low16of(st, trunc16(cur, st), Add(old, Int(1))) {
		return field, false, fmt.Sprintf("the counter changes from %s to %s", old, cur)
	}
	return field, true, ""
}

func trunc16(t *Term, st *State) *Term { return andMask(t, 0xffff, st) }

// low16of: v equals x + k mod 2^16 for a constant k.
func low16of(st *State, v, x *Term) bool {
	if sameTerm(st, v, trunc16(x, st)) {
		return true
	}
	for _, k := range []int64{-1, 1} {
		if sameTerm(st, v, trunc16(Add(x, Int(k)), st)) {
			return true
		}
	}
	return stripTrunc(v) == stripTrunc(x)
}

// stripTrunc removes truncations to at least 16 bits.
func stripTrunc(t *Term) *Term {
	for {
		switch {
		case t.K == KTrunc && len(t.A) == 1 && t.I >= 16:
			t = t.A[0]
		default:
			return t
		}
	}
}

// ---- C19 ----

func checkC19(c *Check) {
	e := c.e
	rbT := ptrTo(e.needTyp(pRing, "RingBuffer"))
	w := "pkg/container/ring_buffer.go"
	call1 := func(st *State, rel, typ, name string, args ...*Term) (Out, bool) {
		outs := c.run(st, e.needMethod(rel, typ, name), args...)
		if len(outs) != 1 || outs[0].kind != outRet {
			why := fmt.Sprintf("%d outcomes", len(outs))
			if len(outs) > 0 && outs[0].kind != outRet {
				why = outs[0].why
			}
			c.fail("ring", name, w, "%s ends by %s", name, why)
			return Out{}, false
		}
		return outs[0], true
	}
	_ = rbT
	// the buffer itself
	for size := 1; size <= depth(c, 5, 8); size++ {
		inst := fmt.Sprintf("capacity %d", size)
		c.guard("ring", inst, w, func() {
			e.seqAtomics, e.forceUnroll = true, size+4
			f := e.needFn(pRing, "NewRingBuffer")
			outs := c.run(e.newState(), f, Int(int64(size)))
			if !c.must(len(outs) == 1 && outs[0].kind == outRet, "ring", inst, w, "creating a buffer has %d outcomes", len(outs)) {
				return
			}
			st, rb := outs[0].st, outs[0].vals[0]
			e.nonNil(st, rb)
			slots := make([]*Term, size)
			for i := range slots {
				slots[i] = Nil
			}
			var last *Term = Nil
			look := func(n int) bool {
				o, ok := call1(st.clone(), pRing, "RingBuffer", "Latest", rb)
				if !ok {
					return false
				}
				c.must(sameVal(o.st, o.vals[0], last), "ring", inst+" newest", w, "after %d writes the newest element is %s, expected %s", n, o.vals[0], last)
				o, ok = call1(st.clone(), pRing, "RingBuffer", "Oldest", rb)
				if !ok {
					return false
				}
				if n >= size {
					c.must(sameVal(o.st, o.vals[0], slots[n%size]), "ring", inst+" oldest", w, "after %d writes the oldest element is %s, expected %s", n, o.vals[0], slots[n%size])
				}
				// reading once around
				s := st.clone()
				for k := 0; k < size+1; k++ {
					o, ok = call1(s, pRing, "RingBuffer", "Read", rb)
					if !ok {
						return false
					}
					c.must(sameVal(o.st, o.vals[0], slots[k%size]), "ring", inst+" read", w, "read %d after %d writes is %s, expected %s", k+1, n, o.vals[0], slots[k%size])
					s = o.st
				}
				return true
			}
			if !look(0) {
				return
			}
			for n := 1; n <= 2*size+2; n++ {
				v := Sym(fmt.Sprintf("v%d", n), nil)
				e.nonNil(st, v)
				o, ok := call1(st, pRing, "RingBuffer", "Write", rb, v)
				if !ok {
					return
				}
				st, last = o.st, v
				slots[(n-1)%size] = v
				if !look(n) {
					return
				}
			}
		})
	}
	// the history of a phone through the storage interface, past its capacity
	gT := e.needTyp(pModel, "DeviceGeo")
	gw := "internal/storage/geo_cache.go"
	latest := func(st *State, phone *Term) (g, er *Term, s *State, ok bool) {
		outs := c.run(st.clone(), e.needMethod(pStore, "GeoCache", "GetGeoLatestByPhone"), c.geoCache(st), phone)
		if len(outs) != 1 || outs[0].kind != outRet {
			return nil, nil, nil, false
		}
		return outs[0].vals[0], outs[0].vals[1], outs[0].st, true
	}
	long := 0
	var states []*State // states after 0, 1, cap-1, cap, cap+1 reports of phone A
	A, B := StrC("13300000001"), StrC("13300000002")
	c.guard("history", "capacity", gw, func() {
		r := c.registries()
		e.seqAtomics, e.forceUnroll = true, 2000
		st := e.newState()
		st.maps[r.geo] = &MapState{fresh: true}
		gB := Sym("geoB", ptrTo(gT))
		e.nonNil(st, gB)
		_, er, s0, ok := latest(st, A)
		c.must(ok && s0.decide(e.errIs(s0, er, ErrSentinel(modPath+"/"+pStore, "ErrGisNotFound"))) == 1, "history", "empty", gw, "the newest position of a phone without reports is not refused")
		states = append(states, st.clone())
		c.writeGeo(st, B, mk(Term{K: KIface, A: []*Term{gB}, T: ptrTo(gT)}))
		n := 0
		limit := 205
		if k := e.constInt(pStore, "RingCapacity"); k > 0 && k <= 2000 {
			limit = int(2*k) + 5
		}
		for n = 1; n <= limit; n++ {
			g := Sym(fmt.Sprintf("geo%d", n), ptrTo(gT))
			e.nonNil(st, g)
			c.writeGeo(st, A, mk(Term{K: KIface, A: []*Term{g}, T: ptrTo(gT)}))
			got, er, s, ok := latest(st, A)
			c.must(ok && isNil(er) && sameTerm(s, got, g), "history", fmt.Sprintf("report %d", n), gw, "after report %d the newest position is %s (%v)", n, got, er)
			got, er, s, ok = latest(st, B)
			c.must(ok && isNil(er) && sameTerm(s, got, gB), "history", fmt.Sprintf("other phone %d", n), gw, "after report %d of one phone the newest position of another is %s (%v)", n, got, er)
			half := limit / 2
			if n == 1 || n == half-3 || n == half-2 || n == half-1 || n == half {
				s2 := st.clone()
				states = append(states, s2)
			}
		}
		long = n - 1
	})
	c.must(long > 0, "history", "capacity", gw, "no history analysed")
	// the same for a phone nothing is known about: no value of it is special
	c.guard("any-phone", "query", gw, func() {
		r := c.registries()
		e.seqAtomics, e.forceUnroll = true, 2000
		f := e.needMethod(pStore, "GeoCache", "GetGeoLatestByPhone")
		X := Sym("anyphone", types.Typ[types.String])
		none := func(st *State, inst string) {
			outs := c.run(st.clone(), f, c.geoCache(st), X)
			c.must(len(outs) > 0, "any-phone", inst, c.fnAt(f), "no outcome")
			for _, o := range outs {
				c.must(o.kind == outRet && o.st.decide(e.errIs(o.st, o.vals[1], ErrSentinel(modPath+"/"+pStore, "ErrGisNotFound"))) == 1, "any-phone", inst, c.fnAt(f), "a phone without reports has the position %v (%s)", o.vals, o.st.factsString())
			}
		}
		st := e.newState()
		st.maps[r.geo] = &MapState{fresh: true}
		none(st, "no history")
		outs := c.run(st.clone(), e.needMethod(pStore, "GeoCache", "GetGeoRingByPhone"), c.geoCache(st), X)
		c.must(len(outs) > 0, "any-phone", "ring", gw, "no outcome")
		for _, o := range outs {
			if !c.must(o.kind == outRet, "any-phone", "ring", gw, "looking up a history ends by %s", o.why) {
				continue
			}
			none(o.st, "empty history")
			g := Sym("geoX", ptrTo(gT))
			e.nonNil(o.st, g)
			s := o.st.clone()
			c.writeGeo(s, X, mk(Term{K: KIface, A: []*Term{g}, T: ptrTo(gT)}))
			Q := Sym("otherphone", types.Typ[types.String])
			sq := s.clone()
			sq.assume(Not(eqStr(X, Q, sq)))
			for _, q := range c.run(sq, f, c.geoCache(sq), Q) {
				c.must(q.kind == outRet && q.st.decide(e.errIs(q.st, q.vals[1], ErrSentinel(modPath+"/"+pStore, "ErrGisNotFound"))) == 1, "any-phone", "other phone", c.fnAt(f), "a report of one phone gives another the position %v (%s)", q.vals, q.st.factsString())
			}
			for _, q := range c.run(s, f, c.geoCache(s), X) {
				c.must(q.kind == outRet && isNil(q.vals[1]) && sameTerm(q.st, q.vals[0], g), "any-phone", "one report", c.fnAt(f), "after one report the newest position is %v", q.vals)
			}
		}
	})
	// with whatever else the cache holds, only the entry of the phone concerned changes
	for _, m := range []string{"GetGeoRingByPhone", "GetGeoLatestByPhone", "DelGeoByPhone"} {
		c.guard("others-kept", m, gw, func() {
			c.registries()
			f := e.needMethod(pStore, "GeoCache", m)
			X := Sym("anyphone", types.Typ[types.String])
			st := e.newState()
			cache := c.geoCache(st)
			outs := c.run(st, f, cache, X)
			c.must(len(outs) > 0, "others-kept", m, gw, "no outcome")
			for _, o := range outs {
				c.onlyOwnKeys("others-kept", m, o.st, func(t *Term) bool { return t == X }, "the history of another phone")
			}
		})
	}
	// a report reaches the history of its own phone and no other
	for i, s := range states {
		inst := fmt.Sprintf("stored after history %d", i)
		c.guard("report", inst, "internal/protocol/msg_processor.go", func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			e.seqAtomics, e.forceUnroll = true, 2000
			p := c.process(r, 0x0200, fragNone, func(st *State, p packet) {
				for b, o := range s.heap {
					if _, ok := st.heap[b]; !ok {
						st.heap[b] = o
					}
				}
				for _, f := range s.order {
					st.assume(f)
				}
				cp := *s.mapState(r.geo)
				st.maps[r.geo] = &cp
				hT := e.needTyp(pModel, "MsgHeader")
				st.set(p.hdr, hT, "PhoneNumber", A)
			})
			n := 0
			for _, o := range p.outs {
				if !c.must(o.kind == outRet, "report", inst, p.fn, "processing a report ends by %s", o.why) || p.failed(o) {
					continue
				}
				n++
				got, er, s2, ok := latest(o.st, A)
				if c.must(ok && isNil(er), "report", inst, p.fn, "an accepted report is not in the history (%v)", er) {
					g := s2.get(got, gT, "Location.Latitude")
					c.must(strings.Contains(g.String(), "in.Latitude"), "report", inst, p.fn, "the newest position after a report has latitude %s", g)
					c.must(sameTerm(s2, s2.get(got, gT, "Phone"), A), "report", inst, p.fn, "the stored position carries phone %s", s2.get(got, gT, "Phone"))
				}
				if i > 0 {
					got, er, s2, ok = latest(o.st, B)
					c.must(ok && isNil(er) && got.String() == "geoB", "report", inst+" other phone", p.fn, "a report of one phone changes the newest position of another to %s", got)
				} else {
					_, er, s2, ok = latest(o.st, B)
					c.must(ok && s2.decide(e.errIs(s2, er, ErrSentinel(modPath+"/"+pStore, "ErrGisNotFound"))) == 1, "report", inst+" other phone", p.fn, "a report of one phone gives another a position")
				}
			}
			c.must(n > 0, "report", inst, p.fn, "no accepted path")
		})
	}
}

// onlyOwnKeys: a cache operation sets and removes entries only under a key (or
// in a map) made from its own argument, and does not replace a whole map. The
// cache may hold anything.
func (c *Check) onlyOwnKeys(rule, inst string, st *State, own func(*Term) bool, what string) {
	owns := func(t *Term) bool {
		found := false
		eachTerm(t, map[*Term]bool{}, func(x *Term) { found = found || own(x) })
		return found
	}
	var walk func(evs []*Event, depth int)
	walk = func(evs []*Event, depth int) {
		for _, ev := range evs {
			switch ev.Kind {
			case "mapset", "mapdel":
				if rootOf(ev.Args[0]).K == KAlloc {
					continue
				}
				c.must(owns(ev.Args[1]) || owns(ev.Args[0]), rule, inst, c.at(ev.Pos), "%s (key %s) is changed", what, ev.Args[1])
			case "store":
				if ev.T == nil || rootOf(ev.Args[0]).K == KAlloc {
					continue
				}
				if _, ok := ev.T.Underlying().(*types.Map); ok {
					c.must(owns(ev.Args[0]), rule, inst, c.at(ev.Pos), "%s is dropped with the whole map", what)
				}
			case "loop":
				if ev.Loop != nil && depth < 4 {
					for _, b := range ev.Loop.backs {
						walk(b.events, depth+1)
					}
				}
			}
		}
	}
	walk(st.events, 0)
}

func sameVal(st *State, a, b *Term) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) == isNil(b)
	}
	return sameTerm(st, a, b)
}

// constInt returns the value of an integer constant of a package, 0 when absent.
func (e *Engine) constInt(rel, name string) int64 {
	pk := e.byPath[modPath+"/"+rel]
	if pk == nil {
		return 0
	}
	if k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constant.Int64Val(k.Val()); ok {
			return v
		}
	}
	return 0
}

// ---- C20 ----

// status word: field of GeoMeta, first bit, number of bits
var statusBits = []struct {
	field string
	bit   int64
	n     int64
}{
	{"ACCStatus", 0, 1}, {"LocationStatus", 1, 1}, {"LatitudeType", 2, 1}, {"LongitudeType", 3, 1}, {"OperatingStatus", 4, 1}, {"GeoEncryptionStatus", 5, 1},
	{"LoadStatus", 8, 2}, {"FuelSystemStatus", 10, 1}, {"AlternatorSystemStatus", 11, 1}, {"DoorLockedStatus", 12, 1}, {"FrontDoorStatus", 13, 1},
	{"MidDoorStatus", 14, 1}, {"BackDoorStatus", 15, 1}, {"DriverDoorStatus", 16, 1}, {"CustomDoorStatus", 17, 1}, {"GPSLocationStatus", 18, 1},
	{"BeidouLocationStatus", 19, 1}, {"GLONASSLocationStatus", 20, 1}, {"GalileoLocationStatus", 21, 1}, {"DrivingStatus", 22, 1},
}

func checkC20(c *Check) {
	c.noSharedScratch("working-state", inPkgs("internal/codec/", pModel))
	e := c.e
	u32 := types.Typ[types.Uint32]
	gT := ptrTo(e.needTyp(pModel, "GeoMeta"))
	c.guard("status", "decode", "internal/protocol/model/device.go", func() {
		f := e.needMethod(pModel, "GeoMeta", "Decode")
		st := e.newState()
		status := Sym("status", u32)
		g := Sym("geo", gT)
		e.nonNil(st, g)
		n := 0
		for _, o := range c.run(st, f, g, status) {
			if !c.must(o.kind == outRet, "status", "decode", c.fnAt(f), "decoding ends by %s", o.why) {
				continue
			}
			n++
			for _, b := range statusBits {
				want := andMask(shiftBits(status, -b.bit, 32, o.st), 1<<uint(b.n)-1, o.st)
				got := o.st.get(g, gT, b.field)
				c.must(c.sameBits(o.st, got, want, status), "status-decode", b.field, c.fnAt(f), "%s is %s, documented bits %d..%d of the status word", b.field, got, b.bit, b.bit+b.n-1)
			}
			// and back: encoding what was decoded restores the documented bits
			fe := e.needMethod(pModel, "GeoMeta", "Encode")
			want := andMask(status, 0x7fff3f, o.st)
			for _, x := range c.run(o.st, fe, g) {
				if c.must(x.kind == outRet, "status", "encode", c.fnAt(fe), "encoding ends by %s", x.why) {
					c.must(c.sameBits(x.st, x.vals[0], want, status), "status-encode", "round trip", c.fnAt(fe), "encoding a decoded status word gives %s, not its documented bits", x.vals[0])
				}
			}
		}
		c.must(n > 0, "status", "decode", c.fnAt(f), "no outcome")
	})
	c.guard("status", "encode", "internal/protocol/model/device.go", func() {
		f := e.needMethod(pModel, "GeoMeta", "Encode")
		// one field at a time, the others zero or all ones
		for _, fill := range []int64{0, 1} {
			for _, b := range statusBits {
				for v := int64(0); v < 1<<uint(b.n); v++ {
					st := e.newState()
					g := Sym("geo", gT)
					e.nonNil(st, g)
					want := int64(0)
					for _, x := range statusBits {
						y := fill * (1<<uint(x.n) - 1)
						if x.field == b.field {
							y = v
						}
						st.set(g, gT, x.field, Int(y))
						want |= y << uint(x.bit)
					}
					for _, o := range c.run(st, f, g) {
						c.must(o.kind == outRet && sameTerm(o.st, o.vals[0], Int(want)), "status-encode", fmt.Sprintf("%s=%d among %d", b.field, v, fill), c.fnAt(f), "encodes to %v, documented %#x", o.vals, want)
					}
				}
			}
		}
	})
	// a report as stored
	c.guard("position", "report", "internal/protocol/msg_processor.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		e.seqAtomics, e.forceUnroll = true, 200
		dT := e.needTyp(pModel, "DeviceGeo")
		p := c.process(r, 0x0200, fragNone, func(st *State, p packet) { st.maps[r.geo] = &MapState{fresh: true} })
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || p.failed(o) {
				continue
			}
			_, in, inT := c.incoming(o.st, o.vals[0])
			raw := func(f string) *Term { return o.st.get(in, inT, f) }
			outs := c.run(o.st.clone(), e.needMethod(pStore, "GeoCache", "GetGeoLatestByPhone"), c.geoCache(o.st), p.pk.phone)
			if !c.must(len(outs) == 1 && outs[0].kind == outRet && isNil(outs[0].vals[1]), "position", "stored", p.fn, "an accepted report cannot be queried") {
				continue
			}
			n++
			g, s := outs[0].vals[0], outs[0].st
			want := map[string]*Term{
				"Phone": p.pk.phone, "Location.Altitude": raw("Altitude"), "Drive.Direction": raw("Direction"),
			}
			for k, v := range want {
				got := s.get(g, dT, k)
				c.must(sameTerm(s, got, v), "position", k, p.fn, "%s of the stored position is %s, reported %s", k, got, v)
			}
			for k, v := range map[string]struct {
				f string
				d int64
			}{"Location.Latitude": {"Latitude", 1000000}, "Location.Longitude": {"Longitude", 1000000}, "Drive.Speed": {"Speed", 10}} {
				got := s.get(g, dT, k)
				c.must(isScaled(got, raw(v.f), v.d), "position", k, p.fn, "%s of the stored position is %s, reported %s in units of 1/%d", k, got, raw(v.f), v.d)
			}
			for _, b := range statusBits {
				got := s.get(g, dT, "Geo."+b.field)
				ss := raw("StatusSign")
				w := andMask(shiftBits(ss, -b.bit, 32, s), 1<<uint(b.n)-1, s)
				c.must(c.sameBits(s, got, w, ss), "position", "status "+b.field, p.fn, "%s of the stored position is %s", b.field, got)
			}
			tm := s.get(g, dT, "Time").String()
			parsed := false
			for _, f := range s.order {
				if strings.Contains(f.String(), "time.Parse") && strings.Contains(f.String(), raw("Time").String()) {
					parsed = parsed || !strings.HasPrefix(f.String(), "!")
				}
			}
			if parsed {
				c.must(strings.HasPrefix(tm, "time.Parse") && strings.Contains(tm, `"060102150405"`) && strings.Contains(tm, raw("Time").String()), "position", "Time", p.fn, "the time of the stored position is %s, reported %s", tm, raw("Time"))
			}
		}
		c.must(n > 0, "position", "report", p.fn, "no accepted path")
	})
}

// isScaled: v is x divided by d, as a floating-point number.
func isScaled(v, x *Term, d int64) bool {
	return v.String() == fmt.Sprintf("fdiv(i2f(%s), %d)", x, d)
}

// sameBits compares two terms over one word; terms of different form are
// compared on every single bit and on pairs of bits of the word.
func (c *Check) sameBits(st *State, got, want, word *Term) bool {
	if want == nil {
		giveUp("no bit form for %s", word)
	}
	if sameTerm(st, got, want) {
		return true
	}
	var facts []*Term // what the path knows about the word
	for _, f := range st.order {
		about := false
		eachTerm(f, map[*Term]bool{}, func(t *Term) { about = about || t == word })
		if about {
			facts = append(facts, f)
		}
	}
	n := 0
	for i := 0; i < 32; i++ {
		for j := i; j < 32; j++ {
		words:
			for _, inv := range []int64{0, 0xffffffff} {
				v := Int((int64(1)<<uint(i) | int64(1)<<uint(j)) ^ inv)
				m := map[*Term]*Term{word: v}
				for _, f := range facts {
					if subst(f, m, nil) == False {
						continue words
					}
				}
				n++
				x, y := subst(got, m, nil), subst(want, m, nil)
				if x.K != KInt || x != y {
					return false
				}
			}
		}
	}
	return n > 0
}
