package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The documented dispatch table: request id -> decoded type, reply type, reply id.
type dispatch struct {
	id      int64
	in, out string
	outID   int64
	known   bool // needs a registered terminal
}

var dispatchTable = []dispatch{
	{0x0001, "Msg0001", "", 0, false},
	{0x0002, "Msg0002", "Msg8001", 0x8001, true},
	{0x0003, "Msg0003", "Msg8001", 0x8001, true},
	{0x0004, "Msg0004", "Msg8004", 0x8004, false},
	{0x0100, "Msg0100", "Msg8100", 0x8100, false},
	{0x0102, "Msg0102", "Msg8001", 0x8001, true},
	{0x0104, "Msg0104", "", 0, false},
	{0x0200, "Msg0200", "Msg8001", 0x8001, true},
	{0x1205, "Msg1205", "", 0, false},
	{0x8001, "Msg8001", "", 0, false},
	{0x8100, "Msg8100", "Msg0102", 0x0102, false},
	{0x8103, "Msg8103", "Msg0001", 0x0001, false},
	{0x8104, "Msg8104", "Msg0104", 0x0104, false},
	{0x9205, "Msg9205", "Msg1205", 0x1205, false},
}

// messages a terminal sends to the platform
var uplink = []int64{0x0001, 0x0002, 0x0003, 0x0004, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205}

func rowOf(id int64) dispatch {
	for _, d := range dispatchTable {
		if d.id == id {
			return d
		}
	}
	giveUp("no row %x", id)
	return dispatch{}
}

func (c *Check) eachProcess(mode fragMode, ids []int64, rule string, f func(d dispatch, p *procRun)) {
	for _, id := range ids {
		d := rowOf(id)
		c.guard(rule, idName(id), "internal/protocol/msg_processor.go", func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			f(d, c.process(r, id, mode, nil))
		})
	}
}

func allIDs() (ids []int64) {
	for _, d := range dispatchTable {
		ids = append(ids, d.id)
	}
	return
}

// unsupported runs Process on every id outside the table at once.
func (c *Check) unsupported(r *registries, mode fragMode) *procRun {
	hT := c.e.needTyp(pModel, "MsgHeader")
	return c.process(r, -1, mode, func(st *State, p packet) {
		id := st.get(p.hdr, hT, "MsgID")
		for _, d := range dispatchTable {
			st.assume(Not(EqInt(id, Int(d.id), st)))
		}
	})
}

func init() {
	register("C06", "Path-sensitive value-flow analysis of message processing per message id: on every successful outcome the reply's correlation fields, addressee and result code are the value terms of the request's serial number, id and phone; a reply exists exactly for the ids that require one.", 30, checkC06)
	register("C07", "Path-sensitive analysis of message processing per message id (and for all remaining ids at once): the decoded type, reply type and reply id are those of the documented table; ids outside it return the not-supported error and have an empty effect set.", 30, checkC07)
	register("C08", "Path-sensitive effect analysis of message processing on the paths where the phone is not registered, plus value-flow of the resulting error through the pipeline and the connection loop.", 8, checkC08)
	register("C09", "Path-sensitive analysis of registration: outcome classified by the two registry lookups; effect set and reply per class; must-hold-lock analysis from the lookups to the insertion.", 20, checkC09)
	register("C10", "Path-sensitive value-flow analysis of authentication: comparison term equals the code issued at registration; resulting record fields; no other message raises the status to online.", 30, checkC10)
	register("C11", "Path-sensitive effect analysis of logout: after it, registry lookups by phone and by plate and the position lookup fail, the keepalive job is cancelled.", 6, checkC11)
}

func checkC07(c *Check) {
	c.pipelineStopsOnError("refused")
	c.eachProcess(fragNone, allIDs(), "dispatch", func(d dispatch, p *procRun) {
		ok := 0
		for _, o := range p.outs {
			if o.kind == outExit {
				c.fail("dispatch", idName(d.id), c.at(o.pos), "processing %s can end the process", idName(d.id))
			}
			if o.kind != outRet {
				continue
			}
			if p.failed(o) {
				c.must(!c.errIs(o.st, o.vals[1], pProto, "ErrMsgIDNotSupportted"), "supported", idName(d.id), p.fn, "%s is rejected as unsupported", idName(d.id))
				continue
			}
			ok++
			n, ptr, t := c.outgoing(o.st, o.vals[0])
			c.must(n == d.out, "reply-type", idName(d.id), p.fn, "reply to %s is %q, documented %q", idName(d.id), n, d.out)
			if n != "" {
				got := o.st.get(ptr, t, "Header.MsgID")
				c.must(sameTerm(o.st, got, Int(d.outID)), "reply-id", idName(d.id), p.fn, "reply to %s carries message id %s, expected %s", idName(d.id), got, idName(d.outID))
			}
			if !isNil(o.vals[0]) {
				in, _, _ := c.incoming(o.st, o.vals[0])
				c.must(in == d.in, "decoded-type", idName(d.id), p.fn, "%s is decoded as %q, expected %q", idName(d.id), in, d.in)
			}
		}
		c.must(ok > 0, "dispatch", idName(d.id), p.fn, "no successful outcome for %s", idName(d.id))
	})
	for _, m := range []fragMode{fragNone, fragPart} {
		inst := []string{"whole message", "fragment"}[m]
		c.guard("unsupported", inst, "internal/protocol/msg_processor.go", func() {
			r := c.registries()
			p := c.unsupported(r, m)
			for _, o := range p.outs {
				if !c.must(o.kind == outRet, "unsupported", inst, c.at(o.pos), "unsupported id leads to %s", o.why) {
					continue
				}
				c.must(c.errIs(o.st, o.vals[1], pProto, "ErrMsgIDNotSupportted"), "unsupported-error", inst, p.fn, "an id outside the table yields error %s", o.vals[1])
				c.must(isNil(o.vals[0]), "unsupported-no-reply", inst, p.fn, "an id outside the table yields data %s", o.vals[0])
				ef := p.effects(o)
				c.must(len(ef) == 0, "unsupported-no-effect", inst, p.fn, "an id outside the table has effects: %s", evString(c.e, ef))
			}
		})
	}
}

func checkC06(c *Check) {
	c.eachProcess(fragNone, allIDs(), "reply", func(d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || p.failed(o) {
				continue
			}
			n++
			c.ownObjects("own-message", idName(d.id), p, o)
			name, ptr, t := c.outgoing(o.st, o.vals[0])
			if !c.must((name == "") == (d.out == ""), "reply-required", idName(d.id), p.fn, "reply to %s is %q, expected %q", idName(d.id), name, d.out) || name == "" {
				continue
			}
			c.checkReply(o.st, p, d, ptr, t, name)
			if (name == "Msg8001" || name == "Msg0001") && d.id != 0x0102 { // authentication results: C10
				got := o.st.get(ptr, t, "Result")
				c.must(sameTerm(o.st, got, Int(0)), "result", idName(d.id), p.fn, "result code %s, expected 0", got)
			}
		}
		c.must(n > 0, "reply", idName(d.id), p.fn, "no successful outcome")
	})
	// a part of an unfinished message is acknowledged by itself
	c.eachProcess(fragPart, allIDs(), "fragment-ack", func(d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || p.failed(o) {
				continue
			}
			n++
			c.ownObjects("own-message", idName(d.id)+" fragment", p, o)
			name, ptr, t := c.outgoing(o.st, o.vals[0])
			if !c.must(name == "Msg8001", "fragment-ack", idName(d.id), p.fn, "a fragment is answered with %q", name) {
				continue
			}
			c.checkReply(o.st, p, dispatch{d.id, d.in, "Msg8001", 0x8001, true}, ptr, t, "fragment")
			got := o.st.get(ptr, t, "Result")
			c.must(sameTerm(o.st, got, Int(0)), "fragment-result", idName(d.id), p.fn, "fragment result code %s", got)
		}
		c.must(n > 0, "fragment-ack", idName(d.id), p.fn, "no successful outcome for a fragment")
	})
}

func (c *Check) checkReply(st *State, p *procRun, d dispatch, ptr *Term, t types.Type, tag string) {
	inst := idName(d.id)
	rule := func(s string) string {
		if tag == "fragment" {
			return "fragment-" + s
		}
		return s
	}
	hT := c.e.needTyp(pModel, "MsgHeader")
	hdr := st.get(ptr, t, "Header")
	if !c.must(st.isNonNil(hdr), rule("header"), inst, p.fn, "reply has no header") {
		return
	}
	got := st.get(hdr, hT, "PhoneNumber")
	c.must(sameTerm(st, got, p.pk.phone), rule("addressee"), inst, p.fn, "reply is addressed to %s, expected the requesting phone", got)
	got = st.get(hdr, hT, "MsgID")
	c.must(sameTerm(st, got, Int(d.outID)), rule("reply-id"), inst, p.fn, "reply id %s, expected %s", got, idName(d.outID))
	if tag != "fragment" {
		got = st.get(hdr, hT, "SerialNumber")
		c.must(sameTerm(st, got, p.pk.serial), rule("own-serial"), inst, p.fn, "the reply's header carries serial %s, expected the request's", got)
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "AnswerSerialNumber":
			got := st.get(ptr, t, "AnswerSerialNumber")
			c.must(sameTerm(st, got, p.pk.serial), rule("answer-serial"), inst, p.fn, "reply answers serial %s, expected the request's", got)
		case "AnswerMessageID":
			got := st.get(ptr, t, "AnswerMessageID")
			c.must(sameTerm(st, got, Int(d.id)), rule("answer-id"), inst, p.fn, "reply answers id %s, expected %s", got, inst)
		case "ServerTime":
			v := st.get(ptr, t, "ServerTime")
			now := st.load(v, s.Field(i).Type().Underlying().(*types.Pointer).Elem())
			c.must(isTimeNow(now), rule("server-time"), inst, p.fn, "server time is %s", now)
		}
	}
	// 2013/2019 layout of the reply follows the request
	aT := c.e.needTyp(pModel, "MsgBodyAttr")
	at := st.get(hdr, hT, "Attr")
	// (a fragment's acknowledgement may follow the version the terminal registered with)
	dev := mk(Term{K: KGet, A: []*Term{p.reg.phone, p.pk.phone, Int(0)}, T: ptrTo(p.reg.devT)})
	own := func(f string, got *Term) bool {
		if tag != "fragment" {
			return false
		}
		if f == "VersionSign" {
			v := st.get(dev, p.reg.devT, "VersionDesc")
			return sameTerm(st, got, Int(1)) && st.decide(EqInt(v, Int(2), st)) == 1 || sameTerm(st, got, Int(0)) && st.decide(EqInt(v, Int(2), st)) == -1
		}
		return sameTerm(st, got, st.get(dev, p.reg.devT, f))
	}
	for _, f := range []string{"VersionSign", "VersionDesc"} {
		got, want := st.get(at, aT, f), p.pre.get(p.pk.attr, aT, f)
		c.must(sameTerm(st, got, want) || own(f, got), rule("version"), inst, p.fn, "reply %s is %s, expected the request's", f, got)
	}
	got = st.get(hdr, hT, "ProtocolVersion")
	c.must(sameTerm(st, got, p.pre.get(p.pk.hdr, hT, "ProtocolVersion")) || own("ProtocolVersion", got), rule("version"), inst, p.fn, "reply ProtocolVersion is %s, expected the request's", got)
	fr := st.get(at, aT, "PacketFragmented")
	if tag != "fragment" {
		c.must(st.decide(EqInt(fr, Int(1), st)) == -1, rule("not-fragmented"), inst, p.fn, "reply to a whole message may be marked as a fragment")
	} else {
		c.must(sameTerm(st, fr, Int(0)), rule("not-fragmented"), inst, p.fn, "acknowledgement is marked as a fragment: %s", fr)
		c.must(isNil(st.get(hdr, hT, "Frag")), rule("not-fragmented"), inst, p.fn, "acknowledgement carries a packaging item")
	}
}

// hasDevice: does this path know whether the phone is registered? 1 yes, -1 no, 0 not looked up
func (p *procRun) hasDevice(st *State) int {
	return st.decide(mk(Term{K: KHas, A: []*Term{p.reg.phone, p.pk.phone, Int(0)}}))
}

// registered: the terminal is, or may be, registered; from here on it is.
func (p *procRun) registered(st *State) bool {
	return st.assume(mk(Term{K: KHas, A: []*Term{p.reg.phone, p.pk.phone, Int(0)}}))
}

func (p *procRun) hasPlate(st *State, plate *Term) int {
	return st.decide(mk(Term{K: KHas, A: []*Term{p.reg.plate, plate, Int(0)}}))
}

func checkC08(c *Check) {
	var ids []int64
	for _, d := range dispatchTable {
		if d.known {
			ids = append(ids, d.id)
		}
	}
	one := func(rule string, d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || debugSerialiseFailure(o.st) {
				continue
			}
			switch p.hasDevice(o.st) {
			case 1:
				continue
			case 0:
				if p.failed(o) && len(p.effects(o)) == 0 {
					continue // the body does not decode
				}
				c.fail(rule, idName(d.id), p.fn, "an outcome of %s does not look the phone up in the registry", idName(d.id))
				continue
			}
			n++
			c.must(p.failed(o) && c.errIs(o.st, o.vals[1], pStore, "ErrDeviceNotFound"), rule+"-error", idName(d.id), p.fn, "%s from an unregistered phone yields error %s, expected the device-not-found error", idName(d.id), o.vals[1])
			ef := p.effects(o)
			c.must(len(ef) == 0, rule+"-no-effect", idName(d.id), p.fn, "%s from an unregistered phone has effects: %s", idName(d.id), evString(c.e, ef))
		}
		c.must(n > 0, rule, idName(d.id), p.fn, "no outcome for an unregistered phone")
	}
	c.eachProcess(fragNone, ids, "unknown-terminal", func(d dispatch, p *procRun) { one("unknown-terminal", d, p) })
	c.eachProcess(fragPart, ids, "unknown-fragment", func(d dispatch, p *procRun) { one("unknown-fragment", d, p) })
	c.pipelineStopsOnError("unknown-no-reply")
	c.serveClosesOn("unknown-closes", [][2]string{{modPath + "/" + pStore, "ErrDeviceNotFound"}})
}

// storedDevices lists the records an outcome put into the registry.
func (c *Check) storedDevices(st *State, r *registries) []*Event {
	var out []*Event
	for _, ev := range st.events {
		if ev.Kind == "mapset" && (ev.Args[0] == r.phone || ev.Args[0] == r.plate) {
			out = append(out, ev)
		}
	}
	return out
}

func (c *Check) regEvents(st *State, r *registries, kind string) (out []*Event) {
	for _, ev := range st.events {
		if ev.Kind == kind && (ev.Args[0] == r.phone || ev.Args[0] == r.plate) {
			out = append(out, ev)
		}
	}
	return
}

func checkC09(c *Check) {
	c.eachProcess(fragNone, []int64{0x0100}, "register", func(d dispatch, p *procRun) {
		seen := map[string]int{}
		for _, o := range p.outs {
			if o.kind != outRet {
				continue
			}
			st := o.st
			ins := c.storedDevices(st, p.reg)
			if p.failed(o) {
				c.must(len(ins) == 0, "error-no-insert", "0x0100", p.fn, "a failed registration stores a record")
				continue
			}
			name, out, t := c.outgoing(st, o.vals[0])
			_, in, inT := c.incoming(st, o.vals[0])
			if !c.must(name == "Msg8100" && in != nil, "reply", "0x0100", p.fn, "registration is answered with %q", name) {
				continue
			}
			plate := st.get(in, inT, "PlateNumber")
			res := st.get(out, t, "Result")
			hp, hd := p.hasPlate(st, plate), p.hasDevice(st)
			ef := p.effects(o)
			switch {
			case hp == 1 || hd == 1:
				want, cls := int64(1), "plate-taken"
				if hp != 1 {
					want, cls = 3, "phone-taken"
				}
				seen[cls]++
				c.must(sameTerm(st, res, Int(want)), "result", cls, p.fn, "result %s, expected %d", res, want)
				c.must(len(ef) == 0, "no-effect", cls, p.fn, "a refused registration has effects: %s", evString(c.e, ef))
			case hp == -1 && hd == -1:
				seen["free"]++
				c.must(sameTerm(st, res, Int(0)), "result", "free", p.fn, "result %s, expected 0", res)
				c.checkInserted(p, o, in, inT, out, t, plate)
			default:
				c.fail("lookups", "0x0100", p.fn, "registration decided without looking up both plate and phone (result %s)", res)
			}
		}
		for _, cls := range []string{"plate-taken", "phone-taken", "free"} {
			c.must(seen[cls] > 0, "class", cls, p.fn, "no registration outcome for the case %s", cls)
		}
	})
	// atomicity: one lock held from the lookups to the insertion
	c.guard("atomic", "0x0100", "internal/protocol/msg_processor.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		c.e.interfere = true
		p := c.process(r, 0x0100, fragNone, nil)
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet {
				continue
			}
			sets := c.storedDevices(o.st, r)
			if len(sets) == 0 {
				continue
			}
			n++
			c.checkAtomic(o.st, r, sets)
		}
		c.must(n > 0, "atomic", "0x0100", p.fn, "no inserting outcome")
	})
}

// checkAtomic: some lock is held continuously from the registry lookups that
// justify the insertion until the insertion.
func (c *Check) checkAtomic(st *State, r *registries, sets []*Event) {
	cand := map[*Term]bool{}
	firstSet, lastSet := -1, -1
	idx := map[*Event]int{}
	for i, ev := range st.events {
		idx[ev] = i
	}
	for _, s := range sets {
		if firstSet < 0 || idx[s] < firstSet {
			firstSet = idx[s]
		}
		if idx[s] > lastSet {
			lastSet = idx[s]
		}
	}
	for _, l := range st.events[firstSet].Locks {
		cand[l] = true
	}
	okPhone, okPlate := false, false
	var why string
	for l := range cand {
		// the critical section of l that contains the insertion
		start := -1
		for i := firstSet; i >= 0; i-- {
			ev := st.events[i]
			if ev.Kind == "unlock" && len(ev.Args) > 0 && ev.Args[0] == l {
				break
			}
			if ev.Kind == "lock" && len(ev.Args) > 0 && ev.Args[0] == l {
				start = i
				break
			}
		}
		if start < 0 {
			continue
		}
		closed := false
		for i := firstSet; i <= lastSet; i++ {
			if st.events[i].Kind == "unlock" && st.events[i].Args[0] == l {
				closed = true
			}
		}
		if closed {
			why = "the lock is released between the two insertions"
			continue
		}
		b, _, _ := splitPtr(l)
		if b.K == KAlloc {
			why = "the lock is local to the call"
			continue
		}
		if keyedLock(l) {
			why = "(the lock is chosen by the terminal, so registrations of different terminals do not exclude each other)"
			continue
		}
		ph, pl := false, false
		for i := start; i < firstSet; i++ {
			ev := st.events[i]
			if ev.Kind != "mapget" {
				continue
			}
			if ev.Args[0] == r.phone {
				ph = true
			}
			if ev.Args[0] == r.plate {
				pl = true
			}
		}
		okPhone, okPlate = okPhone || ph, okPlate || pl
		if ph && pl {
			c.pass("atomic", "0x0100", c.at(st.events[firstSet].Pos))
			return
		}
	}
	c.fail("atomic", "0x0100", c.at(st.events[firstSet].Pos), "no lock is held from the uniqueness lookups (phone %v, plate %v) to the insertion %s", okPhone, okPlate, why)
}

// keyedLock: the lock taken depends on run-time data, so that two callers may
// hold two different ones.
func keyedLock(l *Term) bool {
	keyed := false
	eachTerm(l, map[*Term]bool{}, func(x *Term) {
		switch x.K {
		case KCall, KAt, KOp, KTrunc, KLin, KBits, KXor, KSFold, KGet, KSeq, KLen:
			keyed = true
		}
	})
	return keyed
}

func (c *Check) checkInserted(p *procRun, o Out, in *Term, inT types.Type, out *Term, outT types.Type, plate *Term) {
	st := o.st
	hT := c.e.needTyp(pModel, "MsgHeader")
	aT := c.e.needTyp(pModel, "MsgBodyAttr")
	for _, q := range []struct {
		m   string
		key *Term
	}{{"GetDeviceByPhone", p.pk.phone}, {"GetDeviceByPlate", plate}} {
		for _, v := range c.lookupDevice(st, q.m, q.key) {
			if !c.must(v.found, "inserted", q.m, p.fn, "after a successful registration the device is not found by %s", q.m) {
				continue
			}
			f := c.devFields(v.st, v.rec, p.reg.devT)
			want := map[string]*Term{
				"ID": st.get(in, inT, "DeviceID"), "Plate": plate, "Phone": p.pk.phone,
				"SessionID":       st.get(p.sess, p.reg.sessT, "ID"),
				"Conn":            st.get(p.sess, p.reg.sessT, "Conn"),
				"Status":          Int(0),
				"VersionDesc":     st.get(p.pk.attr, aT, "VersionDesc"),
				"ProtocolVersion": st.get(p.pk.hdr, hT, "ProtocolVersion"),
			}
			for k, w := range want {
				c.must(sameTerm(v.st, f[k], w), "record", k, p.fn, "registered record has %s = %s, expected %s", k, f[k], w)
			}
			c.must(isTimeNow(f["LastestComTime"]), "record", "LastestComTime", p.fn, "registered record has last communication time %s", f["LastestComTime"])
			c.must(v.st.decide(Ge0(AddC(f["Keepalive"], -1))) == 1, "record", "Keepalive", p.fn, "keepalive %s is not positive", f["Keepalive"])
		}
	}
	// the issued code
	code := st.get(out, outT, "AuthCode")
	for n, dep := range map[string]*Term{"terminal id": st.get(in, inT, "DeviceID"), "plate": plate, "phone": p.pk.phone} {
		c.must(occurs(code, func(t *Term) bool { return t == dep }), "auth-code", n, p.fn, "the issued code %s does not depend on the %s", code, n)
	}
	// keepalive supervision
	adds := timerAdds(st)
	if c.must(len(adds) == 1, "keepalive-job", "0x0100", p.fn, "registration adds %d keepalive jobs", len(adds)) {
		c.checkJob(st, adds[0], p.pk.phone, p.fn)
	}
}

// checkJob: the job added to the timer identifies and supervises the phone.
func (c *Check) checkJob(st *State, ev *Event, phone *Term, where string) {
	if strings.HasSuffix(ev.Name, ".AddFuncWithJobID") {
		c.must(sameTerm(st, ev.Args[2], phone), "keepalive-job-id", "0x0100", where, "the keepalive job is registered under %v, not the phone", ev.Args[2])
		return
	}
	job := ev.Args[2]
	if job.K != KIface {
		c.fail("keepalive-job-id", "0x0100", where, "the keepalive job %s has no id, so it cannot be cancelled", job)
		return
	}
	m := c.e.methodOf(job.T, "JobID")
	if m == nil {
		c.fail("keepalive-job-id", "0x0100", where, "the keepalive job has no JobID method, so it cannot be cancelled")
		return
	}
	for _, o := range c.run(st.clone(), m, job.A[0]) {
		c.must(o.kind == outRet && sameTerm(o.st, o.vals[0], phone), "keepalive-job-id", "0x0100", where, "the keepalive job is registered under %v, not the phone", o.vals)
	}
}

func checkC10(c *Check) {
	c.guard("auth", "0x0102", "internal/protocol/msg_processor.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		// the code issued by registration, as a function of (id, plate, phone)
		reg := c.process(r, 0x0100, fragNone, nil)
		var issued, rid, rplate *Term
		for _, o := range reg.outs {
			if o.kind != outRet || reg.failed(o) || len(c.storedDevices(o.st, r)) == 0 {
				continue
			}
			_, out, t := c.outgoing(o.st, o.vals[0])
			_, in, inT := c.incoming(o.st, o.vals[0])
			issued = o.st.get(out, t, "AuthCode")
			rid, rplate = o.st.get(in, inT, "DeviceID"), o.st.get(in, inT, "PlateNumber")
			rphone := reg.pk.phone
			p := c.process(r, 0x0102, fragNone, nil)
			rec := mk(Term{K: KGet, A: []*Term{r.phone, p.pk.phone, Int(0)}, T: ptrTo(r.devT)})
			id0, plate0 := p.pre.get(rec, r.devT, "ID"), p.pre.get(rec, r.devT, "Plate")
			want := subst(issued, map[*Term]*Term{rid: id0, rplate: plate0, rphone: p.pk.phone}, nil)
			c.checkAuth(p, rec, want)
			break
		}
		c.must(issued != nil, "auth", "issued", reg.fn, "registration issues no code")
	})
	// nothing else raises the status to online
	for _, id := range allIDs() {
		if id == 0x0102 {
			continue
		}
		for _, m := range []fragMode{fragNone, fragPart} {
			inst := idName(id) + []string{"", "-fragment"}[m]
			c.guard("online-only-by-auth", inst, "internal/protocol/msg_processor.go", func() {
				r := c.registries()
				c.assumeIndexInvariant(r)
				p := c.process(r, id, m, nil)
				for _, o := range p.outs {
					c.checkNotOnline(inst, o, r, p.fn)
				}
				c.pass("online-only-by-auth", inst, p.fn)
			})
		}
	}
	c.guard("online-only-by-auth", "keepalive", "internal/protocol/keepalive.go", func() {
		r := c.registries()
		c.assumeIndexInvariant(r)
		for _, o := range c.keepalive(r, nil).outs {
			c.checkNotOnline("keepalive", o, r, "internal/protocol/keepalive.go")
		}
		c.pass("online-only-by-auth", "keepalive", "internal/protocol/keepalive.go")
	})
}

func (c *Check) checkNotOnline(inst string, o Out, r *registries, where string) {
	for _, ev := range c.storedDevices(o.st, r) {
		v := ev.Args[2]
		s := o.st.get(v, r.devT, "Status")
		old := mk(Term{K: KGet, A: []*Term{r.phone, o.st.get(v, r.devT, "Phone"), Int(0)}, T: ptrTo(r.devT)})
		prev := c.e.newState().get(old, r.devT, "Status")
		if s == prev || o.st.decide(EqInt(s, Int(1), o.st)) == -1 || o.st.decide(EqInt(prev, Int(1), o.st)) == 1 {
			c.pass("online-only-by-auth", inst, where)
			continue
		}
		c.fail("online-only-by-auth", inst, c.at(ev.Pos), "processing %s stores a record whose status can become online without authentication (status %s)", inst, s)
	}
	for _, ev := range o.st.events {
		if ev.Kind == "store" {
			b, codes, _ := splitPtr(ev.Args[0])
			if b.K == KGet && (b.A[0] == r.phone || b.A[0] == r.plate) && len(codes) == 1 && int(codes[0]) == fieldIdx(r.devT, "Status") {
				if ev.Args[1] != nil && o.st.decide(EqInt(ev.Args[1], Int(1), o.st)) != -1 {
					c.fail("online-only-by-auth", inst, c.at(ev.Pos), "processing %s writes status %s into a shared record", inst, ev.Args[1])
				}
			}
		}
	}
}

func (c *Check) checkAuth(p *procRun, rec, want *Term) {
	r := p.reg
	acc, rej := 0, 0
	for _, o := range p.outs {
		if o.kind != outRet {
			continue
		}
		st := o.st
		if known := p.registered(st); p.failed(o) || !known {
			c.must(len(c.storedDevices(st, r)) == 0, "no-store", "0x0102", p.fn, "a failing authentication stores a record")
			if known && !st.undec && !debugSerialiseFailure(st) {
				c.fail("auth", "0x0102", p.fn, "authentication of a registered terminal ends with error %s", o.vals[1])
			}
			continue
		}
		_, out, t := c.outgoing(st, o.vals[0])
		_, in, inT := c.incoming(st, o.vals[0])
		if !c.must(out != nil && in != nil, "auth", "reply", p.fn, "authentication is not answered") {
			continue
		}
		code := st.get(in, inT, "AuthCode")
		match := st.decide(eqStr(code, want, st))
		if !c.must(match != 0, "code-compared", "0x0102", p.fn, "an outcome is reached without comparing the offered code with the issued one") {
			continue
		}
		res := st.get(out, t, "Result")
		if match == 1 {
			acc++
			c.must(sameTerm(st, res, Int(0)), "accepted-result", "0x0102", p.fn, "accepted authentication is answered with result %s", res)
			plate := p.pre.get(rec, r.devT, "Plate")
			for _, q := range []struct {
				m   string
				key *Term
			}{{"GetDeviceByPhone", p.pk.phone}, {"GetDeviceByPlate", plate}} {
				for _, v := range c.lookupDevice(st, q.m, q.key) {
					if !c.must(v.found, "accepted-present", q.m, p.fn, "after authentication the device is not found by %s", q.m) {
						continue
					}
					f := c.devFields(v.st, v.rec, r.devT)
					exp := map[string]*Term{
						"Status": Int(1), "AuthCode": code, "IMEI": st.get(in, inT, "IMEI"), "SoftwareVersion": st.get(in, inT, "SoftwareVersion"),
						"SessionID": st.get(p.sess, r.sessT, "ID"), "Conn": st.get(p.sess, r.sessT, "Conn"),
					}
					for _, k := range []string{"ID", "Plate", "Phone", "Keepalive", "VersionDesc", "ProtocolVersion"} {
						exp[k] = p.pre.get(rec, r.devT, k)
					}
					for k, w := range exp {
						c.must(sameTerm(v.st, f[k], w), "accepted-record", k, p.fn, "after authentication %s = %s, expected %s", k, f[k], w)
					}
					c.must(isTimeNow(f["LastestComTime"]), "accepted-record", "LastestComTime", p.fn, "after authentication the last communication time is %s", f["LastestComTime"])
				}
			}
			c.must(len(callsNamed(st, "gron.Cron).Cancel")) == 0, "accepted-keepalive", "0x0102", p.fn, "accepted authentication cancels the keepalive job")
		} else {
			rej++
			c.must(st.decide(EqInt(res, Int(0), st)) == -1, "rejected-result", "0x0102", p.fn, "rejected authentication is answered with result %s", res)
			c.must(len(c.storedDevices(st, r)) == 0, "rejected-no-store", "0x0102", p.fn, "rejected authentication stores a record")
			c.checkForgotten("rejected", st, p, rec)
		}
	}
	c.must(acc > 0, "accepted", "0x0102", p.fn, "no accepting outcome")
	c.must(rej > 0, "rejected", "0x0102", p.fn, "no rejecting outcome")
}

// checkForgotten: registry, position history and keepalive job are gone.
func (c *Check) checkForgotten(tag string, st *State, p *procRun, rec *Term) {
	r := p.reg
	plate := p.pre.get(rec, r.devT, "Plate")
	for _, v := range c.lookupDevice(st, "GetDeviceByPhone", p.pk.phone) {
		c.must(!v.found, tag+"-removed", "by phone", p.fn, "the record is still found by phone")
	}
	for _, v := range c.lookupDevice(st, "GetDeviceByPlate", plate) {
		c.must(!v.found, tag+"-removed", "by plate", p.fn, "the record is still found by plate")
	}
	s := st.clone()
	for _, o := range c.run(s, c.e.needMethod(pStore, "GeoCache", "GetGeoLatestByPhone"), c.geoCache(s), p.pk.phone) {
		c.must(o.kind == outRet && !isNil(o.vals[1]), tag+"-removed", "position", p.fn, "the last position is still reported")
	}
	can := callsNamed(st, "gron.Cron).Cancel")
	okc := false
	for _, ev := range can {
		if sameTerm(st, ev.Args[1], p.pk.phone) {
			okc = true
		}
	}
	c.must(okc, tag+"-keepalive", "cancelled", p.fn, "the keepalive job of the phone is not cancelled")
	// nobody else's record is touched
	for _, ev := range st.events {
		if ev.Kind == "mapdel" {
			k := ev.Args[1]
			c.must(sameTerm(st, k, p.pk.phone) || sameTerm(st, k, plate), tag+"-only-own", fmt.Sprint("mapdel"), c.at(ev.Pos), "key %s of another terminal is removed", k)
		}
	}
	for _, ev := range can {
		c.must(sameTerm(st, ev.Args[1], p.pk.phone), tag+"-only-own", "cancel", c.at(ev.Pos), "job %s of another terminal is cancelled", ev.Args[1])
	}
}

func checkC11(c *Check) {
	c.eachProcess(fragNone, []int64{0x0003}, "logout", func(d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind != outRet || o.st.undec || debugSerialiseFailure(o.st) || !p.registered(o.st) {
				continue
			}
			if p.failed(o) {
				c.fail("logout", "0x0003", p.fn, "logout of a registered terminal ends with error %s", o.vals[1])
				continue
			}
			n++
			rec := mk(Term{K: KGet, A: []*Term{p.reg.phone, p.pk.phone, Int(0)}, T: ptrTo(p.reg.devT)})
			c.checkForgotten("logout", o.st, p, rec)
			c.must(len(c.storedDevices(o.st, p.reg)) == 0, "logout-no-store", "0x0003", p.fn, "logout stores a record")
		}
		c.must(n > 0, "logout", "0x0003", p.fn, "no outcome for a registered terminal")
	})
	// afterwards the same plate and phone can register again: registration on a
	// registry without them is accepted
	c.eachProcess(fragNone, []int64{0x0100}, "re-register", func(d dispatch, p *procRun) {
		n := 0
		for _, o := range p.outs {
			if o.kind == outRet && !p.failed(o) && len(c.storedDevices(o.st, p.reg)) > 0 {
				n++
				// the id that logout cancels is the id of the job
				for _, ev := range timerAdds(o.st) {
					c.checkJob(o.st, ev, p.pk.phone, p.fn)
				}
			}
		}
		c.must(n > 0, "re-register", "0x0100", p.fn, "registration on a free registry is not accepted")
	})
}

// ownObjects: handling a message changes no object that the processor made
// beforehand and that the messages of all connections would share.
func (c *Check) ownObjects(rule, inst string, p *procRun, o Out) {
	for b, ob := range p.pre.heap {
		nw := o.st.heap[b]
		if b.K != KAlloc || nw == nil || nw == ob {
			continue
		}
		for k, v := range nw.cells {
			if w := ob.cells[k]; w != v && (w != nil || v.K != KSym) {
				c.fail(rule, inst, p.fn, "handling the message writes %s into an object (%s) that the messages of all connections share", v, b)
			}
		}
	}
	c.pass(rule, inst, p.fn)
}
