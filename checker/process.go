package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- shared registries, identified by what the storage API does ----

type registries struct {
	phone, plate, sess, geo, params *Term // map terms
	devT, sessT                     types.Type
}

func (c *Check) registries() *registries {
	e := c.e
	r := &registries{devT: e.needTyp(pModel, "Device"), sessT: e.needTyp(pModel, "Session")}
	st := e.newState()
	d := Sym("dev", ptrTo(r.devT))
	e.nonNil(st, d)
	cache := c.deviceCache(st)
	ph, pl := st.get(d, r.devT, "Phone"), st.get(d, r.devT, "Plate")
	for _, o := range c.run(st, e.needMethod(pStore, "DeviceCache", "CacheDevice"), cache, d) {
		for _, ev := range o.st.events {
			if ev.Kind == "mapset" && ev.Args[1] == ph {
				r.phone = ev.Args[0]
			}
			if ev.Kind == "mapset" && ev.Args[1] == pl {
				r.plate = ev.Args[0]
			}
		}
	}
	if r.phone == nil || r.plate == nil {
		giveUp("storing a device does not index it by phone and by plate")
	}
	st = e.newState()
	s := Sym("sess", ptrTo(r.sessT))
	e.nonNil(st, s)
	id := st.get(s, r.sessT, "ID")
	for _, o := range c.run(st, e.needFn(pStore, "StoreSession"), s) {
		for _, ev := range o.st.events {
			if ev.Kind == "mapset" && ev.Args[1] == id {
				r.sess = ev.Args[0]
			}
		}
	}
	if r.sess == nil {
		giveUp("storing a session does not index it by its id")
	}
	st = e.newState()
	gp := Sym("gphone", types.Typ[types.String])
	for _, o := range c.run(st, e.needMethod(pStore, "GeoCache", "GetGeoRingByPhone"), c.geoCache(st), gp) {
		for _, ev := range o.st.events {
			if (ev.Kind == "mapset" || ev.Kind == "mapget") && ev.Args[1] == gp {
				r.geo = ev.Args[0]
			}
		}
	}
	if r.geo == nil {
		giveUp("the position cache is not indexed by phone")
	}
	return r
}

func (c *Check) single(st *State, rel, fn string) *Term {
	for _, o := range c.run(st, c.e.needFn(rel, fn)) {
		if o.kind == outRet && len(o.vals) > 0 {
			v := o.vals[0]
			c.e.nonNil(st, v)
			return v
		}
	}
	giveUp("%s yields no value", fn)
	return nil
}

func (c *Check) deviceCache(st *State) *Term { return c.single(st.clone(), pStore, "GetDeviceCache") }
func (c *Check) geoCache(st *State) *Term    { return c.single(st.clone(), pStore, "GetGeoCache") }

// assumeIndexInvariant makes records found under a key carry that key (this is
// what C13 establishes).
func (c *Check) assumeIndexInvariant(r *registries) {
	iPhone := fmt.Sprintf(".%d", fieldIdx(r.devT, "Phone"))
	iPlate := fmt.Sprintf(".%d", fieldIdx(r.devT, "Plate"))
	iSess := fmt.Sprintf(".%d", fieldIdx(r.sessT, "ID"))
	prev := c.e.initHook
	c.e.initHook = func(s *State, base *Term, path string, t types.Type) *Term {
		if base.K == KGet {
			switch {
			case base.A[0] == r.phone && path == iPhone, base.A[0] == r.plate && path == iPlate, base.A[0] == r.sess && path == iSess:
				return base.A[1]
			}
		}
		if prev != nil {
			return prev(s, base, path, t)
		}
		return nil
	}
	// a record found in one index is found in the other under its other key
	c.e.sameEntry = func(m, k *Term, ver int64) (*Term, *Term) {
		if k.K != KInit || k.A[0].K != KGet || k.A[0].A[2].K != KInt || k.A[0].A[2].I != ver {
			return m, k
		}
		g := k.A[0]
		if m == r.plate && g.A[0] == r.phone && k.S == iPlate || m == r.phone && g.A[0] == r.plate && k.S == iPhone {
			return g.A[0], g.A[1]
		}
		return m, k
	}
}

// ---- processing one message ----

type fragMode int

const (
	fragNone fragMode = iota
	fragPart          // fragment of an incomplete message
)

type procRun struct {
	c    *Check
	id   int64
	reg  *registries
	pk   packet
	ctx  *Term
	sess *Term
	pre  *State // state before processing
	outs []Out
	fn   string
}

func idName(id int64) string { return fmt.Sprintf("0x%04x", id) }

func (c *Check) process(r *registries, id int64, mode fragMode, prep func(st *State, p packet)) *procRun {
	e := c.e
	st, mp := e.processor()
	st = c.withTimer(st)
	st.events = nil
	p := e.newPacket(st, id)
	aT := e.needTyp(pModel, "MsgBodyAttr")
	pdT := e.needTyp(pModel, "PacketData")
	fr := st.get(p.attr, aT, "PacketFragmented")
	st.set(p.attr, aT, "PacketFragmentedDesc", EqInt(fr, Int(1), st)) // as decoded (C04)
	sign := st.get(p.attr, aT, "VersionSign")
	st.rng[sign] = Iv{0, 1}
	st.set(p.attr, aT, "VersionDesc", AddC(sign, 1))
	switch mode {
	case fragNone:
		st.assume(Not(EqInt(fr, Int(1), st)))
	case fragPart:
		st.set(p.attr, aT, "PacketFragmented", Int(1))
		st.set(p.attr, aT, "PacketFragmentedDesc", True)
		st.set(p.pkt, pdT, "SegCompleted", False)
	}
	ctx, sess := e.ctxWithSession(st)
	if prep != nil {
		prep(st, p)
	}
	f := e.needMethod(pProto, "JT808MsgProcessor", "Process")
	run := &procRun{c: c, id: id, reg: r, pk: p, ctx: ctx, sess: sess, pre: st.clone(), fn: c.fnAt(f)}
	prev := e.callHook
	e.callHook = c.decodeHook()
	run.outs = c.run(st, f, mp, ctx, p.pkt)
	e.callHook = prev
	return run
}

// decodeHook replaces the body decoders by their contract (established by C05):
// the header is the packet's, every other field is an arbitrary value of its
// type, or the decoder reports an error.
func (c *Check) decodeHook() func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
	pdT := c.e.needTyp(pModel, "PacketData")
	more := c.moreHook
	return func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if more != nil {
			if rs, ok := more(e, st, name, args, ci); ok {
				return rs, true
			}
		}
		if !strings.HasPrefix(name, "(*"+modPath+"/"+pModel+".Msg") || !strings.HasSuffix(name, ").Decode") {
			return nil, false
		}
		tn := strings.TrimSuffix(strings.TrimPrefix(name, "(*"+modPath+"/"+pModel+"."), ").Decode")
		if strings.HasPrefix(tn, "MsgHeader") || strings.HasPrefix(tn, "MsgBody") || strings.HasPrefix(tn, "MsgFrag") {
			return nil, false
		}
		t := e.needTyp(pModel, tn)
		bad := st.clone()
		bad.undec = true
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			c.havocField(st, FieldPtr(args[0], i), s.Field(i).Type(), "in."+s.Field(i).Name())
		}
		st.set(args[0], t, "Header", st.get(args[1], pdT, "Header"))
		return []callRes{{st: st, val: Nil}, {st: bad, val: ErrSentinel(modPath+"/"+pModel, "ErrDecodeMsg")}}, true
	}
}

func (c *Check) havocField(st *State, p *Term, t types.Type, name string) {
	if s, ok := c.e.decomposable(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			c.havocField(st, FieldPtr(p, i), s.Field(i).Type(), name+"."+s.Field(i).Name())
		}
		return
	}
	v := Sym(name, t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		c.e.nonNil(st, v)
	}
	st.store(p, v, t)
}

// errOf returns the error of an outcome, nil when it is provably nil.
func (p *procRun) failed(o Out) bool { return !o.st.isNilNow(o.vals[1]) && !isNil(o.vals[1]) }

// outgoing returns the reply: dynamic type name and pointer; "" when none.
func (c *Check) outgoing(st *State, data *Term) (string, *Term, types.Type) {
	if isNil(data) || st.isNilNow(data) {
		return "", nil, nil
	}
	pdT := c.e.needTyp(pModel, "ProcessData")
	v := st.get(data, pdT, "Outgoing")
	return c.dyn(st, v)
}

func (c *Check) incoming(st *State, data *Term) (string, *Term, types.Type) {
	if isNil(data) || st.isNilNow(data) {
		return "", nil, nil
	}
	pdT := c.e.needTyp(pModel, "ProcessData")
	v := st.get(data, pdT, "Incoming")
	return c.dyn(st, v)
}

func (c *Check) dyn(st *State, v *Term) (string, *Term, types.Type) {
	if isNil(v) {
		return "", nil, nil
	}
	if v.K != KIface {
		giveUp("message of unknown type: %s", v)
	}
	t := v.T
	n := t.String()
	if p, ok := t.(*types.Pointer); ok {
		if nm, ok := p.Elem().(*types.Named); ok {
			n = nm.Obj().Name()
		}
	}
	return n, v.A[0], t
}

// errIs reports whether the outcome's error is known to match a sentinel.
func (c *Check) errIs(st *State, er *Term, pkg, name string) bool {
	return st.decide(c.e.errIs(st, er, ErrSentinel(modPath+"/"+pkg, name))) == 1
}

// debugSerialiseFailure: the path on which debug logging cannot marshal the
// incoming message, the one error not caused by the message itself.
func debugSerialiseFailure(st *State) bool {
	for _, f := range st.order {
		if f.K == KNot && strings.Contains(f.String(), "encoding/json.Marshal") {
			return true
		}
	}
	return false
}

// effects lists what an outcome did to shared state or the outside world.
func (p *procRun) effects(o Out) []*Event {
	ef := effectsOf(o.st.events, func(b *Term) bool { return b == p.pk.pkt || b == p.pk.hdr || b == p.pk.attr })
	// maps the processor was set up with (its table, say) are state as well
	if p.pre != nil {
		for m, was := range p.pre.maps {
			if now := o.st.maps[m]; was.fresh && now != nil && len(now.writes) != len(was.writes) {
				ef = append(ef, &Event{Kind: "mapset", Name: "a map it was set up with", Args: []*Term{m}})
			}
		}
	}
	return ef
}

func effectsOf(evs []*Event, private func(*Term) bool) []*Event {
	var out []*Event
	for _, ev := range evs {
		switch ev.Kind {
		case "lock", "unlock", "rlock", "runlock", "mapget", "maplen", "mapiter", "defer", "loop", "load", "appendto":
			continue
		case "atomic":
			if ev.Name == "Load" {
				continue
			}
		case "store":
			b, _, _ := splitPtr(ev.Args[0])
			if private != nil && private(b) {
				continue
			}
		}
		out = append(out, ev)
	}
	return out
}

func evString(e *Engine, evs []*Event) string {
	var ss []string
	for _, ev := range evs {
		ss = append(ss, fmt.Sprintf("%s %s at %s", ev.Kind, shortFn(ev.Name), e.pos(ev.Pos)))
	}
	return strings.Join(ss, "; ")
}

// lookupDevice observes the registry through its API.
type devView struct {
	st    *State
	found bool
	rec   *Term
}

func (c *Check) lookupDevice(st *State, method string, key *Term) []devView {
	s := st.clone()
	cache := c.deviceCache(s)
	var out []devView
	for _, o := range c.run(s, c.e.needMethod(pStore, "DeviceCache", method), cache, key) {
		if o.kind != outRet {
			giveUp("%s does not return", method)
		}
		if isNil(o.vals[1]) {
			out = append(out, devView{o.st, true, o.vals[0]})
		} else {
			out = append(out, devView{o.st, false, nil})
		}
	}
	return out
}

// fields reads all fields of a device record.
func (c *Check) devFields(st *State, rec *Term, t types.Type) map[string]*Term {
	m := map[string]*Term{}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		m[s.Field(i).Name()] = st.load(FieldPtr(rec, i), s.Field(i).Type())
	}
	return m
}

func sameTerm(st *State, a, b *Term) bool {
	return a == b || (a != nil && b != nil && st.eqProved(a, b))
}

func isTimeNow(t *Term) bool {
	return t != nil && strings.Contains(t.String(), "time.Now")
}

// calls finds external calls whose name ends in suffix.
func callsNamed(st *State, suffix string) []*Event {
	var out []*Event
	for _, ev := range st.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, suffix) {
			out = append(out, ev)
		}
	}
	return out
}
