package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// primHook replaces the BCD, GBK and time primitives by uninterpreted
// functions of exactly the bytes (or the value) they are given.
func (c *Check) primHook(next func(*Engine, *State, string, []*Term, ssa.CallInstruction) ([]callRes, bool)) func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
	intT := types.Typ[types.Int]
	return func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if strings.HasPrefix(name, modPath+"/"+pHex+".") {
			read := func(kind string, n *Term, t types.Type) []callRes {
				i := st.load(args[1], intT)
				q := seqSub(st.seqOfSlice(args[0]), i, n, st)
				st.store(args[1], Add(i, n), intT)
				return []callRes{{st: st, val: Call("prim:"+kind, t, q)}}
			}
			write := func(kind string, v *Term) []callRes {
				b := Call("prim:enc"+kind, types.NewSlice(byteType), v)
				if kind == "Time" {
					return []callRes{{st: st, val: st.newSlice(Concat(st.seqOfSlice(args[0]), Seq(SChunk(b, Int(0), Int(6)))))}}
				}
				return []callRes{{st: st, val: st.newSlice(Concat(st.seqOfSlice(args[0]), Seq(SChunk(b, Int(0), LenOf(b)))))}}
			}
			switch strings.TrimPrefix(name, modPath+"/"+pHex+".") {
			case "ReadBCD":
				return read("BCD", args[2], types.Typ[types.String]), true
			case "ReadGBK":
				return read("GBK", args[2], types.Typ[types.String]), true
			case "ReadTime":
				rs := read("Time", Int(6), ci.Common().Signature().Results().At(0).Type())
				e.nonNil(st, rs[0].val)
				return rs, true
			case "WriteBCD":
				return write("BCD", args[1]), true
			case "WriteGBK":
				return write("GBK", args[1]), true
			case "WriteTime":
				return write("Time", args[1]), true
			}
		}
		if next != nil {
			return next(e, st, name, args, ci)
		}
		return nil, false
	}
}

func be(q *Term, off *Term, n int, st *State) *Term {
	if n == 1 {
		return seqAt(q, off, st)
	}
	v := Int(0)
	for i := 0; i < n; i++ {
		b := seqAt(q, AddC(off, int64(i)), st)
		v = orBits(v, shiftBits(b, int64(8*(n-1-i)), int64(8*n), st), st)
	}
	return v
}

func beElems(v *Term, n int, st *State) []*Term {
	var out []*Term
	for i := n - 1; i >= 0; i-- {
		out = append(out, andMask(shiftBits(v, int64(-8*i), 64, st), 0xff, st))
	}
	return out
}

func init() {
	register("C04", "Value-flow analysis of the header codec at bit granularity: each decoded header field equals the term of the documented bits of the packet, each encoded byte the documented field, per version and fragmentation flag; every message encoder writes the exact body length or refuses; generated headers take identity and version from the device record.", 40, checkC04)
	register("C05", "Value-flow analysis of every message body codec per protocol version against a layout table: each decoded field is the term of exactly its bytes, each encoded byte comes from exactly its field, in order and width; the BCD digits primitives are inverse to each other.", 80, checkC05)
}

// ---- header ----

func checkC04(c *Check) {
	c.noSharedScratch("working-state", inPkgs("internal/codec/", pModel))
	e := c.e
	hT := e.needTyp(pModel, "MsgHeader")
	aT := e.needTyp(pModel, "MsgBodyAttr")
	fT := e.needTyp(pModel, "MsgFragmentation")
	c.guard("header-decode", "all", "internal/protocol/model/header.go", func() {
		f := e.needMethod(pModel, "MsgHeader", "Decode")
		st := e.newState()
		h := e.alloc("hdr")
		st.heap[h] = &Obj{fresh: true, cells: map[string]*Term{}}
		var w []*Term
		for i := 0; i < 40; i++ {
			w = append(w, Sym(fmt.Sprintf("h%d", i), byteType))
		}
		q := seqOfElems(w)
		e.callHook = c.primHook(nil)
		outs := c.run(st, f, h, st.newSlice(q))
		e.callHook = nil
		seen := map[string]bool{}
		for _, o := range outs {
			s := o.st
			ver := s.decide(EqInt(andMask(shiftBits(w[2], -6, 8, s), 1, s), Int(1), s))
			frag := s.decide(EqInt(andMask(shiftBits(w[2], -5, 8, s), 1, s), Int(1), s))
			v := map[int]string{1: "2019", -1: "2013", 0: "?"}[ver] + map[int]string{1: " fragmented", -1: "", 0: " ?"}[frag]
			if !c.must(o.kind == outRet && ver != 0 && frag != 0, "header-decode", v, c.fnAt(f), "%s: an outcome does not depend on the version and fragmentation bits", o.why) {
				continue
			}
			c.must(isNil(o.vals[0]), "header-decode", v, c.fnAt(f), "a complete header is rejected with %s", o.vals[0])
			if !isNil(o.vals[0]) {
				continue
			}
			seen[v] = true
			attr := s.get(h, hT, "Attr")
			word := be(q, Int(2), 2, s)
			exp := map[string]*Term{
				"MsgID":      be(q, Int(0), 2, s),
				"BodyLength": andMask(word, 0x3ff, s), "Encryption": andMask(shiftBits(word, -10, 16, s), 7, s),
				"PacketFragmented": Int(int64((frag + 1) / 2)), "VersionSign": Int(int64((ver + 1) / 2)), "Extra": andMask(shiftBits(word, -15, 16, s), 1, s),
				"VersionDesc": Int(1),
			}
			off := int64(4)
			n := int64(6)
			exp["ProtocolVersion"] = Int(0)
			if ver == 1 {
				exp["ProtocolVersion"] = w[4]
				exp["VersionDesc"] = Int(2)
				off, n = 5, 10
			}
			exp["PhoneNumber"] = Call("prim:BCD", types.Typ[types.String], seqSub(q, Int(off), Int(n), s))
			off += n
			exp["SerialNumber"] = be(q, Int(off), 2, s)
			off += 2
			if frag == 1 {
				fr := s.get(h, hT, "Frag")
				if c.must(!isNil(fr), "header-decode", v+" fragment item", c.fnAt(f), "a fragment's packaging item is not decoded") {
					c.must(sameTerm(s, s.get(fr, fT, "Total"), be(q, Int(off), 2, s)), "header-field", v+" Total", c.fnAt(f), "Total = %s", s.get(fr, fT, "Total"))
					c.must(sameTerm(s, s.get(fr, fT, "Index"), be(q, Int(off+2), 2, s)), "header-field", v+" Index", c.fnAt(f), "Index = %s", s.get(fr, fT, "Index"))
				}
				off += 4
			}
			exp["Idx"] = Int(off)
			for k, wv := range exp {
				var got *Term
				switch k {
				case "BodyLength", "Encryption", "PacketFragmented", "VersionSign", "Extra", "VersionDesc":
					got = s.get(attr, aT, k)
				default:
					got = s.get(h, hT, k)
				}
				c.must(sameTerm(s, got, wv), "header-field", v+" "+k, c.fnAt(f), "%s is decoded as %s, documented %s", k, got, wv)
			}
			fd := s.get(attr, aT, "PacketFragmentedDesc")
			c.must(s.decide(fd) == frag, "header-field", v+" PacketFragmentedDesc", c.fnAt(f), "fragmentation flag is %s", fd)
		}
		for _, v := range []string{"2013", "2019", "2013 fragmented", "2019 fragmented"} {
			c.must(seen[v], "header-decode", v, c.fnAt(f), "no successful decoding of a %s header", v)
		}
	})
	for _, ver := range []int64{0, 1, 2} {
		for _, frag := range []bool{false, true} {
			inst := []string{"2011", "2013", "2019"}[ver] + map[bool]string{true: " fragmented", false: ""}[frag]
			c.guard("header-encode", inst, "internal/protocol/model/header.go", func() {
				f := e.needMethod(pModel, "MsgHeader", "Encode")
				st := e.newState()
				h := Sym("hdr", ptrTo(hT))
				e.nonNil(st, h)
				a := st.get(h, hT, "Attr")
				e.nonNil(st, a)
				st.set(a, aT, "VersionDesc", Int(ver))
				for k, m := range map[string]int64{"BodyLength": 0x3ff, "Encryption": 7, "PacketFragmented": 1, "VersionSign": 1, "Extra": 1} {
					st.rng[st.get(a, aT, k)] = Iv{0, m}
				}
				var fr *Term = Nil
				if frag {
					fr = st.get(h, hT, "Frag")
					e.nonNil(st, fr)
				} else {
					st.set(h, hT, "Frag", Nil)
				}
				// expectation
				ex := beElems(st.get(h, hT, "MsgID"), 2, st)
				wd := st.get(a, aT, "BodyLength")
				for k, sh := range map[string]int64{"Encryption": 10, "PacketFragmented": 13, "VersionSign": 14, "Extra": 15} {
					wd = Add(wd, Scale(st.get(a, aT, k), 1<<sh))
				}
				b := Call("prim:encBCD", types.NewSlice(byteType), st.get(h, hT, "PhoneNumber"))
				e.callHook = c.primHook(nil)
				outs := c.run(st.clone(), f, h)
				e.callHook = nil
				c.must(len(outs) > 0, "header-encode", inst, c.fnAt(f), "no outcome")
				for _, o := range outs {
					if !c.must(o.kind == outRet && isNil(o.vals[1]), "header-encode", inst, c.fnAt(f), "encoding fails: %s", o.why) {
						continue
					}
					s := o.st
					pre := Concat(seqOfElems(ex))
					q := s.seqOfSlice(o.vals[0])
					post := emptySeq
					if ver == 2 {
						post = Concat(post, seqOfElems([]*Term{st.get(h, hT, "ProtocolVersion")}))
					}
					post = Concat(post, Seq(SChunk(b, Int(0), LenOf(b))), seqOfElems(beElems(st.get(h, hT, "SerialNumber"), 2, st)))
					if frag {
						post = Concat(post, seqOfElems(beElems(st.get(fr, fT, "Total"), 2, st)), seqOfElems(beElems(st.get(fr, fT, "Index"), 2, st)))
					}
					c.sameSeq("header-encode", inst+" id", c.fnAt(f), s, seqSub(q, Int(0), Int(2), s), pre)
					c.sameSeq("header-encode", inst+" rest", c.fnAt(f), s, seqSub(q, Int(4), Sub(seqLen(q), Int(4)), s), post)
					got := be(q, Int(2), 2, s)
					c.must(c.sameAttrWord(s, got, wd, a, aT, st), "header-encode", inst+" attributes", c.fnAt(f), "attribute word %s, documented %s", got, wd)
				}
			})
		}
	}
	for _, m := range c.messageTypes() {
		c.bodyLength(m)
	}
	c.guard("generated", "GenMsgHeader", "internal/protocol/model/header.go", func() {
		f := e.needFn(pModel, "GenMsgHeader")
		dT := e.needTyp(pModel, "Device")
		for _, ver := range []int64{0, 1, 2} {
			st := e.newState()
			d := Sym("dev", ptrTo(dT))
			e.nonNil(st, d)
			st.set(d, dT, "VersionDesc", Int(ver))
			id, sn := Sym("id", f.Params[1].Type()), Sym("sn", f.Params[2].Type())
			for _, o := range c.run(st, f, d, id, sn) {
				s := o.st
				h := o.vals[0]
				exp := map[string]*Term{
					"MsgID": id, "SerialNumber": sn, "PhoneNumber": s.get(d, dT, "Phone"), "ProtocolVersion": s.get(d, dT, "ProtocolVersion"),
					"Attr.VersionDesc": Int(ver), "Attr.VersionSign": Int(ver / 2), "Attr.PacketFragmented": Int(0), "Attr.Encryption": Int(0), "Attr.Extra": Int(0),
				}
				for k, w := range exp {
					g := s.get(h, hT, k)
					c.must(sameTerm(s, g, w), "generated", fmt.Sprintf("%s version %d", k, ver), c.fnAt(f), "generated header has %s = %s, expected %s", k, g, w)
				}
				c.must(isNil(s.get(h, hT, "Frag")), "generated", "Frag", c.fnAt(f), "generated header carries a packaging item")
			}
		}
	})
}

// sameAttrWord compares two attribute words; when the terms differ in form the
// comparison is settled by evaluating both over the documented value range of
// every bit field.
func (c *Check) sameAttrWord(s *State, got, want, a *Term, aT types.Type, st *State) bool {
	if sameTerm(s, got, want) {
		return true
	}
	fields := map[string][]int64{"BodyLength": {0, 1, 0x200, 0x3ff, 0x155, 0x2aa}, "Encryption": {0, 1, 2, 4, 7}, "PacketFragmented": {0, 1}, "VersionSign": {0, 1}, "Extra": {0, 1}}
	order := []string{"BodyLength", "Encryption", "PacketFragmented", "VersionSign", "Extra"}
	ok := true
	var rec func(i int, m map[*Term]*Term)
	rec = func(i int, m map[*Term]*Term) {
		if !ok {
			return
		}
		if i == len(order) {
			x, y := subst(got, m, nil), subst(want, m, nil)
			if x.K != KInt || x != y {
				ok = false
			}
			return
		}
		for _, v := range fields[order[i]] {
			m2 := map[*Term]*Term{}
			for k, t := range m {
				m2[k] = t
			}
			m2[st.get(a, aT, order[i])] = Int(v)
			rec(i+1, m2)
		}
	}
	rec(0, map[*Term]*Term{})
	return ok
}

func (c *Check) sameSeq(rule, inst, where string, s *State, got, want *Term) bool {
	return c.must(seqEq(s, got, want), rule, inst, where, "bytes %s, expected %s", got, want)
}

func seqEq(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	// segments the facts prove empty do not count
	drop := func(q *Term) []*Term {
		var out []*Term
		for _, x := range q.A {
			if x.K == KSElem || s.decide(Ge0(Scale(segLen(x), -1))) != 1 {
				out = append(out, x)
			}
		}
		return out
	}
	sa, sb := drop(a), drop(b)
	if len(sa) != len(sb) {
		return false
	}
	for i := range sa {
		x, y := sa[i], sb[i]
		if x == y {
			continue
		}
		if x.K != y.K || len(x.A) != len(y.A) {
			return false
		}
		for j := range x.A {
			if x.A[j] == y.A[j] {
				continue
			}
			if isInt(x.A[j]) && isInt(y.A[j]) && s.decide(EqInt(x.A[j], y.A[j], s)) == 1 {
				continue
			}
			return false
		}
	}
	return true
}

// messageTypes lists the wire messages: the types implementing the message
// interface whose encoder is reachable from dispatch or the HTTP interface.
func (c *Check) messageTypes() []string {
	return []string{"Msg0001", "Msg0002", "Msg0003", "Msg0004", "Msg0100", "Msg0102", "Msg0104", "Msg0200", "Msg1205", "Msg8001", "Msg8004", "Msg8100", "Msg8103", "Msg8104", "Msg9205"}
}

type encOut struct {
	Out
	pre  *State // state when the header is written
	body *Term  // bytes after the header
	m    *Term
}

// encode runs a message encoder with the header bytes symbolic.
func (c *Check) encode(tn string, ver int64, prep func(st *State, m *Term, t types.Type)) ([]encOut, *ssa.Function, types.Type, *State) {
	e := c.e
	t := e.needTyp(pModel, tn)
	f := e.needMethod(pModel, tn, "Encode")
	hT := e.needTyp(pModel, "MsgHeader")
	aT := e.needTyp(pModel, "MsgBodyAttr")
	st := e.newState()
	m := Sym("m", ptrTo(t))
	e.nonNil(st, m)
	h := st.get(m, t, "Header")
	e.nonNil(st, h)
	a := st.get(h, hT, "Attr")
	e.nonNil(st, a)
	if ver >= 0 {
		st.set(a, aT, "VersionDesc", Int(ver))
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		c.nonNilPtrs(st, FieldPtr(m, i), s.Field(i).Type(), 0)
	}
	if prep != nil {
		prep(st, m, t)
	}
	hdr := Sym("HDR", types.NewSlice(byteType))
	he := e.needMethod(pModel, "MsgHeader", "Encode").String()
	pe := e.needMethod(pModel, "DeviceParams", "Encode").String()
	e.callHook = c.primHook(func(_ *Engine, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		switch name {
		case he:
			ev := []*Term{args[0], s.get(args[0], hT, "Attr.BodyLength")}
			for _, k := range wireFields {
				ev = append(ev, s.get(args[0], hT, k))
			}
			s.emit(&Event{Kind: stageKind, Name: "header", Args: ev, Pos: ci.Pos()})
			return []callRes{{st: s, val: Tuple(s.newSlice(Seq(SChunk(hdr, Int(0), LenOf(hdr)))), Nil)}}, true
		case pe:
			if tn == "Msg0104" || tn == "Msg8103" {
				p := Sym("PARAMS", types.NewSlice(byteType))
				bad := s.clone()
				return []callRes{{st: s, val: Tuple(s.newSlice(Seq(SChunk(p, Int(0), LenOf(p)))), Nil)}, {st: bad, val: Tuple(Nil, Sym("err:params", nil))}}, true
			}
		}
		return nil, false
	})
	pre := st.clone()
	outs := c.run(st, f, m)
	e.callHook = nil
	var res []encOut
	for _, o := range outs {
		eo := encOut{Out: o, m: m}
		if o.kind == outRet && isNil(o.vals[1]) {
			q := o.st.seqOfSlice(o.vals[0])
			if len(q.A) > 0 && q.A[0] == SChunk(hdr, Int(0), LenOf(hdr)) {
				eo.body = Seq(q.A[1:]...)
			}
		}
		res = append(res, eo)
	}
	return res, f, t, pre
}

func (c *Check) nonNilPtrs(st *State, p *Term, t types.Type, d int) {
	if d > 3 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v := st.load(p, t)
		c.e.nonNil(st, v)
	case *types.Struct:
		if strings.HasPrefix(t.String(), "time.") {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			c.nonNilPtrs(st, FieldPtr(p, i), u.Field(i).Type(), d+1)
		}
	}
}

// bodyLength: what is encoded has a header carrying the exact length of the
// body that follows, and never a truncated one.
func (c *Check) bodyLength(tn string) {
	c.guard("body-length", tn, "internal/protocol/model", func() {
		for _, ver := range []int64{1, 2} {
			inst := tn + []string{"", " 2013", " 2019"}[ver]
			outs, f, t, pre := c.encode(tn, ver, nil)
			hT := c.e.needTyp(pModel, "MsgHeader")
			n := 0
			var lens []accepted
			for _, o := range outs {
				if o.kind != outRet || !isNil(o.vals[1]) {
					if o.kind == outPanic {
						c.fail("body-length", inst, c.at(o.pos), "encoding panics: %s", o.why)
					}
					continue
				}
				n++
				if !c.must(o.body != nil, "body-length", inst, c.fnAt(f), "the packet does not start with the message's header: %s", o.st.seqOfSlice(o.vals[0])) {
					continue
				}
				hs := stages(o.st)
				if !c.must(len(hs) == 1 && sameTerm(o.st, hs[0].Args[0], pre.get(o.m, t, "Header")), "body-length", inst, c.fnAt(f), "the header written is not the message's own") {
					continue
				}
				l := seqLen(o.body)
				lens = append(lens, accepted{o.st, l})
				for i, k := range wireFields {
					w := pre.get(pre.get(o.m, t, "Header"), hT, k)
					c.must(sameTerm(o.st, hs[0].Args[2+i], w), "header-kept", inst+" "+k, c.fnAt(f), "the header is written with %s = %s, the message has %s", k, hs[0].Args[2+i], w)
				}
				c.must(sameTerm(o.st, hs[0].Args[1], l) && o.st.decide(Ge0(Sub(Int(1023), l))) == 1, "body-length", inst, c.fnAt(f), "the header announces %s bytes, the body has %s (limit 1023)", hs[0].Args[1], l)
			}
			c.must(n > 0, "body-length", inst, c.fnAt(f), "no successful encoding")
			// a body of variable length is accepted at every length up to the limit
			if len(lens) == 0 || lens[0].l.K == KInt {
				continue
			}
			for _, want := range append(c.mined(1, 1024, f), 1022, 1023) {
				ok, can := false, false
				for _, a := range lens {
					if a.l.K == KInt {
						continue
					}
					can = can || pre.clone().assume(EqInt(a.l, Int(int64(want)), pre))
					s := a.st.clone()
					ok = ok || s.assume(EqInt(a.l, Int(int64(want)), s))
				}
				if can && want <= 1023 {
					c.must(ok, "body-fits", fmt.Sprintf("%s, %d bytes", inst, want), c.fnAt(f), "no path encodes a body of %d bytes, which the length field can announce", want)
				}
			}
		}
	})
}

type accepted struct {
	st *State
	l  *Term
}

// wireFields are the header fields that are sent besides the body's length.
var wireFields = []string{"MsgID", "ProtocolVersion", "PhoneNumber", "SerialNumber", "Frag", "Attr.VersionDesc", "Attr.Encryption", "Attr.PacketFragmented", "Attr.VersionSign", "Attr.Extra"}

// ---- message bodies ----

// fspec is one field of a body layout: kind byte, word, dword, bcdN, strN
// (exact), padN (zero padded on the right), gbk* / str* (the rest of the body),
// len (length of the next string, byte), strlen (as long as that), time.
type fspec struct {
	name, kind string
	n          int64
}

type layout struct {
	msg    string
	ver    int64 // -1: any
	fields []fspec
	decode bool
	encode bool
	prep   func(c *Check, st *State, body, hdr *Term) // extra assumptions for decoding
	tag    string
}

func layouts() []layout {
	ans := []fspec{{"AnswerSerialNumber", "word", 2}, {"AnswerMessageID", "word", 2}, {"Result", "byte", 1}}
	q := []fspec{{"LogicChannelID", "byte", 1}, {"StartTime", "time", 6}, {"EndTime", "time", 6}, {"AlarmSign", "dword", 4}, {"AlarmSignExt", "dword", 4}, {"MediaType", "byte", 1}, {"StreamType", "byte", 1}, {"StorageType", "byte", 1}}
	reg := func(a, b, d int64) []fspec {
		return []fspec{{"ProvinceID", "word", 2}, {"CityID", "word", 2}, {"ManufacturerID", "pad", a}, {"DeviceMode", "pad", b}, {"DeviceID", "pad", d}, {"PlateColor", "byte", 1}, {"PlateNumber", "gbk*", 0}}
	}
	blen := func(lo, hi int64) func(c *Check, st *State, body, hdr *Term) {
		return func(c *Check, st *State, body, hdr *Term) {
			l := st.get(hdr, c.e.needTyp(pModel, "MsgHeader"), "Attr.BodyLength")
			st.rng[l] = Iv{lo, hi}
		}
	}
	all := []layout{
		{"Msg0001", -1, ans, true, true, nil, ""},
		{"Msg8001", -1, ans, true, true, nil, ""},
		{"Msg0002", -1, nil, true, true, nil, ""},
		{"Msg0003", -1, nil, true, true, nil, ""},
		{"Msg0004", -1, nil, true, true, nil, ""},
		{"Msg8104", -1, nil, true, true, nil, ""},
		{"Msg0100", 2, reg(11, 30, 30), true, true, blen(76, 1023), " 2019"},
		{"Msg0100", 1, reg(5, 20, 7), true, true, blen(38, 1023), " 2013"},
		{"Msg0100", 1, reg(5, 8, 7), true, false, blen(25, 37), " 2011"},
		{"Msg0100", 0, reg(5, 8, 7), false, true, nil, " 2011"},
		{"Msg0102", 1, []fspec{{"AuthCode", "str*", 0}}, true, true, nil, " 2013"},
		{"Msg0102", 0, []fspec{{"AuthCode", "str*", 0}}, false, true, nil, " 2011"},
		{"Msg0102", 2, []fspec{{"AuthCodeLen", "len", 1}, {"AuthCode", "strlen", 0}, {"IMEI", "pad", 15}, {"SoftwareVersion", "pad", 20}}, true, true, nil, " 2019"},
		{"Msg0104", -1, []fspec{{"AnswerSerialNumber", "word", 2}, {"AnswerParamCnt", "cnt", 1}, {"Parameters", "params", 0}}, true, true, nil, ""},
		{"Msg8103", -1, []fspec{{"ParamCnt", "cnt", 1}, {"Parameters", "params", 0}}, true, true, nil, ""},
		{"Msg0200", -1, []fspec{{"AlarmSign", "dword", 4}, {"StatusSign", "dword", 4}, {"Latitude", "dword", 4}, {"Longitude", "dword", 4}, {"Altitude", "word", 2}, {"Speed", "word", 2}, {"Direction", "word", 2}, {"Time", "bcd", 6}}, true, true, nil, ""},
		{"Msg8004", -1, []fspec{{"ServerTime", "time", 6}}, true, true, nil, ""},
		{"Msg8100", -1, []fspec{{"AnswerSerialNumber", "word", 2}, {"Result", "byte", 1}, {"AuthCode", "str*", 0}}, true, true, nil, ""},
		{"Msg9205", -1, q, true, true, nil, ""},
		{"Msg1205", -1, append(append([]fspec{{"AnswerSerialNumber", "word", 2}, {"MediaCount", "dword", 4}}, q...), fspec{"Size", "dword", 4}), true, true, nil, ""},
	}
	return all
}

func checkC05(c *Check) {
	c.noSharedScratch("working-state", inPkgs("internal/codec/", pModel))
	for _, l := range layouts() {
		if l.decode {
			c.guard("decode", l.msg+l.tag, "internal/protocol/model", func() { c.decodeLayout(l) })
			for _, fs := range l.fields {
				if fs.kind == "pad" {
					c.guard("decode-padded", l.msg+l.tag, "internal/protocol/model", func() { c.decodePads(l) })
					break
				}
			}
		}
		if l.encode {
			c.guard("encode", l.msg+l.tag, "internal/protocol/model", func() { c.encodeLayout(l) })
		}
	}
	c.bcdPrimitive()
	c.timePrimitive()
	c.gbkPrimitive()
}

func (c *Check) decodeLayout(l layout) {
	e := c.e
	name := l.msg + l.tag
	t := e.needTyp(pModel, l.msg)
	pT := e.needTyp(pModel, "PacketData")
	hT := e.needTyp(pModel, "MsgHeader")
	aT := e.needTyp(pModel, "MsgBodyAttr")
	f := e.needMethod(pModel, l.msg, "Decode")
	st := e.newState()
	pk := Sym("packet", ptrTo(pT))
	e.nonNil(st, pk)
	hdr := st.get(pk, pT, "Header")
	e.nonNil(st, hdr)
	at := st.get(hdr, hT, "Attr")
	e.nonNil(st, at)
	if l.ver >= 0 {
		st.set(at, aT, "VersionDesc", Int(l.ver))
	}
	bodyS := st.get(pk, pT, "Body")
	body := st.seqOfSlice(bodyS)
	if l.prep != nil {
		l.prep(c, st, body, hdr)
	}
	blen := st.get(hdr, hT, "Attr.BodyLength")
	m := e.alloc("msg")
	st.heap[m] = &Obj{fresh: true, cells: map[string]*Term{}}
	pd := e.needMethod(pModel, "DeviceParams", "Decode").String()
	e.callHook = c.primHook(func(_ *Engine, s *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if nm == pd {
			s.emit(&Event{Kind: stageKind, Name: "params", Args: []*Term{args[0], args[1], args[2], s.seqOfSlice(args[3])}, Pos: ci.Pos()})
			return []callRes{{st: s.clone(), val: Nil}, {st: s, val: Sym("err:params", nil)}}, true
		}
		return nil, false
	})
	outs := c.run(st, f, m, pk)
	e.callHook = nil
	n := 0
	for _, o := range outs {
		if o.kind == outPanic && strings.Contains(o.why, "bounds") {
			continue // body shorter than its layout
		}
		if !c.must(o.kind == outRet, "decode", name, c.at(o.pos), "decoding panics: %s", o.why) {
			continue
		}
		s := o.st
		if !isNil(o.vals[0]) {
			perr := false
			for _, ev := range stages(s) {
				perr = perr || ev.Name == "params"
			}
			c.must(perr, "decode", name, c.fnAt(f), "a body of the documented layout is rejected with %s", o.vals[0])
			continue
		}
		n++
		c.must(sameTerm(s, s.get(m, t, "Header"), hdr), "header-kept", name, c.fnAt(f), "the decoded message's header is %s, not the packet's", s.get(m, t, "Header"))
		off := Int(0)
		var lastLen *Term
		for _, fs := range l.fields {
			inst := name + " " + fs.name
			got := s.get(m, t, fs.name)
			var want *Term
			w := Int(fs.n)
			switch fs.kind {
			case "byte", "word", "dword", "len", "cnt":
				want = be(body, off, int(fs.n), s)
				if fs.kind == "len" {
					lastLen = want
				}
				if fs.kind == "cnt" {
					lastLen = want
				}
			case "bcd":
				want = Call("prim:BCD", types.Typ[types.String], seqSub(body, off, w, s))
			case "time":
				fp, ft := s.fieldPtr(m, t, fs.name)
				_ = fp
				want = Call("prim:Time", ft, seqSub(body, off, w, s))
			case "gbk*":
				w = Sub(blen, off)
				want = Call("prim:GBK", types.Typ[types.String], seqSub(body, off, w, s))
			case "str*":
				w = Sub(blen, off)
				want = strOf(seqSub(body, off, w, s))
			case "strlen":
				w = lastLen
				want = strOf(seqSub(body, off, w, s))
			case "pad":
				q := seqSub(body, off, w, s)
				ok := c.exactlyReads(got, bodyS, q)
				c.must(ok, "decode-field", inst, c.fnAt(f), "%s is decoded as %s, documented bytes %s", fs.name, got, q)
				off = Add(off, w)
				continue
			case "params":
				ok := false
				for _, ev := range stages(s) {
					if ev.Name == "params" && sameTerm(s, ev.Args[0], got) && sameTerm(s, ev.Args[2], lastLen) && seqEq(s, ev.Args[3], seqSub(body, off, Sub(seqLen(body), off), s)) {
						ok = true
					}
				}
				c.must(ok, "decode-field", inst, c.fnAt(f), "the parameter list is not decoded from the announced count and the rest of the body")
				continue
			}
			c.must(sameTerm(s, got, want), "decode-field", inst, c.fnAt(f), "%s is decoded as %s, documented %s", fs.name, got, want)
			off = Add(off, w)
		}
	}
	c.must(n > 0, "decode", name, c.fnAt(f), "no successful decoding")
}

// decodePads: a zero-padded field decodes to its bytes without the trailing
// zeros, and to nothing less: leading, inner and other trailing bytes stay.
func (c *Check) decodePads(l layout) {
	e := c.e
	name := l.msg + l.tag
	t := e.needTyp(pModel, l.msg)
	pT := e.needTyp(pModel, "PacketData")
	hT := e.needTyp(pModel, "MsgHeader")
	aT := e.needTyp(pModel, "MsgBodyAttr")
	f := e.needMethod(pModel, l.msg, "Decode")
	pats := []string{"", "AB", "A", " A\x00B ", "\x00\x00AB", "\x00 ", "\t\xd4\xc1Z\n", "0", "00", "\xff\x00A", "full", "full "}
	for pi := range pats {
		var body []byte
		want := map[string]string{}
		k := pi
		for _, fs := range l.fields {
			switch fs.kind {
			case "pad":
				v := pats[k%len(pats)]
				k += 5
				b := make([]byte, fs.n)
				if strings.HasPrefix(v, "full") {
					for i := range b {
						b[i] = byte('a' + i%26)
					}
					if v == "full " {
						b[0], b[fs.n-1] = ' ', ' '
					}
				} else {
					copy(b, v)
				}
				body = append(body, b...)
				want[fs.name] = strings.TrimRight(string(b), "\x00")
			case "len":
				body = append(body, 3)
			case "strlen":
				body = append(body, "k\x00y"...)
			case "gbk*":
				body = append(body, "AB123"...)
			default:
				body = append(body, make([]byte, fs.n)...)
			}
		}
		st := e.newState()
		pk := Sym("packet", ptrTo(pT))
		e.nonNil(st, pk)
		hdr := st.get(pk, pT, "Header")
		e.nonNil(st, hdr)
		at := st.get(hdr, hT, "Attr")
		e.nonNil(st, at)
		st.set(at, aT, "VersionDesc", Int(l.ver))
		st.set(at, aT, "BodyLength", Int(int64(len(body))))
		st.set(pk, pT, "Body", st.newSlice(seqOfStr(StrC(string(body)))))
		m := e.alloc("msg")
		st.heap[m] = &Obj{fresh: true, cells: map[string]*Term{}}
		e.callHook = c.primHook(nil)
		e.forceUnroll = 200
		outs := c.run(st, f, m, pk)
		e.callHook, e.forceUnroll = nil, 0
		for _, o := range outs {
			if !c.must(o.kind == outRet && isNil(o.vals[0]), "decode-padded", fmt.Sprintf("%s pattern %d", name, pi), c.fnAt(f), "a body of the documented layout is not decoded") {
				continue
			}
			for _, fs := range l.fields {
				if w, ok := want[fs.name]; ok {
					g := o.st.get(m, t, fs.name)
					// the IMEI fills its 15 bytes; padding it is not documented
					raw := fs.name == "IMEI" && g.K == KStr && len(g.S) == int(fs.n) && strings.TrimRight(g.S, "\x00") == w
					c.must(raw || g == StrC(w), "decode-padded", fmt.Sprintf("%s %s pattern %d", name, fs.name, pi), c.fnAt(f), "the %d bytes %q decode to %s, not %q", fs.n, w+"\\0...", g, w)
				}
			}
		}
	}
}

// exactlyReads: v is computed from the given bytes of the body and no others.
func (c *Check) exactlyReads(v, body, q *Term) bool {
	hit, bad := false, false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t == q || len(q.A) == 1 && t == q.A[0] {
			hit = true
			return
		}
		if (t.K == KSChunk || t.K == KAt) && t.A[0] == body {
			bad = true
			return
		}
		for _, x := range t.A {
			walk(x)
		}
	}
	walk(v)
	return hit && !bad
}

func (c *Check) encodeLayout(l layout) {
	var pads []fspec
	for _, fs := range l.fields {
		if fs.kind == "pad" {
			pads = append(pads, fs)
		}
	}
	// every combination of padded fields being shorter than their width or not
	for k := 0; k < 1<<len(pads); k++ {
		c.encodeCase(l, func(st *State, m *Term, t types.Type) {
			for i, fs := range pads {
				ln := LenOf(st.get(m, t, fs.name))
				if k>>i&1 == 1 {
					st.assume(Ge0(Sub(ln, Int(fs.n))))
				} else {
					st.assume(Ge0(Sub(Int(fs.n-1), ln)))
				}
			}
		})
	}
}

func (c *Check) encodeCase(l layout, prep func(st *State, m *Term, t types.Type)) {
	name := l.msg + l.tag
	outs, f, t, pre := c.encode(l.msg, l.ver, prep)
	n := 0
	for _, o := range outs {
		if !c.must(o.kind == outRet, "encode", name, c.at(o.pos), "encoding panics: %s", o.why) {
			continue
		}
		if !isNil(o.vals[1]) {
			continue // refused: body too long or parameters not encodable (C04, C21)
		}
		n++
		s := o.st
		if !c.must(o.body != nil, "encode", name, c.fnAt(f), "the packet does not start with the header") {
			continue
		}
		want := emptySeq
		dec := true
		for i, fs := range l.fields {
			v := pre.get(o.m, t, fs.name)
			switch fs.kind {
			case "byte", "word", "dword":
				want = Concat(want, seqOfElems(beElems(v, int(fs.n), s)))
			case "bcd":
				b := Call("prim:encBCD", types.NewSlice(byteType), v)
				want = Concat(want, Seq(SChunk(b, Int(0), LenOf(b))))
			case "gbk*":
				b := Call("prim:encGBK", types.NewSlice(byteType), v)
				want = Concat(want, Seq(SChunk(b, Int(0), LenOf(b))))
			case "time":
				tt := pre.load(v, structPtrElem(pre, o.m, t, fs.name))
				b := Call("prim:encTime", types.NewSlice(byteType), tt)
				want = Concat(want, Seq(SChunk(b, Int(0), Int(6))))
			case "str*", "strlen":
				want = Concat(want, seqOfStr(v))
			case "len":
				nv := pre.get(o.m, t, l.fields[i+1].name)
				want = Concat(want, Seq(SElem(wrap(LenOf(nv), types.Typ[types.Uint8], s))))
			case "pad":
				ln := LenOf(v)
				switch {
				case s.decide(Ge0(Sub(ln, Int(fs.n)))) == 1:
					want = Concat(want, seqSub(seqOfStr(v), Int(0), Int(fs.n), s))
				case s.decide(Ge0(Sub(Int(fs.n), ln))) == 1:
					want = Concat(want, seqOfStr(v), Seq(SFill(Int(0), Sub(Int(fs.n), ln))))
				default:
					dec = false
				}
			case "cnt":
			case "params":
				p := Sym("PARAMS", types.NewSlice(byteType))
				want = Concat(want, Seq(SChunk(p, Int(0), LenOf(p))))
			}
		}
		if !c.must(dec, "encode", name, c.fnAt(f), "a padded field is written without regard to its length") {
			continue
		}
		c.must(seqEq(s, o.body, want), "encode", name, c.fnAt(f), "body %s, documented %s", o.body, want)
	}
	c.must(n > 0, "encode", name, c.fnAt(f), "no successful encoding")
}

func structPtrElem(st *State, m *Term, t types.Type, name string) types.Type {
	_, ft := st.fieldPtr(m, t, name)
	if p, ok := ft.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ft
}

// bcdPrimitive: decimal digits survive both directions.
func (c *Check) bcdPrimitive() {
	e := c.e
	for _, n := range []int{6, 10} {
		inst := fmt.Sprintf("%d digits", 2*n)
		c.guard("bcd", inst, "internal/codec/hex/hex.go", func() {
			rd, wr := e.needFn(pHex, "ReadBCD"), e.needFn(pHex, "WriteBCD")
			st := e.newState()
			var ds, bs []*Term
			for i := 0; i < 2*n; i++ {
				d := Sym(fmt.Sprintf("d%d", i), byteType)
				st.rng[d] = Iv{0, 9}
				ds = append(ds, d)
			}
			for i := 0; i < n; i++ {
				bs = append(bs, Add(Scale(ds[2*i], 16), ds[2*i+1]))
			}
			lead := Sym("lead", byteType)
			idx := e.alloc("idx")
			st.heap[idx] = &Obj{fresh: true, cells: map[string]*Term{}}
			st.store(idx, Int(1), types.Typ[types.Int])
			e.forceUnroll = 64
			var txt []*Term
			for _, d := range ds {
				txt = append(txt, AddC(d, '0'))
			}
			pkt := seqOfElems(append([]*Term{lead}, append(append([]*Term{}, bs...), lead)...))
			for _, o := range c.run(st, rd, st.newSlice(pkt), idx, Int(int64(n))) {
				if !c.must(o.kind == outRet, "bcd", inst+" read", c.fnAt(rd), "reading panics: %s", o.why) {
					continue
				}
				c.must(sameElems(o.st, seqOfStr(o.vals[0]), txt), "bcd", inst+" read", c.fnAt(rd), "decimal digits are read as %s", o.vals[0])
				c.must(sameTerm(o.st, o.st.load(idx, types.Typ[types.Int]), Int(int64(n+1))), "bcd", inst+" read advances", c.fnAt(rd), "the read position becomes %s", o.st.load(idx, types.Typ[types.Int]))
			}
			st2 := e.newState()
			for _, d := range ds {
				st2.rng[d] = Iv{0, 9}
			}
			for _, o := range c.run(st2, wr, st2.newSlice(seqOfElems([]*Term{lead})), strOf(seqOfElems(txt))) {
				if !c.must(o.kind == outRet, "bcd", inst+" write", c.fnAt(wr), "writing panics: %s", o.why) {
					continue
				}
				c.must(sameElems(o.st, o.st.seqOfSlice(o.vals[0]), append([]*Term{lead}, bs...)), "bcd", inst+" write", c.fnAt(wr), "decimal digits are written as %s", o.st.seqOfSlice(o.vals[0]))
			}
		})
	}
}

// timePrimitive: a time is written as the two-digit year, month, day, hour,
// minute and second of that very value, and read back from those digits.
func (c *Check) timePrimitive() {
	e := c.e
	w := "internal/codec/hex/hex.go"
	names := []string{"Year", "Month", "Day", "Hour", "Minute", "Second"}
	setup := func(st *State) (ds, txt, bs []*Term, comp map[string]*Term) {
		comp = map[string]*Term{}
		for _, n := range names {
			a, b := Sym(n+"1", byteType), Sym(n+"0", byteType)
			st.rng[a], st.rng[b] = Iv{0, 9}, Iv{0, 9}
			ds = append(ds, a, b)
			v := Add(Scale(a, 10), b)
			if n == "Year" {
				v = AddC(v, 2000)
			}
			comp[n] = v
			bs = append(bs, Add(Scale(a, 16), b))
		}
		for _, d := range ds {
			txt = append(txt, AddC(d, '0'))
		}
		return
	}
	c.guard("time", "write", w, func() {
		wr := e.needFn(pHex, "WriteTime")
		st := e.newState()
		_, txt, bs, comp := setup(st)
		tm := Sym("when", wr.Params[1].Type())
		lead := Sym("lead", byteType)
		e.forceUnroll = 64
		e.callHook = func(_ *Engine, s *State, nm string, as []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
			if !strings.HasPrefix(nm, "(time.Time).") || len(as) == 0 || as[0] != tm {
				return nil, false
			}
			m := strings.TrimPrefix(nm, "(time.Time).")
			switch {
			case comp[m] != nil:
				return ret1(s, comp[m]), true
			case m == "Date":
				return ret1(s, Tuple(comp["Year"], comp["Month"], comp["Day"])), true
			case m == "Clock":
				return ret1(s, Tuple(comp["Hour"], comp["Minute"], comp["Second"])), true
			case m == "Format" && as[1] == StrC("060102150405"):
				return ret1(s, strOf(seqOfElems(txt))), true
			}
			return nil, false
		}
		outs := c.run(st, wr, st.newSlice(seqOfElems([]*Term{lead})), tm)
		e.callHook = nil
		n := 0
		for _, o := range outs {
			if !c.must(o.kind == outRet, "time", "write", c.fnAt(wr), "writing panics: %s", o.why) {
				continue
			}
			n++
			got := o.st.seqOfSlice(o.vals[0])
			c.must(sameElems(o.st, got, append([]*Term{lead}, bs...)), "time", "write", c.fnAt(wr), "a time is not written as the digits of its own year, month, day, hour, minute and second")
		}
		c.must(n > 0, "time", "write", w, "no outcome")
	})
	c.guard("time", "read", w, func() {
		rd := e.needFn(pHex, "ReadTime")
		st := e.newState()
		_, txt, bs, _ := setup(st)
		lead := Sym("lead", byteType)
		idx := e.alloc("idx")
		st.heap[idx] = &Obj{fresh: true, cells: map[string]*Term{}}
		st.store(idx, Int(1), types.Typ[types.Int])
		e.forceUnroll = 64
		pkt := seqOfElems(append([]*Term{lead}, append(append([]*Term{}, bs...), lead)...))
		n := 0
		for _, o := range c.run(st, rd, st.newSlice(pkt), idx) {
			if !c.must(o.kind == outRet, "time", "read", c.fnAt(rd), "reading panics: %s", o.why) {
				continue
			}
			c.must(sameTerm(o.st, o.st.load(idx, types.Typ[types.Int]), Int(7)), "time", "read advances", c.fnAt(rd), "the read position becomes %s", o.st.load(idx, types.Typ[types.Int]))
			v := o.st.load(o.vals[0], rd.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			if isTimeNow(v) {
				continue // the digits are no date
			}
			n++
			ok := v.K == KProj && v.A[0].K == KCall && (v.A[0].S == "time.Parse" || v.A[0].S == "time.ParseInLocation" && strings.Contains(v.A[0].A[2].String(), "UTC"))
			if c.must(ok, "time", "read", c.fnAt(rd), "a time is read as %s, not parsed from its digits", v) {
				call := v.A[0]
				c.must(call.A[0] == StrC("060102150405") && sameElems(o.st, seqOfStr(call.A[1]), txt), "time", "read", c.fnAt(rd), "a time is parsed with layout %s from %s", call.A[0], call.A[1])
			}
		}
		c.must(n > 0, "time", "read", w, "no outcome reads the time")
	})
}

// gbkPrimitive: text is converted by the GBK decoder when read and by the GBK
// encoder when written, from exactly the bytes given.
func (c *Check) gbkPrimitive() {
	e := c.e
	w := "internal/codec/hex/hex.go"
	const gbk = "golang.org/x/text/encoding/simplifiedchinese.GBK"
	uses := func(t *Term, m string) (ok bool) {
		occurs(t, func(x *Term) bool {
			if x.K == KCall && strings.HasSuffix(x.S, ".New"+m) && len(x.A) > 0 && strings.HasSuffix(strings.TrimPrefix(x.A[0].String(), "&"), gbk) {
				ok = true
			}
			return false
		})
		return
	}
	c.guard("gbk", "read", w, func() {
		rd := e.needFn(pHex, "ReadGBK")
		st := e.newState()
		pkt := Sym("pkt", types.NewSlice(byteType))
		k := Sym("n", types.Typ[types.Int])
		idx := e.alloc("idx")
		st.heap[idx] = &Obj{fresh: true, cells: map[string]*Term{}}
		i0 := Sym("i", types.Typ[types.Int])
		st.store(idx, i0, types.Typ[types.Int])
		q := seqSub(st.seqOfSlice(pkt), i0, k, st)
		n := 0
		for _, o := range c.run(st, rd, pkt, idx, k) {
			if o.kind != outRet {
				continue
			}
			c.must(sameTerm(o.st, o.st.load(idx, types.Typ[types.Int]), Add(i0, k)), "gbk", "read advances", c.fnAt(rd), "the read position becomes %s", o.st.load(idx, types.Typ[types.Int]))
			if o.vals[0] == StrC("") {
				continue // not convertible
			}
			n++
			c.must(uses(o.vals[0], "Decoder") && !uses(o.vals[0], "Encoder"), "gbk", "read", c.fnAt(rd), "text is read as %s, not through the GBK decoder", o.vals[0])
			c.must(c.exactlyReads(o.vals[0], pkt, q), "gbk", "read", c.fnAt(rd), "text is read from other bytes than the %s asked for", k)
		}
		c.must(n > 0, "gbk", "read", w, "no outcome converts the text")
	})
	c.guard("gbk", "write", w, func() {
		wr := e.needFn(pHex, "WriteGBK")
		st := e.newState()
		pkt := Sym("pkt", types.NewSlice(byteType))
		str := Sym("str", types.Typ[types.String])
		n := 0
		for _, o := range c.run(st, wr, pkt, str) {
			if o.kind != outRet {
				continue
			}
			got := o.st.seqOfSlice(o.vals[0])
			if seqEq(o.st, got, o.st.seqOfSlice(pkt)) {
				continue
			}
			n++
			c.must(uses(got, "Encoder") && !uses(got, "Decoder") && occurs(got, func(x *Term) bool { return x == str }), "gbk", "write", c.fnAt(wr), "text is written as %s, not through the GBK encoder", got)
			c.must(len(got.A) >= 1 && seqEq(o.st, Seq(got.A[0]), o.st.seqOfSlice(pkt)), "gbk", "write", c.fnAt(wr), "what was written before is changed")
		}
		c.must(n > 0, "gbk", "write", w, "no outcome converts the text")
	})
}
