package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Path-sensitive analysis of the packet decoder together with the fragment cache over sequences of fragments (several senders and message ids, concrete and symbolic totals and numbers, body bytes symbolic), against an in-order reassembly automaton; critical-section analysis of the cache.", 60, checkC22)
}

type segStream struct {
	phone string
	id    int64
	sym   *Term // when set, the id as a symbol
}

func (s segStream) idTerm() *Term {
	if s.sym != nil {
		return s.sym
	}
	return Int(s.id)
}

type segStep struct {
	stream     int
	total, no  *Term
	fragmented bool
	n          int // body bytes
}

func (s segStep) String() string {
	if !s.fragmented {
		return fmt.Sprintf("%c whole", 'A'+s.stream)
	}
	return fmt.Sprintf("%c%s/%s", 'A'+s.stream, s.no, s.total)
}

// decodeFragment runs the packet decoder on one packet. The header decoder is
// replaced by its contract (C04); the check byte is correct (C02).
func (c *Check) decodeFragment(st *State, streams []segStream, s segStep, k int, first bool) (outs []Out, body []*Term) {
	e := c.e
	f := e.needMethod(pProto, "JT808PacketCodec", "Decode")
	hd := e.needMethod(pModel, "MsgHeader", "Decode")
	hT := ptrTo(e.needTyp(pModel, "MsgHeader"))
	aT := ptrTo(e.needTyp(pModel, "MsgBodyAttr"))
	fT := ptrTo(e.needTyp(pModel, "MsgFragmentation"))
	name := fmt.Sprintf("p%d_", k)
	ts := wordTerms(st, longWord0(s.n+2), name, []int64{0x7e, 0x7d, 1, 2})
	body = ts[1 : len(ts)-1]
	st.assume(EqInt(Xor(byteType, ts[:len(ts)-1]...), ts[len(ts)-1], st))
	frame := append(append([]*Term{Int(0x7e)}, ts...), Int(0x7e))
	e.forceUnroll = 3 * (2*len(frame) + 8)
	e.callHook = func(_ *Engine, s2 *State, nm string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if nm != hd.String() {
			return nil, false
		}
		h := args[0]
		at := Sym(name+"attr", aT)
		e.nonNil(s2, at)
		s2.set(h, hT, "MsgID", streams[s.stream].idTerm())
		s2.set(h, hT, "PhoneNumber", StrC(streams[s.stream].phone))
		s2.set(h, hT, "SerialNumber", Sym(name+"serial", types.Typ[types.Uint16]))
		s2.set(h, hT, "Attr", at)
		s2.set(h, hT, "Idx", Int(1))
		s2.set(at, aT, "BodyLength", Int(int64(s.n)))
		if s.fragmented {
			fr := Sym(name+"frag", fT)
			e.nonNil(s2, fr)
			s2.set(fr, fT, "Total", s.total)
			s2.set(fr, fT, "Index", s.no)
			s2.set(h, hT, "Frag", fr)
			s2.set(at, aT, "PacketFragmented", Int(1))
			s2.set(at, aT, "PacketFragmentedDesc", True)
		} else {
			s2.set(h, hT, "Frag", Nil)
			s2.set(at, aT, "PacketFragmented", Int(0))
			s2.set(at, aT, "PacketFragmentedDesc", False)
		}
		return []callRes{{st: s2, val: Nil}}, true
	}
	pc := c.codec()
	e.nonNil(st, pc)
	e.execOnce = first
	if c.reusedFrames {
		// the receiver has put this frame where the earlier ones were
		for _, old := range c.payloads {
			if b, _, _ := splitPtr(old.A[0]); st.heap[b] != nil {
				e.havocPtr(st, old)
			}
		}
	}
	sl := st.newSlice(seqOfElems(frame))
	if c.reusedFrames {
		c.payloads = append(c.payloads, sl)
	}
	outs = c.run(st, f, pc, sl)
	e.execOnce = false
	e.callHook = nil
	// the cache starts empty
	var keep []Out
	for _, o := range outs {
		if !assumesCached(o.st) {
			keep = append(keep, o)
			if o.kind == outRet && isNil(o.vals[1]) {
				h := o.st.get(o.vals[0], ptrTo(e.needTyp(pModel, "PacketData")), "Header")
				ok := sameTerm(o.st, o.st.get(h, hT, "MsgID"), streams[s.stream].idTerm()) && sameTerm(o.st, o.st.get(h, hT, "PhoneNumber"), StrC(streams[s.stream].phone)) && sameTerm(o.st, o.st.get(h, hT, "SerialNumber"), Sym(name+"serial", types.Typ[types.Uint16]))
				c.must(ok, "header-kept", "id, phone, serial", c.fnAt(f), "the packet handed on carries id %s, phone %s and serial %s, not those of the frame", o.st.get(h, hT, "MsgID"), o.st.get(h, hT, "PhoneNumber"), o.st.get(h, hT, "SerialNumber"))
			}
		}
	}
	return keep, body
}

// framesReused: a frame the receiver returns may lie in memory that held an
// earlier one (a field of the receiver, or the reader's own buffer), so what is
// kept of a frame must be a copy.
func (c *Check) framesReused() bool {
	f := c.e.method(pProto, "JT808FrameHandler", "Recv")
	return f != nil && keptMemory(f, 0, map[ssa.Value]bool{})
}

// keptMemory: the function's result may be memory that outlives the call.
func keptMemory(f *ssa.Function, res int, seen map[ssa.Value]bool) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) && keptValue(r.Results[res], seen) {
			return true
		}
	}
	return false
}

func keptValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return keptValue(x.X, seen)
	case *ssa.ChangeType:
		return keptValue(x.X, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if keptValue(ed, seen) {
				return true
			}
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return keptCall(cl, x.Index, seen)
		}
	case *ssa.Call:
		return keptCall(x, 0, seen)
	case *ssa.Global, *ssa.FieldAddr:
		return true // an array in place
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr:
			return true
		case *ssa.Alloc: // a captured variable or a named result
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && keptValue(s.Val, seen) {
					return true
				}
			}
		}
	}
	return false
}

func keptCall(cl *ssa.Call, res int, seen map[ssa.Value]bool) bool {
	if b, ok := cl.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "append" && keptValue(cl.Call.Args[0], seen)
	}
	f := cl.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Reader).Peek", "(*bufio.Scanner).Bytes", "(*sync.Pool).Get":
		return true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next":
		_, local := cl.Call.Args[0].(*ssa.Alloc)
		return !local
	case "bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix":
		return keptValue(cl.Call.Args[0], seen)
	}
	if len(f.Blocks) == 0 {
		return false
	}
	// a function that passes an argument back
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(r.Results) {
			if keptValue(r.Results[res], seen) {
				return true
			}
		}
	}
	for i, p := range f.Params {
		if seen[p] && i < len(cl.Call.Args) && keptValue(cl.Call.Args[i], seen) {
			return true
		}
	}
	return false
}

func longWord0(n int) []int64 {
	w := make([]int64, n)
	for i := range w {
		w[i] = -1
	}
	return w
}

// assumesCached: the path supposes an entry present before the first packet.
func assumesCached(st *State) bool {
	for t, v := range st.facts {
		if v && t.K == KHas {
			return true
		}
	}
	return false
}

// leftover names a map entry that remains at the end of a path.
func leftover(st *State) string {
	for m, ms := range st.maps {
		last := map[*Term]*Term{}
		for _, w := range ms.writes {
			last[w.key] = w.val
		}
		for k, v := range last {
			if v != nil {
				return shortFn(m.String()) + "[" + k.String() + "]"
			}
		}
	}
	return ""
}

// assembly is the oracle: parts of one message in order.
type assembly struct {
	total, next int
	data        []*Term
}

type segRun struct {
	st  *State
	asm []assembly
}

func (c *Check) segResult(rule, inst string, o Out, s segStep, done bool, body []*Term, w string) bool {
	e := c.e
	pT := ptrTo(e.needTyp(pModel, "PacketData"))
	if !c.must(o.kind == outRet && isNil(o.vals[1]), rule, inst, w, "decoding ends by %s", o.why) {
		return false
	}
	st, pd := o.st, o.vals[0]
	sc := st.decide(st.get(pd, pT, "SegCompleted"))
	if done {
		if !c.must(sc == 1, rule, inst, w, "the last missing part has arrived in order but the message is not completed") {
			return false
		}
	} else if !c.must(sc == -1, rule, inst, w, "the message is completed although its parts have not all arrived in order") {
		return false
	}
	ok := c.must(sameElems(st, st.seqOfSlice(st.get(pd, pT, "Body")), body), rule+"-body", inst, w, "the body is %s, expected %v", st.seqOfSlice(st.get(pd, pT, "Body")), body)
	frag := st.get(pd, pT, "Header.Attr.PacketFragmented")
	fr := st.get(pd, pT, "Header.Frag")
	bl := st.get(pd, pT, "Header.Attr.BodyLength")
	if done || !s.fragmented {
		ok = c.must(sameTerm(st, frag, Int(0)) && isNil(fr), rule+"-header", inst, w, "a whole message is still marked as fragmented") && ok
		ok = c.must(st.decide(st.get(pd, pT, "Header.Attr.PacketFragmentedDesc")) == -1, rule+"-header", inst+" desc", w, "a whole message is still marked as fragmented") && ok
	} else {
		ok = c.must(sameTerm(st, frag, Int(1)) && !isNil(fr), rule+"-header", inst, w, "a part is no longer marked as fragmented") && ok
	}
	ok = c.must(sameTerm(st, bl, Int(int64(len(body)))), rule+"-header", inst+" length", w, "the header gives length %s for %d body bytes", bl, len(body)) && ok
	return ok
}

func checkC22(c *Check) {
	c.noSharedScratch("working-state", inPkgs(pProto))
	c.reusedFrames = c.framesReused()
	w := "internal/protocol/packet_codec.go"
	f := c.e.method(pProto, "JT808PacketCodec", "Decode")
	if f != nil {
		w = c.fnAt(f)
	}
	streams := []segStream{{phone: "13800000001", id: 0x0200}, {phone: "13800000001", id: 0x0801}, {phone: "13800000002", id: 0x0200}, {phone: "1380000000", id: 0x0031}, {phone: "12", id: 0x3414}, {phone: "1213", id: 0x0332}}
	var walk func(rule string, r segRun, alpha []segStep, left int, name string, k int)
	walk = func(rule string, r segRun, alpha []segStep, left int, name string, k int) {
		if left == 0 {
			return
		}
		for _, s := range alpha {
			inst := name + " " + s.String()
			if k == 0 {
				inst = s.String()
			}
			asm := append([]assembly(nil), r.asm...)
			done := false
			st := r.st.clone()
			st.events = nil
			outs, body := c.decodeFragment(st, streams, s, k, k == 0)
			want := body
			if s.fragmented {
				a := &asm[s.stream]
				t, n := int(s.total.I), int(s.no.I)
				switch {
				case n == 1:
					*a = assembly{t, 2, append([]*Term(nil), body...)}
				case a.next == n && a.total == t:
					a.next++
					a.data = append(append([]*Term(nil), a.data...), body...)
				default:
					t = -1
				}
				if t == n {
					done, want = true, a.data
					*a = assembly{}
				}
			}
			if !c.must(len(outs) > 0, rule, inst, w, "no outcome") {
				continue
			}
			idle := true
			for _, a := range asm {
				idle = idle && a.next == 0
			}
			for _, o := range outs {
				if idle {
					c.must(leftover(o.st) == "", rule+"-forgotten", inst, w, "no message is incomplete but the cache still holds %s", leftover(o.st))
				}
				if c.segResult(rule, inst, o, s, done, want, w) {
					walk(rule, segRun{o.st, asm}, alpha, left-1, inst, k+1)
				}
			}
		}
	}
	start := func() segRun { return segRun{c.e.newState(), make([]assembly, len(streams))} }
	fr := func(s, no, total, n int) segStep {
		return segStep{stream: s, total: Int(int64(total)), no: Int(int64(no)), fragmented: true, n: n}
	}
	// every order of the parts of messages of up to three parts
	c.guard("one-message", "all orders", w, func() {
		var alpha []segStep
		for t := 1; t <= 3; t++ {
			for n := 1; n <= 3; n++ {
				alpha = append(alpha, fr(0, n, t, 1))
			}
		}
		walk("one-message", start(), alpha, depth(c, 2, 3), "", 0)
		walk("one-message", start(), []segStep{fr(0, 1, 3, 1), fr(0, 2, 3, 2), fr(0, 3, 3, 1)}, depth(c, 4, 5), "", 0)
		walk("one-message", start(), []segStep{fr(0, 1, 2, 0), fr(0, 2, 2, 0), fr(0, 2, 2, 1)}, depth(c, 3, 4), "", 0)
	})
	// different senders and message ids do not mix
	c.guard("senders", "interleaved", w, func() {
		walk("senders", start(), []segStep{fr(0, 1, 2, 1), fr(0, 2, 2, 1), fr(1, 1, 2, 1), fr(2, 2, 2, 1), fr(2, 1, 2, 1), fr(1, 2, 2, 1)}, depth(c, 3, 4), "", 0)
		walk("senders", start(), []segStep{fr(3, 1, 2, 1), fr(3, 2, 2, 1), fr(4, 1, 2, 1), fr(4, 2, 2, 1), fr(5, 1, 2, 1), fr(5, 2, 2, 1)}, depth(c, 2, 3), "", 0)
	})
	// any two senders or ids that differ at all, in padding, prefix, suffix, one
	// digit or one bit of the id, are kept apart
	c.guard("kept-apart", "pairs", w, func() {
		var ss []segStream
		for _, p := range []string{"13800000001", "013800000001", "00000000013800000001", "13800000002", "3800000001", "138000000011", "13800000010", "23800000001", "1", "01", "10", ""} {
			ss = append(ss, segStream{phone: p, id: 0x0200})
		}
		for _, id := range []int64{0x0201, 0x0204, 0x0210, 0x0280, 0x0300, 0x1200, 0x0002, 0x0100, 0x0102, 0x0104, 0x1205, 0x0001, 0x0020, 0x2002, 0x0030, 0x0031, 0x8200, 0xd800, 0xdfff, 0xfffd} {
			ss = append(ss, segStream{phone: "13800000001", id: id})
		}
		save := streams
		defer func() { streams = save }()
		for i := range ss {
			for j := range ss {
				if i == j || i > 0 && j > 0 && (i < 12) != (j < 12) {
					continue
				}
				streams = []segStream{ss[i], ss[j]}
				inst := fmt.Sprintf("%s %#x and %s %#x", ss[i].phone, ss[i].id, ss[j].phone, ss[j].id)
				st := c.e.newState()
				rs := []Out{{st: st}}
				step := func(k int, s segStep) (b []*Term) {
					var next []Out
					for _, r := range rs {
						r.st.events = nil
						var os []Out
						os, b = c.decodeFragment(r.st, streams, s, k, k == 0)
						next = append(next, os...)
					}
					rs = next
					return
				}
				a1 := step(0, fr(0, 1, 2, 1))
				b2 := step(1, fr(1, 2, 2, 1))
				for _, o := range rs {
					c.segResult("kept-apart", inst+" foreign part", o, fr(1, 2, 2, 1), false, b2, w)
				}
				step(2, fr(1, 1, 2, 1))
				a2 := step(3, fr(0, 2, 2, 1))
				for _, o := range rs {
					c.segResult("kept-apart", inst, o, fr(0, 2, 2, 1), true, append(append([]*Term(nil), a1...), a2...), w)
				}
				c.must(len(rs) > 0, "kept-apart", inst, w, "no outcome")
			}
		}
	})
	// the place a part is kept at differs for any two of the 65536 message ids
	c.guard("key", "all ids", w, func() {
		id := Sym("anyid", types.Typ[types.Uint16])
		outs, _ := c.decodeFragment(c.e.newState(), []segStream{{phone: "13800000001", sym: id}}, fr(0, 1, 2, 1), 0, true)
		c.must(len(outs) > 0, "key", "all ids", w, "no outcome")
		seen := map[string]int64{}
		for k := int64(0); k < 1<<16; k++ {
			for _, o := range outs {
				if len(outs) > 1 {
					if s := o.st.clone(); !s.assume(EqInt(id, Int(k), s)) {
						continue
					}
				}
				var ks []string
				for _, ms := range o.st.maps {
					for _, w := range ms.writes {
						ks = append(ks, fmt.Sprint(subst(w.key, map[*Term]*Term{id: Int(k)}, o.st).id))
					}
				}
				sort.Strings(ks)
				key := strings.Join(ks, " ")
				j, dup := seen[key]
				if !c.must(!dup || j == k, "key", "all ids", w, "parts of messages %#x and %#x of one terminal are kept at the same place", j, k) {
					return
				}
				seen[key] = k
			}
		}
	})
	// a whole packet in between is passed through
	c.guard("whole", "in between", w, func() {
		walk("whole", start(), []segStep{{stream: 0, n: 2}, fr(0, 1, 2, 1), fr(0, 2, 2, 0)}, depth(c, 3, 4), "", 0)
	})
	// long parts and many parts
	c.guard("sizes", "lengths", w, func() {
		sets := map[string][]int{"long parts": {700, 700, 700}, "full parts": {1023, 1023, 1023, 1}, "uneven parts": {1, 1023, 0, 5}, "empty parts": {0, 0, 0}, "empty first part": {0, 3, 0, 2}}
		for _, n := range append(c.mined(4, depthI(c, 400, 1100), c.e.needMethod(pProto, "JT808PacketCodec", "Decode"), c.e.needFn(pStore, "CacheSegment")), 40) {
			l := make([]int, n)
			for i := range l {
				l[i] = 1
			}
			sets[fmt.Sprintf("%d parts", n)] = l
		}
		// bodies longer than any limit of the code
		if ks := c.mined(3000, 66000, c.e.needMethod(pProto, "JT808PacketCodec", "Decode"), c.e.needFn(pStore, "CacheSegment")); len(ks) > 0 {
			n := ks[0]
			for _, k := range ks {
				n = max(n, k)
			}
			l := []int{}
			for k := 0; k < n+2*1023; k += 1023 {
				l = append(l, 1023)
			}
			sets[fmt.Sprintf("%d bytes", n)] = l
		}
		var names []string
		for k := range sets {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, inst := range names {
			front := []*State{c.e.newState()}
			var data []*Term
			for i, n := range sets[inst] {
				s := fr(0, i+1, len(sets[inst]), n)
				done := i == len(sets[inst])-1
				var next []*State
				for k, st := range front {
					st.events = nil
					outs, body := c.decodeFragment(st, streams, s, i, i == 0)
					if k == 0 {
						data = append(data, body...)
					}
					want := body
					if done {
						want = data
					}
					c.must(len(outs) > 0, "sizes", inst, w, "no outcome for part %d", i+1)
					for _, o := range outs {
						if c.segResult("sizes", inst, o, s, done, want, w) && len(next) < 2 {
							next = append(next, o.st)
						}
					}
				}
				front = next
			}
		}
	})
	// any total and any number
	for k := 0; k <= depth(c, 2, 4); k++ {
		inst := fmt.Sprintf("after %d parts", k)
		c.guard("any-number", inst, w, func() {
			st := c.e.newState()
			T := Sym("total", types.Typ[types.Uint16])
			st.assume(Ge0(Sub(T, Int(int64(k+1)))))
			rs := []segRun{{st, nil}}
			var data []*Term
			for i := 1; i <= k; i++ {
				var next []segRun
				for _, r := range rs {
					r.st.assume(Not(EqInt(T, Int(int64(i)), r.st)))
					outs, body := c.decodeFragment(r.st, streams, segStep{stream: 0, total: T, no: Int(int64(i)), fragmented: true, n: 1}, i, i == 1)
					for _, o := range outs {
						if c.segResult("any-number", inst, o, segStep{fragmented: true}, false, body, w) {
							next = append(next, segRun{o.st, nil})
						}
					}
					if len(next) > 0 && len(data) < i {
						data = append(data, body...)
					}
				}
				rs = next
			}
			N, U := Sym("number", types.Typ[types.Uint16]), Sym("total2", types.Typ[types.Uint16])
			nd, nn := 0, 0
			for _, r := range rs {
				r.st.assume(Ge0(Sub(U, Int(1))))
				outs, body := c.decodeFragment(r.st, streams, segStep{stream: 0, total: U, no: N, fragmented: true, n: 1}, 99, k == 0)
				for _, o := range outs {
					if !c.must(o.kind == outRet && isNil(o.vals[1]), "any-number", inst, w, "decoding ends by %s", o.why) {
						continue
					}
					s := o.st
					single := s.decide(EqInt(N, Int(1), s))
					last := s.decide(EqInt(N, U, s))
					if last == 0 && s.decide(EqInt(U, T, s)) == 1 {
						last = s.decide(EqInt(N, T, s))
					}
					if last == 0 && single == 1 {
						last = s.decide(EqInt(U, Int(1), s))
					}
					if last == 0 && s.decide(EqInt(N, Int(int64(k+1)), s)) == 1 {
						last = s.decide(EqInt(U, Int(int64(k+1)), s))
						if last == 0 && s.decide(EqInt(U, T, s)) == 1 {
							last = s.decide(EqInt(T, Int(int64(k+1)), s))
						}
					}
					follows := and3(s.decide(EqInt(N, Int(int64(k+1)), s)), s.decide(EqInt(U, T, s)))
					if k == 0 {
						follows = -1
					}
					pT := ptrTo(c.e.needTyp(pModel, "PacketData"))
					switch s.decide(s.get(o.vals[0], pT, "SegCompleted")) {
					case 1:
						nd++
						if single == 1 && last == 1 {
							c.segResult("any-number", inst+" single", o, segStep{fragmented: true}, true, body, w)
						} else if c.must(last == 1 && follows == 1, "any-number", inst, w, "a message is completed by part N of U after %d parts of T, knowing only %s", k, s.factsString()) {
							c.segResult("any-number", inst+" last", o, segStep{fragmented: true}, true, append(append([]*Term(nil), data...), body...), w)
						}
					case -1:
						nn++
						c.must(last == -1 || single == -1 && follows == -1, "any-number", inst+" incomplete", w, "a part that completes its message does not complete it; known: %s", s.factsString())
						c.segResult("any-number", inst+" incomplete", o, segStep{fragmented: true}, false, body, w)
					default:
						c.fail("any-number", inst, w, "completion is not decided")
					}
				}
			}
			c.must(nd > 0 && nn > 0, "any-number", inst, w, "no outcome completes or does not complete (%d, %d)", nd, nn)
		})
	}
	// one critical section from lookup to update, on an arbitrary cache
	c.guard("atomic", "cache", "internal/storage/segment_cache.go", func() {
		e := c.e
		fn := e.needFn(pStore, "CacheSegment")
		st := e.newState()
		s := Sym("seg", fn.Params[0].Type())
		e.nonNil(st, s)
		n := 0
		phone := st.get(s, fn.Params[0].Type(), "Phone")
		for _, o := range c.run(st, fn, s) {
			c.onlyOwnKeys("others-kept", "cache", o.st, func(t *Term) bool { return t == phone || t == s }, "the stored part of another message")
			ep := -1
			for _, ev := range o.st.events {
				switch ev.Kind {
				case "mapget", "mapset", "mapdel", "store", "appendto":
				default:
					continue
				}
				if ev.Kind == "store" || ev.Kind == "appendto" {
					if b := rootOf(ev.Args[0]); b.K != KGet {
						continue
					}
				} else if privateMap(o.st, ev.Args[0]) && rootOf(ev.Args[0]).K == KAlloc {
					continue
				}
				n++
				if ep < 0 {
					ep = ev.Epoch
				}
				c.must(len(ev.Locks) > 0 && ev.Epoch == ep, "atomic", "one critical section", c.at(ev.Pos), "a part is looked up and merged in different critical sections, or without the lock")
			}
		}
		c.must(n > 0, "atomic", "one critical section", c.fnAt(fn), "the cache is not used")
	})
}

func depthI(c *Check, q, t int64) int64 { return int64(depth(c, int(q), int(t))) }

func and3(a, b int) int {
	if a == -1 || b == -1 {
		return -1
	}
	if a == 1 && b == 1 {
		return 1
	}
	return 0
}
