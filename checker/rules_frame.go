package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The byte classes that framing and escaping can tell apart. A word is a
// sequence of class members; "other" bytes stay symbolic, so one word stands
// for every byte string of that shape.
var frameBytes = []int64{0x7e, 0x7d, 0x01, 0x02, -1}

func wordName(w []int64) string {
	var s []string
	for _, b := range w {
		if b < 0 {
			s = append(s, "..")
		} else {
			s = append(s, fmt.Sprintf("%02x", b))
		}
	}
	if len(s) > 12 {
		s = append(append([]string{}, s[:8]...), fmt.Sprintf("…(%d bytes)", len(w)))
	}
	return strings.Join(s, " ")
}

func words(alpha []int64, n int, f func([]int64)) {
	var rec func(w []int64)
	rec = func(w []int64) {
		f(append([]int64(nil), w...))
		if len(w) == n {
			return
		}
		for _, a := range alpha {
			rec(append(append([]int64(nil), w...), a))
		}
	}
	rec(nil)
}

func longWord(n int) []int64 {
	w := make([]int64, n)
	for i := range w {
		switch {
		case i%97 == 13:
			w[i] = 0x7e
		case i%97 == 14:
			w[i] = 0x7d
		case i%97 == 15:
			w[i] = 0x02
		default:
			w[i] = -1
		}
	}
	return w
}

// spotWord is an ordinary sequence with one special byte at the start, the
// middle and the end.
func spotWord(n int, special ...int64) []int64 {
	w := make([]int64, n)
	for i := range w {
		w[i] = -1
		if len(special) > 0 && (i == 0 || i == n/2 || i == n-1) {
			w[i] = special[0]
		}
	}
	return w
}

// denseWord cycles through all classes, so that over its shifts every class
// stands at every position.
func denseWord(n, shift int) []int64 {
	w := make([]int64, n)
	for i := range w {
		w[i] = frameBytes[(i+shift)%len(frameBytes)]
	}
	return w
}

// mined gives lengths around the integer constants that the functions (and
// the functions they call in their packages) compute or compare with: if the
// treatment of a byte sequence depends on its length through a constant, both
// sides of that constant are analysed.
func (c *Check) mined(lo, hi int64, fns ...*ssa.Function) []int {

	seen := map[*ssa.Function]bool{}
	ks := map[int64]bool{}
	in := map[string]bool{modPath + "/" + pProto: true, modPath + "/" + pServ: true}
	for _, f := range fns {
		if f.Pkg != nil {
			in[f.Pkg.Pkg.Path()] = true
		}
	}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 6 || f.Pkg == nil || !in[f.Pkg.Pkg.Path()] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp, *ssa.Slice, *ssa.MakeSlice, *ssa.Phi:
					for _, op := range in.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && isIntType(k.Type()) {
							if v, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
								ks[v] = true
							}
						}
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && isIntType(k.Type()) {
							if v, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
								ks[v] = true
							}
						}
					}
					visit(x.Common().StaticCallee(), d+1)
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok {
						visit(g, d+1)
					}
				}
			}
		}
	}
	for _, f := range fns {
		visit(f, 0)
	}
	lens := map[int]bool{}
	for k := range ks {
		for d := int64(-1); d <= 3; d++ {
			if k > 1500 && d != 2 && d != 0 {
				continue
			}
			if n := k + d; n >= lo && n <= hi {
				lens[int(n)] = true
			}
		}
	}
	var out []int
	for n := range lens {
		out = append(out, n)
	}
	sort.Ints(out)
	if len(out) > 60 {
		giveUp("more than 60 length thresholds in %v", fns)
	}
	return out
}

// wordTerms makes the elements of a word.
func wordTerms(st *State, w []int64, name string, exclude []int64) []*Term {
	var ts []*Term
	for i, b := range w {
		if b >= 0 {
			ts = append(ts, Int(b))
			continue
		}
		v := Sym(fmt.Sprintf("%s%d", name, i), byteType)
		for _, x := range exclude {
			st.assume(Not(EqInt(v, Int(x), st)))
		}
		ts = append(ts, v)
	}
	return ts
}

func seqOfElems(ts []*Term) *Term {
	var segs []*Term
	for _, t := range ts {
		segs = append(segs, SElem(t))
	}
	return Seq(segs...)
}

// elems lists the elements of a fully known sequence.
func elems(q *Term) ([]*Term, bool) {
	var out []*Term
	for _, s := range q.A {
		switch {
		case s.K == KSElem:
			out = append(out, s.A[0])
		case s.K == KStr:
			for i := 0; i < len(s.S); i++ {
				out = append(out, Int(int64(s.S[i])))
			}
		case s.K == KSFill && s.A[1].K == KInt && s.A[1].I < 1<<16:
			for i := int64(0); i < s.A[1].I; i++ {
				out = append(out, s.A[0])
			}
		case s.K == KSChunk && s.A[2].K == KInt && s.A[2].I < 1<<16:
			for i := int64(0); i < s.A[2].I; i++ {
				out = append(out, At(s.A[0], AddC(s.A[1], i), byteType))
			}
		default:
			return nil, false
		}
	}
	return out, true
}

func sameElems(st *State, got *Term, want []*Term) bool {
	g, ok := elems(got)
	if !ok || len(g) != len(want) {
		return false
	}
	for i := range g {
		if g[i] != want[i] && st.decide(EqInt(g[i], want[i], st)) != 1 {
			return false
		}
	}
	return true
}

// escaped gives the escaped form of bytes; ok is false while the path has not
// settled whether a byte is a mark.
func escaped(st *State, ts []*Term) (out []*Term, ok bool) {
	for _, t := range ts {
		e7, d7 := st.decide(EqInt(t, Int(0x7e), st)), st.decide(EqInt(t, Int(0x7d), st))
		switch {
		case e7 == 1:
			out = append(out, Int(0x7d), Int(2))
		case d7 == 1:
			out = append(out, Int(0x7d), Int(1))
		case e7 == -1 && d7 == -1:
			out = append(out, t)
		default:
			return nil, false
		}
	}
	return out, true
}

func (c *Check) codec() *Term {
	e := c.e
	e.execOnce = true
	defer func() { e.execOnce = false }()
	for _, o := range c.run(e.newState(), e.needFn(pProto, "NewJT808PacketCodec")) {
		if o.kind == outRet {
			return o.vals[0]
		}
	}
	giveUp("no codec")
	return nil
}

// encodeWord runs the packet encoder on a message whose body bytes are given.
func (c *Check) encodeWord(w []int64) ([]Out, []*Term, *ssa.Function) {
	e := c.e
	e.forceUnroll = 3 * (len(w) + 8)
	f := e.needMethod(pProto, "JT808PacketCodec", "Encode")
	mT := ptrTo(e.needTyp(pModel, "Msg0002"))
	enc := e.methodOf(mT, "Encode")
	if enc == nil {
		giveUp("anchor not found: Msg0002.Encode")
	}
	st := e.newState()
	m := Sym("msg", mT)
	e.nonNil(st, m)
	ts := wordTerms(st, w, "b", []int64{0x7e, 0x7d, 1, 2})
	e.callHook = func(_ *Engine, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if name == enc.String() {
			return []callRes{{st: s, val: Tuple(s.newSlice(seqOfElems(ts)), Nil)}}, true
		}
		return nil, false
	}
	pc := c.codec()
	e.nonNil(st, pc)
	outs := c.run(st, f, pc, mk(Term{K: KIface, T: mT, A: []*Term{m}}))
	e.callHook = nil
	return outs, ts, f
}

// decodeWord runs the packet decoder on a frame carrying the escaped form of
// the given bytes, up to the point where the header decoder is handed them.
func (c *Check) decodeWord(w []int64) (outs []Out, ts []*Term, f *ssa.Function) {
	e := c.e
	e.forceUnroll = 3 * (2*len(w) + 8)
	f = e.needMethod(pProto, "JT808PacketCodec", "Decode")
	hd := e.needMethod(pModel, "MsgHeader", "Decode")
	st := e.newState()
	ts = wordTerms(st, w, "b", []int64{0x7e, 0x7d, 1, 2})
	esc, _ := escaped(st, ts)
	frame := append(append([]*Term{Int(0x7e)}, esc...), Int(0x7e))
	e.callHook = func(_ *Engine, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if name == hd.String() {
			s.emit(&Event{Kind: stageKind, Name: "header", Args: []*Term{s.seqOfSlice(args[1])}, Pos: ci.Pos()})
			return []callRes{{st: s, val: ErrSentinel("stub", "header")}}, true
		}
		return nil, false
	}
	pc := c.codec()
	e.nonNil(st, pc)
	outs = c.run(st, f, pc, st.newSlice(seqOfElems(frame)))
	e.callHook = nil
	return
}

func init() {
	register("C01", "Path-sensitive value-flow analysis of the packet encoder and decoder over byte-class words (0x7e, 0x7d, 0x01, 0x02, any other byte kept symbolic): the frame is 7e, the escaped bytes and 7e, and the decoder hands on exactly the original bytes.", 100, checkC01)
	register("C02", "Path-sensitive value-flow analysis over byte-class words: the last byte before escaping is the exclusive-or term of all bytes of header and body; the decoder passes a packet on exactly on the paths where the received check byte equals that term.", 60, checkC02)
	register("C03", "Analysis of the framing loop as an automaton over byte-class streams: for every stream shape up to the bound, each receive returns the next delimited frame, consumes exactly it, and end of stream is reported as an error without a frame.", 40, checkC03)
	register("C24", "Path-sensitive analysis of sending over all outcomes of the write call (full, every short count, error): the bytes handed to the connection are the frame, once, in order; the first write offers the whole frame; a write error is reported. Who else writes to the connection is enumerated over the call graph.", 8, checkC24)
}

func depth(c *Check, q, t int) int {
	if c.tier == "thorough" {
		return t
	}
	return q
}

func checkC01(c *Check) {
	c.noSharedScratch("working-state", inPkgs(pProto))
	eachWord(depth(c, 3, 4), c.encodeLens(), func(w []int64) {
		inst := wordName(w)
		c.guard("escape", inst, "internal/protocol/packet_codec.go", func() {
			outs, ts, f := c.encodeWord(w)
			n := 0
			for _, o := range outs {
				if !c.must(o.kind == outRet && isNil(o.vals[1]), "escape", inst, c.fnAt(f), "encoding fails: %s %v", o.why, o.vals) {
					continue
				}
				n++
				g, ok := elems(o.st.seqOfSlice(o.vals[0]))
				if !c.must(ok && len(g) >= 2, "escape", inst, c.fnAt(f), "frame of unknown shape %s", o.st.seqOfSlice(o.vals[0])) {
					continue
				}
				mark := func(t *Term) int { return o.st.decide(EqInt(t, Int(0x7e), o.st)) }
				c.must(mark(g[0]) == 1 && mark(g[len(g)-1]) == 1, "escape", inst, c.fnAt(f), "the frame is not delimited by 0x7e")
				for _, b := range g[1 : len(g)-1] {
					c.must(mark(b) == -1, "escape", inst, c.fnAt(f), "a byte between the delimiters can be 0x7e: %s", b)
				}
				// the bytes of the message, before the check byte, in escaped form
				esc, ok := escaped(o.st, ts)
				in := g[1 : len(g)-1]
				// and the check byte behind them too
				if all, ok := escaped(o.st, append(append([]*Term{}, ts...), Xor(byteType, ts...))); ok {
					c.must(sameElems(o.st, seqOfElems(in), all), "escape", inst, c.fnAt(f), "the frame's content %s is not the escaped form of the message and its check byte", seqOfElems(in))
				}
				if c.must(ok && len(in) >= len(esc), "escape", inst, c.fnAt(f), "the frame is shorter than its content") {
					c.must(sameElems(o.st, seqOfElems(in[:len(esc)]), esc), "escape", inst, c.fnAt(f), "the bytes on the wire are not the escaped message bytes")
				}
			}
			c.must(n > 0, "escape", inst, c.fnAt(f), "no outcome")
		})
	})
	eachWord(depth(c, 4, 5), c.decodeLens(), func(w []int64) {
		if len(w) == 0 {
			return
		}
		inst := wordName(w)
		c.guard("unescape", inst, "internal/protocol/packet_codec.go", func() {
			outs, ts, f := c.decodeWord(w)
			c.must(len(outs) > 0, "unescape", inst, c.fnAt(f), "no outcome")
			for _, o := range outs {
				c.must(o.kind == outRet, "unescape", inst, c.at(o.pos), "decoding the escaped form panics: %s", o.why)
				for _, ev := range stages(o.st) {
					if ev.Name == "header" {
						c.must(sameElems(o.st, ev.Args[0], ts[:len(ts)-1]), "unescape", inst, c.fnAt(f), "the decoder hands on %s instead of the original bytes %v", ev.Args[0], ts[:len(ts)-1])
					}
				}
			}
		})
	})
}

func eachWord(n int, long []int, f func([]int64)) {
	words(frameBytes, n, f)
	for _, l := range long {
		f(longWord(l))
		// long sequences with few or no bytes of any one special class
		f(spotWord(l))
		f(spotWord(l, 0x7d))
		f(spotWord(l, 0x7e))
	}
	for i := range frameBytes {
		f(denseWord(1044, i))
	}
}

// encodeLens and decodeLens: lengths at which the codec's treatment of a
// packet could change.
func (c *Check) encodeLens() []int {
	return append(c.mined(5, 9000, c.e.needMethod(pProto, "JT808PacketCodec", "Encode")), 40, 1044, 2500)
}

func (c *Check) decodeLens() []int {
	return append(c.mined(5, 9000, c.e.needMethod(pProto, "JT808PacketCodec", "Decode")), 40, 1044, 2500)
}

func checkC02(c *Check) {
	c.noSharedScratch("working-state", inPkgs(pProto))
	eachWord(depth(c, 2, 3), c.encodeLens(), func(w []int64) {
		inst := wordName(w)
		c.guard("check-byte-sent", inst, "internal/protocol/packet_codec.go", func() {
			outs, ts, f := c.encodeWord(w)
			for _, o := range outs {
				if o.kind != outRet || !isNil(o.vals[1]) {
					c.fail("check-byte-sent", inst, c.fnAt(f), "encoding fails: %s", o.why)
					continue
				}
				all := append(append([]*Term{}, ts...), Xor(byteType, ts...))
				want, ok := escaped(o.st, all)
				if !ok {
					// the path does not distinguish a check byte that is a mark
					c.fail("check-byte-sent", inst, c.fnAt(f), "the check byte is not escaped on its own value")
					continue
				}
				want = append(append([]*Term{Int(0x7e)}, want...), Int(0x7e))
				c.must(sameElems(o.st, o.st.seqOfSlice(o.vals[0]), want), "check-byte-sent", inst, c.fnAt(f), "the frame is %s, expected the message bytes followed by their exclusive or", o.st.seqOfSlice(o.vals[0]))
			}
		})
	})
	eachWord(depth(c, 3, 4), c.decodeLens(), func(w []int64) {
		inst := wordName(w)
		c.guard("check-byte-verified", inst, "internal/protocol/packet_codec.go", func() {
			outs, ts, f := c.decodeWord(w)
			acc := 0
			for _, o := range outs {
				if o.kind == outPanic {
					c.fail("check-byte-verified", inst, c.at(o.pos), "panic: %s", o.why)
					continue
				}
				passed := len(stages(o.st)) > 0
				if len(ts) == 0 {
					c.must(!passed && !isNil(o.vals[1]), "check-byte-verified", inst, c.fnAt(f), "an empty frame is accepted")
					continue
				}
				ok := o.st.decide(EqInt(Xor(byteType, ts[:len(ts)-1]...), ts[len(ts)-1], o.st))
				if passed {
					acc++
					c.must(ok == 1, "check-byte-verified", inst, c.fnAt(f), "a packet is passed on although its check byte was not found equal to the exclusive or of its bytes")
				} else {
					c.must(ok == -1, "check-byte-verified", inst, c.fnAt(f), "a packet with a correct check byte is rejected")
					c.must(isNil(o.vals[0]) && !isNil(o.vals[1]), "check-byte-verified", inst, c.fnAt(f), "a rejected packet is returned or no error is reported")
					ef := effectsOf(o.st.events, nil)
					c.must(len(ef) == 0, "check-byte-verified", inst, c.fnAt(f), "a rejected packet has effects: %s", evString(c.e, ef))
				}
			}
			_ = acc
		})
	})
}

// ---- framing ----

var streamBase = Sym("stream", nil)

func streamPos(st *State) int64 {
	if c, ok := st.obj(streamBase).cells["pos"]; ok {
		return c.I
	}
	return 0
}

func setStreamPos(st *State, n int64) { st.wobj(streamBase).cells["pos"] = Int(n) }

// streamHook serves every read of the connection from a fixed stream followed
// by end of file; a read may return fewer bytes than asked for.
func streamHook(stream []*Term, eof *Term) func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
	return func(e *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		p := int(streamPos(st))
		rest := stream[min(p, len(stream)):]
		until := func(d *Term, str bool) ([]callRes, bool) {
			for i, b := range rest {
				switch st.decide(EqInt(b, d, st)) {
				case 1:
					setStreamPos(st, int64(p+i+1))
					v := st.newSlice(seqOfElems(rest[:i+1]))
					return []callRes{{st: st, val: Tuple(v, Nil)}}, true
				case 0:
					return nil, false
				}
			}
			setStreamPos(st, int64(len(stream)))
			return []callRes{{st: st, val: Tuple(st.newSlice(seqOfElems(rest)), eof)}}, true
		}
		switch name {
		case "(*bufio.Reader).Read", "(net.Conn).Read", "(io.Reader).Read", "io.ReadFull", "io.ReadAtLeast":
			_, _, ln := st.desc(args[1])
			if ln.K != KInt {
				return nil, false
			}
			if ln.I == 0 {
				return []callRes{{st: st, val: Tuple(Int(0), Nil)}}, true
			}
			full := strings.HasPrefix(name, "io.")
			if len(rest) == 0 {
				return []callRes{{st: st, val: Tuple(Int(0), eof)}}, true
			}
			n := min(int(ln.I), len(rest))
			if full {
				st.setSlice(args[1], Int(0), seqOfElems(rest[:n]))
				setStreamPos(st, int64(p+n))
				if n < int(ln.I) {
					er := eof
					if er == errEOF {
						er = ErrSentinel("io", "ErrUnexpectedEOF")
					}
					return []callRes{{st: st, val: Tuple(Int(int64(n)), er)}}, true
				}
				return []callRes{{st: st, val: Tuple(Int(int64(n)), Nil)}}, true
			}
			var rs []callRes
			for k := 1; k <= n; k++ {
				s := st
				if k < n {
					s = st.clone()
				}
				s.setSlice(args[1], Int(0), seqOfElems(rest[:k]))
				setStreamPos(s, int64(p+k))
				rs = append(rs, callRes{st: s, val: Tuple(Int(int64(k)), Nil)})
			}
			return rs, true
		case "(*bufio.Reader).ReadByte", "(io.ByteReader).ReadByte":
			if len(rest) == 0 {
				return []callRes{{st: st, val: Tuple(Int(0), eof)}}, true
			}
			setStreamPos(st, int64(p+1))
			return []callRes{{st: st, val: Tuple(rest[0], Nil)}}, true
		case "(*bufio.Reader).UnreadByte":
			setStreamPos(st, int64(p-1))
			return []callRes{{st: st, val: Nil}}, true
		case "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
			return until(args[1], false)
		case "(*bufio.Reader).Peek":
			if args[1].K == KInt && int(args[1].I) <= len(rest) {
				return []callRes{{st: st, val: Tuple(st.newSlice(seqOfElems(rest[:args[1].I])), Nil)}}, true
			}
			if args[1].K == KInt {
				return []callRes{{st: st, val: Tuple(st.newSlice(seqOfElems(rest)), eof)}}, true
			}
		case "(*bufio.Reader).Discard":
			if args[1].K == KInt && args[1].I < 0 {
				return []callRes{{st: st, val: Tuple(Int(0), ErrSentinel("bufio", "ErrNegativeCount"))}}, true
			}
			if args[1].K == KInt && int(args[1].I) <= len(rest) {
				setStreamPos(st, int64(p)+args[1].I)
				return []callRes{{st: st, val: Tuple(args[1], Nil)}}, true
			}
			if args[1].K == KInt {
				setStreamPos(st, int64(len(stream)))
				return []callRes{{st: st, val: Tuple(Int(int64(len(rest))), eof)}}, true
			}
		case "(*bufio.Reader).Buffered":
			// nothing buffered yet, one more byte, or everything up to the buffer size
			key := fmt.Sprintf("buffered@%d", p)
			if v, ok := st.obj(streamBase).cells[key]; ok {
				return []callRes{{st: st, val: v}}, true
			}
			var rs []callRes
			seen := map[int]bool{}
			for _, k := range []int{0, 1, len(rest)} {
				if k = min(k, len(rest), 4096); !seen[k] {
					seen[k] = true
					s := st.clone()
					s.wobj(streamBase).cells[key] = Int(int64(k))
					rs = append(rs, callRes{st: s, val: Int(int64(k))})
				}
			}
			return rs, true
		case "(*bufio.Reader).Size":
			return []callRes{{st: st, val: Int(4096)}}, true
		}
		if strings.HasPrefix(name, "(*bufio.Reader).") || name == "io.ReadAll" || name == "io.Copy" || name == "io.CopyN" {
			giveUp("reading the connection with %s is not modelled here", name)
		}
		return nil, false
	}
}

// expectedFrames cuts a stream at its delimiters.
func expectedFrames(w []int64) (frames [][2]int) {
	start := -1
	for i, b := range w {
		if b != 0x7e {
			continue
		}
		if start < 0 {
			start = i
			continue
		}
		frames = append(frames, [2]int{start, i + 1})
		start = -1
	}
	return frames
}

func (c *Check) frameHandler(st *State, conn *Term) (*State, *Term) {
	f := c.e.needFn(pProto, "NewJT808FrameHandler")
	for _, o := range c.run(st, f, conn) {
		if o.kind == outRet {
			return o.st, o.vals[0]
		}
	}
	giveUp("no frame handler")
	return nil, nil
}

func checkC03(c *Check) {
	c.noReadDeadline("internal/server", "internal/protocol", "internal/protocol/model", "internal/storage", "internal/client")
	e := c.e
	c.readerSource()
	c.onePipeline()
	c.brokenStream()
	n := depth(c, 7, 9)
	var list [][]int64
	words([]int64{0x7e, -1}, n, func(w []int64) { list = append(list, w) })
	big := []int64{-1, 0x7e}
	for i := 0; i < 2600; i++ {
		big = append(big, -1)
	}
	big = append(big, 0x7e, 0x7e, -1, 0x7e)
	list = append(list, big)
	// frames whose length lies around a threshold of the code, cut off and complete
	for _, k := range append(c.mined(6, 9000, e.needMethod(pProto, "JT808FrameHandler", "Recv")), 16, 40, 2092) {
		cut := []int64{0x7e}
		for i := 1; i < k; i++ {
			cut = append(cut, -1)
		}
		list = append(list, cut, append(append([]int64{}, cut[:k-1]...), 0x7e, 0x7e, -1, 0x7e))
	}
	for _, w := range list {
		frames := expectedFrames(w)
		inst := wordName(w)
		if len(w) == 0 {
			inst = "empty"
		}
		c.guard("framing", inst, "internal/protocol/frame_handler.go", func() {
			e.forceUnroll = len(w) + 4
			st := e.newState()
			conn := Sym("conn", e.needFn(pProto, "NewJT808FrameHandler").Params[0].Type())
			e.nonNil(st, conn)
			st, h := c.frameHandler(st, conn)
			ctx, _ := e.ctxWithSession(st)
			ts := wordTerms(st, w, "s", []int64{0x7e})
			f := e.needMethod(pProto, "JT808FrameHandler", "Recv")
			var rec func(st *State, k int)
			rec = func(st *State, k int) {
				e.callHook = streamHook(ts, errEOF)
				outs := c.run(st, f, h, ctx)
				e.callHook = nil
				c.must(len(outs) > 0, "framing", inst, c.fnAt(f), "no outcome")
				for i, o := range outs {
					if !c.must(o.kind == outRet, "framing", inst, c.at(o.pos), "receiving panics: %s", o.why) {
						continue
					}
					if k < len(frames) {
						fr := frames[k]
						ok := isNil(o.vals[1])
						if c.must(ok, "framing", inst, c.fnAt(f), "frame %d is reported as error %s", k+1, o.vals[1]) {
							ok = c.must(sameElems(o.st, o.st.seqOfSlice(o.vals[0]), ts[fr[0]:fr[1]]), "framing", inst, c.fnAt(f), "frame %d is %s", k+1, o.st.seqOfSlice(o.vals[0]))
						}
						if ok && i == 0 { // the other outcomes differ only in logging
							rec(o.st, k+1)
						}
						continue
					}
					c.must(o.st.decide(e.errIs(o.st, o.vals[1], ErrSentinel("io", "EOF"))) == 1, "framing", inst, c.fnAt(f), "end of stream is reported as %s", o.vals[1])
					c.must(isNil(o.vals[0]) || seqLen(o.st.seqOfSlice(o.vals[0])) == Int(0), "framing", inst, c.fnAt(f), "a partial frame is returned at end of stream")
				}
			}
			rec(st, 0)
		})
	}
}

// brokenStream: the connection fails with an error other than end of stream;
// the receiver reports it and gives no frame for the bytes it has.
func (c *Check) brokenStream() {
	e := c.e
	for _, er := range append(c.knownErrors(), ErrSentinel("x", "unknown")) {
		if er == nil || er.K == KWrap || strings.Contains(er.S, modPath) || strings.HasPrefix(er.S, "bufio.") {
			continue
		}
		for _, w := range [][]int64{{}, {-1}, {0x7e}, {0x7e, -1}, {0x7e, -1, -1}} {
			inst := fmt.Sprintf("%s after [%s]", er.S, wordName(w))
			c.guard("broken-stream", inst, "internal/protocol/frame_handler.go", func() {
				e.forceUnroll = len(w) + 4
				st := e.newState()
				conn := Sym("conn", e.needFn(pProto, "NewJT808FrameHandler").Params[0].Type())
				e.nonNil(st, conn)
				st, h := c.frameHandler(st, conn)
				ctx, _ := e.ctxWithSession(st)
				ts := wordTerms(st, w, "s", []int64{0x7e})
				f := e.needMethod(pProto, "JT808FrameHandler", "Recv")
				e.callHook = streamHook(ts, er)
				outs := c.run(st, f, h, ctx)
				e.callHook = nil
				c.must(len(outs) > 0, "broken-stream", inst, c.fnAt(f), "receiving goes on after the connection failed")
				for _, o := range outs {
					if !c.must(o.kind == outRet, "broken-stream", inst, c.at(o.pos), "receiving ends by %s", o.why) {
						continue
					}
					c.must(!isNil(o.vals[1]), "broken-stream", inst, c.fnAt(f), "a failure of the connection is not reported")
					c.must(isNil(o.vals[0]) || seqLen(o.st.seqOfSlice(o.vals[0])) == Int(0), "broken-stream", inst, c.fnAt(f), "a partial frame is returned when the connection fails")
				}
			})
		}
	}
}

// readerSource: what is received is read from the connection itself, through a
// buffer that lives as long as the frame handler.
func (c *Check) readerSource() {
	e := c.e
	c.guard("reader", "source", "internal/protocol/frame_handler.go", func() {
		st := e.newState()
		nf := e.needFn(pProto, "NewJT808FrameHandler")
		conn := Sym("conn", nf.Params[0].Type())
		e.nonNil(st, conn)
		st, _ = c.frameHandler(st, conn)
		for _, ev := range st.events {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "bufio.NewReader") {
				continue
			}
			src := unwrapIface(ev.Args[0])
			bad := src != conn && occurs(src, func(t *Term) bool { return t.K == KCall && strings.HasPrefix(t.S, "io.") && t.S != "io.TeeReader" })
			for _, x := range st.events {
				if x.Kind == "call" && x.Res == ev.Args[0] && strings.HasPrefix(x.Name, "io.") && x.Name != "io.TeeReader" {
					bad = true
				}
			}
			c.must(!bad, "reader", "source", c.at(ev.Pos), "the reader takes its bytes from %s, not from the connection as such", src)
		}
		for f := range e.reachable([]*ssa.Function{e.needMethod(pProto, "JT808FrameHandler", "Recv")}) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if cal := ci.Common().StaticCallee(); cal != nil && strings.HasPrefix(cal.String(), "bufio.NewReader") {
							c.fail("reader", "buffer kept", c.at(in.Pos()), "receiving makes a new buffered reader, which loses what the previous one had read ahead")
						}
					}
				}
			}
		}
		c.pass("reader", "source", c.fnAt(nf))
	})
}

// ---- sending ----

func checkC24(c *Check) {
	c.noReadDeadline("internal/server", "internal/protocol", "internal/protocol/model", "internal/storage")
	c.noSharedScratch("working-state", inPkgs(pProto))
	e := c.e
	small := []int{0, 1, 2, 3, depth(c, 4, 6)}
	for _, n := range append(small, append(c.mined(7, 9000, e.needMethod(pProto, "JT808FrameHandler", "Send")), 40, 2092)...) {
		inst := fmt.Sprintf("%d bytes", n)
		few := n > 6 // short writes of one byte, half and all but one, at most two of them
		c.guard("send", inst, "internal/protocol/frame_handler.go", func() {
			e.forceUnroll = n + 4
			st := e.newState()
			conn := Sym("conn", e.needFn(pProto, "NewJT808FrameHandler").Params[0].Type())
			e.nonNil(st, conn)
			st, h := c.frameHandler(st, conn)
			w := make([]int64, n)
			for i := range w {
				w[i] = -1
			}
			ts := wordTerms(st, w, "p", nil)
			f := e.needMethod(pProto, "JT808FrameHandler", "Send")
			wrote := types.NewSlice(byteType)
			_ = wrote
			e.callHook = func(_ *Engine, s *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
				if !strings.HasSuffix(name, "(io.Writer).Write") && !strings.HasSuffix(name, "(net.Conn).Write") {
					return nil, false
				}
				q := s.seqOfSlice(args[1])
				g, ok := elems(q)
				if !ok {
					giveUp("write of unknown length %s", q)
				}
				var rs []callRes
				for k := 0; k <= len(g); k++ {
					if few && k != len(g) && (k != 1 && k != len(g)/2 && k != len(g)-1 || count(s, "wire", "") > 1) {
						continue
					}
					if k > 0 || len(g) == 0 || count(s, "wire", "stall") == 0 {
						s2 := s.clone()
						nm := ""
						if k == 0 && len(g) > 0 {
							nm = "stall"
						}
						s2.emit(&Event{Kind: "wire", Name: nm, Args: []*Term{args[0], q, seqOfElems(g[:k]), Nil}, Pos: ci.Pos()})
						rs = append(rs, callRes{st: s2, val: Tuple(Int(int64(k)), Nil)})
					}
					s3 := s.clone()
					er := Sym("err:write", nil)
					s3.emit(&Event{Kind: "wire", Args: []*Term{args[0], q, seqOfElems(g[:k]), er}, Pos: ci.Pos()})
					rs = append(rs, callRes{st: s3, val: Tuple(Int(int64(k)), er)})
				}
				return rs, true
			}
			outs := c.run(st, f, h, st.newSlice(seqOfElems(ts)))
			e.callHook = nil
			okN, errN := 0, 0
			for _, o := range outs {
				if !c.must(o.kind == outRet, "send", inst, c.at(o.pos), "sending panics: %s", o.why) {
					continue
				}
				var got []*Term
				var firstOffer, lastErr *Term
				writes := 0
				for _, ev := range o.st.events {
					if ev.Kind != "wire" {
						continue
					}
					if writes == 0 {
						firstOffer = ev.Args[1]
					}
					writes++
					c.must(ev.Args[0] == conn || unwrapIface(ev.Args[0]) == conn, "send-target", inst, c.at(ev.Pos), "bytes are written to %s, not the connection", ev.Args[0])
					c.must(lastErr == nil || isNil(lastErr), "send-stops", inst, c.at(ev.Pos), "writing goes on after a write error")
					g, _ := elems(ev.Args[2])
					got = append(got, g...)
					lastErr = ev.Args[3]
				}
				if firstOffer != nil {
					c.must(sameElems(o.st, firstOffer, ts), "send-first-write-whole", inst, c.fnAt(f), "the first write offers %s instead of the whole frame", firstOffer)
				}
				if lastErr != nil && !isNil(lastErr) {
					errN++
					c.must(o.st.decide(e.errIs(o.st, o.vals[0], lastErr)) == 1, "send-error", inst, c.fnAt(f), "a failed write is reported as %s", o.vals[0])
					continue
				}
				okN++
				if count(o.st, "wire", "stall") > 0 && !isNil(o.vals[0]) {
					continue // giving up on a writer that makes no progress
				}
				c.must(isNil(o.vals[0]), "send", inst, c.fnAt(f), "sending without write error reports %s", o.vals[0])
				c.must(sameElems(o.st, seqOfElems(got), ts), "send", inst, c.fnAt(f), "the connection receives %v instead of the frame", got)
			}
			c.must(okN > 0, "send", inst, c.fnAt(f), "no successful outcome")
			c.must(n == 0 || errN > 0, "send", inst, c.fnAt(f), "no failing outcome")
		})
	}
	// from a message to its frame, and from a failed write to the caller
	c.checkServerSend(false)
	c.writePipeline()
	c.pipelineStopsOnError("reported")
	// nothing else writes to a connection
	c.guard("single-writer", "repository", "internal/", func() {
		send := e.needMethod(pProto, "JT808FrameHandler", "Send")
		for f := range e.allFns {
			if f.Pkg == nil || !e.isRepoPkg(f.Pkg.Pkg.Path()) || strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/test") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					nm := ""
					if cc.IsInvoke() {
						nm = cc.Method.FullName()
					} else if cf := cc.StaticCallee(); cf != nil {
						nm = cf.String()
					}
					conny := nm == "(net.Conn).Write" || nm == "(*net.TCPConn).Write"
					if nm == "(io.Writer).Write" || nm == "io.WriteString" || nm == "io.Copy" || nm == "fmt.Fprintf" || nm == "fmt.Fprint" || nm == "bufio.NewWriter" || nm == "bufio.NewWriterSize" {
						for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if ch, ok := a.(*ssa.ChangeInterface); ok {
								a = ch.X
							}
							if a != nil && a.Type() != nil && strings.HasSuffix(types.TypeString(a.Type(), nil), "net.Conn") {
								conny = true
							}
						}
					}
					if conny {
						c.must(f == send || e.onlyCalledFrom(f, send), "single-writer", shortFn(f.String()), c.at(ci.Pos()), "%s writes to a connection outside the frame handler", shortFn(f.String()))
					}
				}
			}
		}
		c.pass("single-writer", "repository", c.fnAt(send))
	})
}

// onlyCalledFrom: f is a helper of g.
func (e *Engine) onlyCalledFrom(f, g *ssa.Function) bool {
	n := 0
	for h := range e.allFns {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && h != f {
					n++
					if h != g && !e.onlyCalledFrom(h, g) {
						return false
					}
				}
			}
		}
	}
	return n > 0 || f.Parent() == g
}

func unwrapIface(t *Term) *Term {
	for t.K == KIface {
		t = t.A[0]
	}
	return t
}
