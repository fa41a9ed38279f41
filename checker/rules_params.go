package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C21", "Value-flow analysis of the parameter list codec per documented parameter id (and once for all other ids): each item is id, length, value in the documented type; the count equals the items written; items follow each other without gap; the terminal-side store keeps and merges them.", 300, checkC21)
}

// documented type of each parameter
func paramKinds() map[int64]string {
	m := map[int64]string{}
	put := func(kind string, ids ...int64) {
		for _, id := range ids {
			m[id] = kind
		}
	}
	span := func(kind string, a, b int64) {
		for i := a; i <= b; i++ {
			m[i] = kind
		}
	}
	span("dword", 0x01, 0x07)
	span("gbk", 0x10, 0x17)
	put("dword", 0x18, 0x19, 0x1b, 0x1c)
	put("gbk", 0x1a, 0x1d)
	span("dword", 0x20, 0x22)
	span("gbk", 0x23, 0x26)
	span("dword", 0x27, 0x29)
	span("dword", 0x2c, 0x30)
	put("word", 0x31)
	put("bytes", 0x32)
	span("gbk", 0x40, 0x44)
	span("dword", 0x45, 0x47)
	put("gbk", 0x48, 0x49)
	span("dword", 0x50, 0x5a)
	span("word", 0x5b, 0x5e)
	put("dword", 0x64, 0x65)
	span("dword", 0x70, 0x74)
	put("bytes", 0x75, 0x76, 0x77, 0x79, 0x7a, 0x7b, 0x7c)
	put("dword", 0x80)
	put("word", 0x81, 0x82)
	put("gbk", 0x83)
	put("byte", 0x84, 0x90, 0x91, 0x92, 0x94)
	put("dword", 0x93, 0x95)
	put("dword", 0x100, 0x102)
	put("word", 0x101, 0x103)
	put("string", 0x110)
	return m
}

func iface(t types.Type, v *Term) *Term { return mk(Term{K: KIface, A: []*Term{v}, T: t}) }

func checkC21(c *Check) {
	c.noSharedScratch("working-state", inPkgs("internal/codec/", pModel))
	e := c.e
	kinds := paramKinds()
	var ids []int64
	for id := range kinds {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	pT := e.needTyp(pModel, "ParamData")
	lT := e.needTyp(pModel, "DeviceParams")
	dec := e.needMethod(pModel, "DeviceParams", "Decode")
	enc := e.needMethod(pModel, "DeviceParams", "Encode")
	bt := types.Typ[types.Uint8]
	basic := map[string]types.Type{"dword": types.Typ[types.Uint32], "word": types.Typ[types.Uint16], "byte": bt, "gbk": types.Typ[types.String], "bytes": types.Typ[types.String], "string": types.Typ[types.String]}
	width := map[string]int{"dword": 4, "word": 2, "byte": 1}

	syms := func(p string, n int) (o []*Term) {
		for i := 0; i < n; i++ {
			o = append(o, Sym(fmt.Sprintf("%s%d", p, i), bt))
		}
		return
	}
	// decodeOne decodes [item, item 0x0001] and compares both
	decodeOne := func(inst string, id *Term, idBytes []*Term, kind string, n int) {
		c.guard("decode", inst, c.fnAt(dec), func() {
			e.forceUnroll = 12
			st := e.newState()
			if idBytes != nil {
				for k := range kinds {
					st.assume(Not(EqInt(id, Int(k), st)))
				}
			} else {
				idBytes = beElems(id, 4, st)
			}
			val := syms("v", n)
			tail := syms("w", 4)
			b := append([]*Term{}, idBytes...)
			b = append(b, Int(int64(n)))
			b = append(b, val...)
			b = append(b, Int(0), Int(0), Int(0), Int(1), Int(4))
			b = append(b, tail...)
			d := e.alloc("params")
			st.heap[d] = &Obj{fresh: true, cells: map[string]*Term{}}
			phone := Sym("phone", types.Typ[types.String])
			e.callHook = c.primHook(nil)
			outs := c.run(st, dec, d, phone, Int(2), st.newSlice(seqOfElems(b)))
			e.callHook = nil
			cnt := 0
			for _, o := range outs {
				s := o.st
				if kind == "unknown" && len(o.vals) == 1 && pinned(s, id) {
					continue // a further id the code knows
				}
				if !c.must(o.kind == outRet && isNil(o.vals[0]), "decode", inst, c.fnAt(dec), "decoding ends by %s %v", o.why, o.vals) {
					continue
				}
				cnt++
				els, ok := listElems(s, s.get(d, lT, "Params"))
				if !c.must(ok && len(els) == 2, "decode", inst, c.fnAt(dec), "two items give %d entries", len(els)) {
					continue
				}
				c.must(sameTerm(s, s.get(d, lT, "DevicePhone"), phone), "decode", inst+" phone", c.fnAt(dec), "the list is kept for phone %s", s.get(d, lT, "DevicePhone"))
				c.must(sameTerm(s, s.get(d, lT, "ParamCnt"), Int(2)), "decode", inst+" count", c.fnAt(dec), "the count is %s", s.get(d, lT, "ParamCnt"))
				q := seqOfElems(val)
				var want *Term
				switch kind {
				case "dword", "word", "byte":
					want = iface(basic[kind], be(q, Int(0), width[kind], s))
				case "gbk":
					want = iface(basic[kind], Call("prim:GBK", basic[kind], q))
				case "bytes":
					want = iface(basic[kind], Call("prim:BCD", basic[kind], q))
				case "string":
					want = iface(basic[kind], strOf(q))
				}
				c.must(sameTerm(s, s.get(els[0], pT, "ParamID"), id), "decode", inst+" id", c.fnAt(dec), "the id is %s", s.get(els[0], pT, "ParamID"))
				c.must(sameTerm(s, s.get(els[0], pT, "ParamLen"), Int(int64(n))), "decode", inst+" length", c.fnAt(dec), "the length is %s", s.get(els[0], pT, "ParamLen"))
				if want != nil {
					got := s.get(els[0], pT, "ParamValue")
					c.must(sameIface(s, got, want), "decode", inst+" value", c.fnAt(dec), "the value is %s, documented %s", got, want)
				}
				c.must(sameTerm(s, s.get(els[1], pT, "ParamID"), Int(1)) && sameIface(s, s.get(els[1], pT, "ParamValue"), iface(basic["dword"], be(seqOfElems(tail), Int(0), 4, s))), "decode", inst+" next item", c.fnAt(dec), "the next item is read as %s = %s", s.get(els[1], pT, "ParamID"), s.get(els[1], pT, "ParamValue"))
			}
			c.must(cnt > 0, "decode", inst, c.fnAt(dec), "no outcome")
		})
	}
	for _, id := range ids {
		k := kinds[id]
		ns := []int{width[k]}
		if width[k] == 0 {
			ns = []int{0, 1, 5, 127, 128, 255}
			if k == "bytes" {
				ns = []int{4, 8, 128, 255}
			}
		}
		for _, n := range ns {
			decodeOne(fmt.Sprintf("0x%04x %s of %d", id, k, n), Int(id), nil, k, n)
		}
	}
	for _, n := range []int{0, 1, 7, 15, 16, 63, 64, 127, 128, 200, 255} {
		st := e.newState()
		ib := syms("id", 4)
		decodeOne(fmt.Sprintf("other ids, %d bytes", n), be(seqOfElems(ib), Int(0), 4, st), ib, "unknown", n)
	}
	// long lists
	for _, n := range []int{3, 127, 128, 200, 255} {
		inst := fmt.Sprintf("list of %d", n)
		c.guard("decode", inst, c.fnAt(dec), func() {
			e.forceUnroll = 300
			st := e.newState()
			d := e.alloc("params")
			st.heap[d] = &Obj{fresh: true, cells: map[string]*Term{}}
			val := syms("v", n)
			var b []*Term
			for i := 0; i < n; i++ {
				b = append(b, Int(0), Int(0), Int(0), Int(0x84), Int(1), val[i])
			}
			b = append(b, syms("rest", 9)...)
			for _, o := range c.run(st, dec, d, Sym("phone", types.Typ[types.String]), Int(int64(n)), st.newSlice(seqOfElems(b))) {
				if !c.must(o.kind == outRet && isNil(o.vals[0]), "decode", inst, c.fnAt(dec), "decoding ends by %s %v", o.why, o.vals) {
					continue
				}
				els, ok := listElems(o.st, o.st.get(d, lT, "Params"))
				if !c.must(ok && len(els) == n, "decode", inst, c.fnAt(dec), "%d items give %d entries", n, len(els)) {
					continue
				}
				for i, el := range els {
					c.must(sameIface(o.st, o.st.get(el, pT, "ParamValue"), iface(bt, val[i])), "decode", inst, c.fnAt(dec), "item %d has value %s", i, o.st.get(el, pT, "ParamValue"))
				}
			}
		})
	}
	// the count is obeyed
	c.guard("decode", "empty list", c.fnAt(dec), func() {
		e.forceUnroll = 4
		st := e.newState()
		d := e.alloc("params")
		st.heap[d] = &Obj{fresh: true, cells: map[string]*Term{}}
		for _, o := range c.run(st, dec, d, Sym("phone", types.Typ[types.String]), Int(0), st.newSlice(seqOfElems(syms("v", 9)))) {
			ok := o.kind == outRet && isNil(o.vals[0])
			if ok {
				els, k := listElems(o.st, o.st.get(d, lT, "Params"))
				ok = k && len(els) == 0
			}
			c.must(ok, "decode", "empty list", c.fnAt(dec), "a count of zero does not give an empty list")
		}
	})

	// encoding
	type item struct {
		id   int64
		kind string
		fl   bool // value as JSON delivers it
		drop bool // cannot be encoded
	}
	encodeList := func(inst string, items []item) {
		c.guard("encode", inst, c.fnAt(enc), func() {
			e.forceUnroll = 12 + len(items)
			st := e.newState()
			d := Sym("params", ptrTo(lT))
			e.nonNil(st, d)
			st.set(d, lT, "ParamCnt", Sym("cnt", bt))
			var els []*Term
			vals := make([]*Term, len(items))
			for i, it := range items {
				p := Sym(fmt.Sprintf("p%d", i), ptrTo(pT))
				e.nonNil(st, p)
				st.set(p, pT, "ParamID", Int(it.id))
				t := basic[it.kind]
				if t == nil {
					t = basic["dword"]
				}
				if it.fl {
					t = types.Typ[types.Float64]
				}
				vals[i] = Sym(fmt.Sprintf("val%d", i), t)
				st.set(p, pT, "ParamValue", iface(t, vals[i]))
				els = append(els, SElem(p))
			}
			st.set(d, lT, "Params", st.newSlice(Seq(els...)))
			e.callHook = c.primHook(nil)
			outs := c.run(st, enc, d)
			e.callHook = nil
			full := 0
			for _, o := range outs {
				s := o.st
				if !c.must(o.kind == outRet && isNil(o.vals[1]), "encode", inst, c.fnAt(enc), "encoding ends by %s %v", o.why, o.vals) {
					continue
				}
				got := s.seqOfSlice(o.vals[0])
				// items whose encoded value does not fit its length byte are left out
				var want []*Term
				n, undecidedLen := int64(0), false
				for i, it := range items {
					if it.drop {
						continue
					}
					var v []*Term
					var ln *Term
					switch it.kind {
					case "dword", "word", "byte":
						w := width[it.kind]
						x := vals[i]
						if it.fl {
							x = floatInt(got, vals[i], basic[it.kind])
						}
						ln = Int(int64(w))
						for _, b := range beElems(x, w, s) {
							v = append(v, SElem(b))
						}
					default:
						var b *Term
						switch it.kind {
						case "gbk":
							b = Call("prim:encGBK", types.NewSlice(byteType), vals[i])
							ln = LenOf(b)
							v = append(v, SChunk(b, Int(0), ln))
						case "bytes":
							b = Call("prim:encBCD", types.NewSlice(byteType), vals[i])
							ln = LenOf(b)
							v = append(v, SChunk(b, Int(0), ln))
						case "string":
							q := seqOfStr(vals[i])
							ln = seqLen(q)
							v = q.A
						}
						switch s.decide(Ge0(AddC(ln, -256))) {
						case 1:
							continue
						case 0:
							if s.decide(Ge0(Sub(Int(255), ln))) != 1 {
								undecidedLen = true
							}
						}
					}
					n++
					for _, b := range beElems(Int(it.id), 4, s) {
						want = append(want, SElem(b))
					}
					want = append(want, SElem(ln))
					want = append(want, v...)
				}
				want = append([]*Term{SElem(Int(n))}, want...)
				c.must(!undecidedLen, "encode", inst+" length", c.fnAt(enc), "a value longer than 255 bytes is written with a length byte that cannot hold its length")
				if n == int64(len(items)) {
					full++
				}
				c.must(seqEq(s, got, Seq(want...)), "encode", inst, c.fnAt(enc), "bytes %s, documented %s", got, Seq(want...))
			}
			drops := false
			for _, it := range items {
				drops = drops || it.drop
			}
			c.must(full > 0 || drops || len(items) == 0, "encode", inst, c.fnAt(enc), "no path encodes every item")
		})
	}
	for _, id := range ids {
		k := kinds[id]
		encodeList(fmt.Sprintf("0x%04x %s", id, k), []item{{id: id, kind: k}, {id: 1, kind: "dword"}})
		if width[k] > 0 {
			encodeList(fmt.Sprintf("0x%04x %s from JSON", id, k), []item{{id: 1, kind: "dword"}, {id: id, kind: k, fl: true}})
		}
	}
	encodeList("empty list", nil)
	encodeList("unknown id left out", []item{{id: 0x31, kind: "word"}, {id: 0x0f00, kind: "dword", drop: true}, {id: 0x84, kind: "byte"}})
	encodeList("only unknown ids", []item{{id: 0, kind: "dword", drop: true}})
	encodeList("five items", []item{{id: 1, kind: "dword"}, {id: 0x31, kind: "word"}, {id: 0x83, kind: "gbk"}, {id: 0x84, kind: "byte"}, {id: 0x110, kind: "string"}})

	for _, n := range []int{127, 128, 169} {
		var its []item
		for i := 0; i < n; i++ {
			its = append(its, item{id: 0x84, kind: "byte"})
		}
		encodeList(fmt.Sprintf("%d items", n), its)
	}

	c.paramStore(pT, lT)
}

// pinned: the path fixes the id to one value.
func pinned(s *State, id *Term) bool {
	for _, f := range s.order {
		if f.K == KEq0 && strings.Contains(f.String(), id.String()) {
			return true
		}
	}
	r := rangeOf(id, s)
	return r.lo == r.hi
}

func sameIface(s *State, a, b *Term) bool {
	if sameTerm(s, a, b) {
		return true
	}
	if a.K == KIface && b.K == KIface && types.Identical(a.T, b.T) {
		x, y := a.A[0], b.A[0]
		return sameTerm(s, x, y) || isStringTerm(x) && isStringTerm(y) && s.decide(eqStr(x, y, s)) == 1
	}
	return false
}

// floatInt finds the integer conversion of v the encoder uses.
func floatInt(q *Term, v *Term, t types.Type) *Term {
	w := "f2i" + t.String()
	for _, k := range []string{w, "f2iuint64", "f2iint64", "f2iuint32", "f2iint", "f2iuint"} {
		x := Call(k, t, v)
		if strings.Contains(q.String(), x.String()) {
			var hit *Term
			var walk func(t *Term)
			walk = func(t *Term) {
				if hit != nil {
					return
				}
				if t.K != KSElem && t.String() == x.String() {
					hit = t
					return
				}
				for _, a := range t.A {
					walk(a)
				}
			}
			walk(q)
			if hit != nil {
				return hit
			}
		}
	}
	return Call(w, t, v)
}

// paramStore: what a terminal keeps of the parameters it is given.
func (c *Check) paramStore(pT, lT types.Type) {
	e := c.e
	type mcase struct {
		stored []int64
		mask   int
	}
	var cases []mcase
	for m := 0; m < 4; m++ {
		cases = append(cases, mcase{[]int64{0x31, 0x01}, m})
	}
	for m := 0; m < 32; m++ {
		cases = append(cases, mcase{[]int64{0x84, 0x01, 0xf000, 0x31, 0x20}, m})
	}
	for m := 0; m < 16; m++ {
		cases = append(cases, mcase{[]int64{0x12345, 0x84, 0xfffffffe, 0x10001}, m})
	}
	for _, mc := range cases {
		mask := mc.mask
		order := append([]int64(nil), mc.stored...)
		sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
		inst := fmt.Sprintf("merge %d of %x", mask, order)
		up := e.needMethod(pModel, "DeviceParams", "Update")
		c.guard("merge", inst, c.fnAt(up), func() {
			e.forceUnroll = 40
			st := e.newState()
			mkList := func(name string, ids []int64) (*Term, map[int64]*Term) {
				d := Sym(name, ptrTo(lT))
				e.nonNil(st, d)
				m := map[int64]*Term{}
				var els []*Term
				for _, id := range ids {
					p := Sym(fmt.Sprintf("%s%d", name, id), ptrTo(pT))
					e.nonNil(st, p)
					st.set(p, pT, "ParamID", Int(id))
					m[id] = st.get(p, pT, "ParamValue")
					els = append(els, SElem(p))
				}
				st.set(d, lT, "Params", st.newSlice(Seq(els...)))
				st.set(d, lT, "ParamCnt", Int(int64(len(ids))))
				return d, m
			}
			old, ov := mkList("old", mc.stored)
			var upd []int64
			for i, id := range order {
				if mask>>uint(i)&1 == 1 {
					upd = append(upd, id)
				}
			}
			nw, nv := mkList("new", upd)
			n := 0
			for _, o := range c.run(st, up, old, nw) {
				if !c.must(o.kind == outRet, "merge", inst, c.fnAt(up), "merging ends by %s", o.why) {
					continue
				}
				n++
				els, ok := listElems(o.st, o.st.get(old, lT, "Params"))
				if !c.must(ok && len(els) == len(order), "merge", inst, c.fnAt(up), "%d stored parameters become %d", len(order), len(els)) {
					continue
				}
				c.must(sameTerm(o.st, o.st.get(old, lT, "ParamCnt"), Int(int64(len(order)))), "merge", inst, c.fnAt(up), "the count becomes %s", o.st.get(old, lT, "ParamCnt"))
				for i, id := range order {
					want := ov[id]
					if v, ok := nv[id]; ok {
						want = v
					}
					got := 0
					for j, el := range els {
						if sameTerm(o.st, o.st.get(el, pT, "ParamID"), Int(id)) {
							got++
							c.must(sameTerm(o.st, o.st.get(el, pT, "ParamValue"), want), "merge", inst, c.fnAt(up), "parameter %#x has value %s, expected %s", id, o.st.get(el, pT, "ParamValue"), want)
							c.must(j == i, "merge", inst+" order", c.fnAt(up), "the merged list is not ordered by id")
						}
					}
					c.must(got == 1, "merge", inst, c.fnAt(up), "parameter %#x is stored %d times", id, got)
				}
			}
			c.must(n > 0, "merge", inst, c.fnAt(up), "no outcome")
		})
	}
}
