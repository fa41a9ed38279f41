package main

// Abstract values. Every value the analysis talks about is a hash-consed
// Term, so equality of abstract values is pointer equality. Integer terms
// denote mathematical integers (linear forms over atoms, or bit-field
// compositions); byte sequences and strings denote lists of segments.

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KInt Kind = iota
	KBool
	KStr
	KFloat
	KNil
	KZero   // zero value of an opaque type
	KSym    // named input
	KInit   // initial contents of a cell: A[0]=base pointer, S=path
	KField  // field I of an opaque struct value
	KAlloc  // allocated object; pointer to it
	KGlobal // pointer to a package-level variable
	KPtr    // pointer into an object: A[0]=base, path in S/A[1:]
	KBack   // pseudo pointer to the backing store of an opaque slice
	KSlice  // A: ptr, off, len
	KLin    // I + sum C[i]*A[i]
	KBits   // disjoint bit fields: A[i] bits C[3i]..(+C[3i+1]) at C[3i+2]; I const bits
	KTrunc  // A[0] mod 2^I
	KXor
	KOp  // S op, A
	KGe0 // A[0] >= 0
	KEq0 // A[0] == 0
	KEq  // A[0] == A[1] non-integer
	KNot
	KHas // map has key
	KGet // map lookup value
	KIs  // interface A[0] has dynamic type T
	KUnbox
	KIface // A[0] boxed as T
	KFunc
	KClosure
	KStruct
	KTuple
	KCall // opaque call S(A...) ; I = unique stamp (0: pure)
	KProj
	KLen
	KAt // element A[1] of opaque sequence A[0]
	KSeq
	KSElem
	KSChunk // A: src, off, len
	KSFill  // A: v, n
	KSFold  // segment emitted by a loop
	KStrOf
	KMap // map value = allocated map; A[0] alloc id
	KCtx
	KLoopVar
	KMax0
	KFold
	KWrap // error wrapping A[0]
)

type Term struct {
	K  Kind
	S  string
	I  int64
	T  types.Type
	A  []*Term
	C  []int64
	P  any
	id int

	tid, pid int
	flat     int8
	next     *Term
}

var (
	internTab = map[uint64]*Term{}
	termSeq   int
	typeIDs   = map[string]int{}
	ptrIDs    = map[any]int{}
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	s := types.TypeString(t, nil)
	if n, ok := typeIDs[s]; ok {
		return n
	}
	n := len(typeIDs) + 1
	typeIDs[s] = n
	return n
}

func ptrID(p any) int {
	if p == nil {
		return 0
	}
	if n, ok := ptrIDs[p]; ok {
		return n
	}
	n := len(ptrIDs) + 1
	ptrIDs[p] = n
	return n
}

// the static type is part of the identity only where it determines meaning
func typeMatters(k Kind) bool {
	switch k {
	case KSym, KZero, KIs, KUnbox, KIface, KStruct:
		return true
	}
	return false
}

// mk interns a term: equal terms are the same pointer.
func mk(t Term) *Term {
	tid := 0
	if typeMatters(t.K) {
		tid = typeID(t.T)
	}
	pid := ptrID(t.P)
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	mix(uint64(t.K))
	mix(uint64(t.I))
	mix(uint64(tid))
	mix(uint64(pid))
	for i := 0; i < len(t.S); i++ {
		h = (h ^ uint64(t.S[i])) * 1099511628211
	}
	for _, a := range t.A {
		if a == nil {
			mix(0)
		} else {
			mix(uint64(a.id))
		}
	}
	for _, c := range t.C {
		mix(uint64(c) + 0x9e3779b97f4a7c15)
	}
bucket:
	for x := internTab[h]; x != nil; x = x.next {
		if x.K != t.K || x.I != t.I || x.S != t.S || x.tid != tid || x.pid != pid || len(x.A) != len(t.A) || len(x.C) != len(t.C) {
			continue
		}
		for i, a := range t.A {
			if x.A[i] != a {
				continue bucket
			}
		}
		for i, c := range t.C {
			if x.C[i] != c {
				continue bucket
			}
		}
		return x
	}
	termSeq++
	n := t
	n.id, n.tid, n.pid, n.next = termSeq, tid, pid, internTab[h]
	x := &n
	internTab[h] = x
	return x
}

// ---- constructors ----

var smallInt [1 << 14]*Term

func Int(n int64) *Term {
	if n >= 0 && n < int64(len(smallInt)) {
		if smallInt[n] == nil {
			smallInt[n] = mk(Term{K: KInt, I: n})
		}
		return smallInt[n]
	}
	return mk(Term{K: KInt, I: n})
}
func Bool(b bool) *Term {
	if b {
		return mk(Term{K: KBool, I: 1})
	}
	return mk(Term{K: KBool, I: 0})
}

var (
	True  = Bool(true)
	False = Bool(false)
	Nil   = mk(Term{K: KNil})
)

func StrC(s string) *Term                 { return mk(Term{K: KStr, S: s}) }
func Sym(name string, t types.Type) *Term { return mk(Term{K: KSym, S: name, T: t}) }
func Tuple(a ...*Term) *Term              { return mk(Term{K: KTuple, A: a}) }
func Call(name string, t types.Type, a ...*Term) *Term {
	if name == "rune2str" && len(a) == 1 && a[0].K == KInt {
		return StrC(string(rune(a[0].I)))
	}
	return mk(Term{K: KCall, S: name, T: t, A: a})
}

func isInt(t *Term) bool {
	switch t.K {
	case KInt, KLin, KBits, KTrunc, KXor, KLen, KMax0:
		return true
	}
	if t.T != nil {
		return isIntType(t.T)
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// intWidth returns (bits, signed).
func intWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

const inf = int64(1) << 60

type Iv struct{ lo, hi int64 }

func typeIv(t types.Type) Iv {
	if t == nil || !isIntType(t) {
		return Iv{-inf, inf}
	}
	w, s := intWidth(t)
	if w >= 64 {
		if s {
			return Iv{-inf, inf}
		}
		return Iv{0, inf}
	}
	if s {
		return Iv{-(1 << (w - 1)), 1<<(w-1) - 1}
	}
	return Iv{0, 1<<w - 1}
}

func satAdd(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	s := a + b
	if s > inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}
func satMul(a, c int64) int64 {
	if c == 0 || a == 0 {
		return 0
	}
	if a >= inf || a <= -inf {
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(c)))
	if hi != 0 || lo > uint64(inf) {
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	return a * c
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// globalRange lets a rule declare the range of an input symbol.
var globalRange = map[*Term]Iv{}

func rangeOf(t *Term, st *State) Iv {
	if st != nil {
		if iv, ok := st.rng[t]; ok {
			b := rangeBase(t, st)
			if b.lo > iv.lo {
				iv.lo = b.lo
			}
			if b.hi < iv.hi {
				iv.hi = b.hi
			}
			return iv
		}
	}
	return rangeBase(t, st)
}

func rangeBase(t *Term, st *State) Iv {
	if iv, ok := globalRange[t]; ok {
		return iv
	}
	switch t.K {
	case KInt:
		return Iv{t.I, t.I}
	case KLin:
		iv := Iv{t.I, t.I}
		for i, a := range t.A {
			r := rangeOf(a, st)
			c := t.C[i]
			x, y := satMul(r.lo, c), satMul(r.hi, c)
			if x > y {
				x, y = y, x
			}
			iv.lo = satAdd(iv.lo, x)
			iv.hi = satAdd(iv.hi, y)
		}
		return iv
	case KBits:
		max := uint64(t.I)
		min := uint64(t.I)
		for i := range t.A {
			n, pos := t.C[3*i+1], t.C[3*i+2]
			if n+pos >= 60 {
				return Iv{0, inf}
			}
			max |= (1<<uint(n) - 1) << uint(pos)
			// a whole-field piece with a known range
			if t.C[3*i] == 0 {
				r := rangeOf(t.A[i], st)
				if r.lo >= 0 && r.hi < 1<<uint(n) {
					min += uint64(r.lo) << uint(pos)
				}
			}
		}
		if len(t.A) == 1 && t.C[0] == 0 {
			r := rangeOf(t.A[0], st)
			if r.lo >= 0 && r.hi < 1<<uint(t.C[1]) {
				return Iv{t.I + r.lo<<uint(t.C[2]), t.I + r.hi<<uint(t.C[2])}
			}
		}
		return Iv{int64(min), int64(max)}
	case KTrunc:
		return Iv{0, 1<<uint(t.I) - 1}
	case KXor:
		hi, k := int64(0), t.I
		if k < 0 {
			return typeIv(t.T)
		}
		for _, a := range t.A {
			r := rangeOf(a, st)
			if r.lo < 0 || r.hi >= 1<<56 {
				return typeIv(t.T)
			}
			if r.lo == r.hi {
				k ^= r.lo
				continue
			}
			hi |= 1<<uint(bits.Len64(uint64(r.hi))) - 1
		}
		if hi == 0 {
			return Iv{k, k}
		}
		return Iv{0, hi | (1<<uint(bits.Len64(uint64(k))) - 1)}
	case KLen:
		return Iv{0, 1 << 48}
	case KMax0:
		r := rangeOf(t.A[0], st)
		if r.lo < 0 {
			r.lo = 0
		}
		if r.hi < 0 {
			r.hi = 0
		}
		return r
	case KOp:
		if t.S == "rem" {
			if m := t.A[1]; m.K == KInt && m.I > 0 {
				r := rangeOf(t.A[0], st)
				if r.lo >= 0 {
					return Iv{0, m.I - 1}
				}
				return Iv{-(m.I - 1), m.I - 1}
			}
		}
		if t.S == "div" {
			if m := t.A[1]; m.K == KInt && m.I > 0 {
				r := rangeOf(t.A[0], st)
				if r.lo >= 0 && r.hi < inf {
					return Iv{r.lo / m.I, r.hi / m.I}
				}
			}
		}
		return typeIv(t.T)
	}
	return typeIv(t.T)
}

// ---- linear forms ----

type lin struct {
	k int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	switch t.K {
	case KInt:
		return lin{t.I, nil}
	case KLin:
		m := make(map[*Term]int64, len(t.A))
		for i, a := range t.A {
			m[a] = t.C[i]
		}
		return lin{t.I, m}
	}
	return lin{0, map[*Term]int64{t: 1}}
}

func fromLin(l lin) *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return Int(l.k)
	}
	if len(as) == 1 && l.k == 0 && l.m[as[0]] == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk(Term{K: KLin, I: l.k, A: as, C: cs})
}

func linComb(a *Term, ca int64, b *Term, cb int64) *Term {
	if a.K == KInt && b.K == KInt {
		return Int(a.I*ca + b.I*cb)
	}
	la, lb := toLin(a), toLin(b)
	r := lin{la.k*ca + lb.k*cb, map[*Term]int64{}}
	for x, c := range la.m {
		r.m[x] += c * ca
	}
	for x, c := range lb.m {
		r.m[x] += c * cb
	}
	return fromLin(r)
}

func Add(a, b *Term) *Term         { return linComb(a, 1, b, 1) }
func Sub(a, b *Term) *Term         { return linComb(a, 1, b, -1) }
func Scale(a *Term, c int64) *Term { return linComb(a, c, Int(0), 0) }
func AddC(a *Term, c int64) *Term  { return linComb(a, 1, Int(c), 1) }

// ---- bit fields ----

type piece struct {
	base       *Term
	lo, n, pos int64
}

// toBits views t as disjoint bit fields (value must be known non-negative).
func toBits(t *Term, st *State) (ps []piece, k uint64, ok bool) {
	switch t.K {
	case KInt:
		if t.I < 0 {
			return nil, 0, false
		}
		return nil, uint64(t.I), true
	case KBits:
		for i, a := range t.A {
			ps = append(ps, piece{a, t.C[3*i], t.C[3*i+1], t.C[3*i+2]})
		}
		return ps, uint64(t.I), true
	case KLin:
		// sum of power-of-two scaled, range-disjoint atoms
		var used uint64
		if t.I < 0 {
			break
		}
		used = uint64(t.I)
		k = used
		good := true
		for i, a := range t.A {
			c := t.C[i]
			if c <= 0 || c&(c-1) != 0 {
				good = false
				break
			}
			sh := int64(bits.TrailingZeros64(uint64(c)))
			aps, ak, aok := toBits(a, st)
			if !aok {
				good = false
				break
			}
			m := ak << uint(sh)
			if used&m != 0 {
				good = false
				break
			}
			used |= m
			k |= m
			for _, p := range aps {
				if p.n+p.pos+sh > 62 {
					good = false
					break
				}
				pm := uint64(1<<uint(p.n)-1) << uint(p.pos+sh)
				if used&pm != 0 {
					good = false
					break
				}
				used |= pm
				ps = append(ps, piece{p.base, p.lo, p.n, p.pos + sh})
			}
			if !good {
				break
			}
		}
		if good {
			return ps, k, true
		}
		ps = nil
	}
	r := rangeOf(t, st)
	if r.lo < 0 {
		return nil, 0, false
	}
	n := int64(62)
	if r.hi < 1<<61 {
		n = int64(bits.Len64(uint64(r.hi)))
	}
	if n == 0 {
		return nil, 0, true
	}
	return []piece{{t, 0, n, 0}}, 0, true
}

func fromBits(ps []piece, k uint64, st *State) *Term {
	var q []piece
	for _, p := range ps {
		if p.n > 0 {
			// pieces above a base's known width are zero
			r := rangeOf(p.base, st)
			if r.lo >= 0 && r.hi < 1<<61 {
				w := int64(bits.Len64(uint64(r.hi)))
				if p.lo >= w {
					continue
				}
				if p.lo+p.n > w {
					p.n = w - p.lo
				}
			}
			q = append(q, p)
		}
	}
	sort.Slice(q, func(i, j int) bool { return q[i].pos < q[j].pos })
	var m []piece
	for _, p := range q {
		if n := len(m); n > 0 && m[n-1].base == p.base && m[n-1].lo+m[n-1].n == p.lo && m[n-1].pos+m[n-1].n == p.pos {
			m[n-1].n += p.n
			continue
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return Int(int64(k))
	}
	if len(m) == 1 && k == 0 && m[0].lo == 0 && m[0].pos == 0 {
		r := rangeOf(m[0].base, st)
		if r.lo >= 0 && (r.hi < 1<<uint(m[0].n) || m[0].n >= 62) {
			return m[0].base
		}
	}
	t := Term{K: KBits, I: int64(k)}
	for _, p := range m {
		t.A = append(t.A, p.base)
		t.C = append(t.C, p.lo, p.n, p.pos)
	}
	return mk(t)
}

func bitsMask(ps []piece, k uint64) uint64 {
	m := k
	for _, p := range ps {
		m |= (1<<uint(p.n) - 1) << uint(p.pos)
	}
	return m
}

func andMask(t *Term, mask uint64, st *State) *Term {
	ps, k, ok := toBits(t, st)
	if !ok {
		return nil
	}
	var out []piece
	for _, p := range ps {
		var i int64
		for i = 0; i < p.n; {
			if p.pos+i < 64 && mask>>uint(p.pos+i)&1 == 0 {
				i++
				continue
			}
			j := i
			for j < p.n && mask>>uint(p.pos+j)&1 == 1 {
				j++
			}
			out = append(out, piece{p.base, p.lo + i, j - i, p.pos + i})
			i = j
		}
	}
	return fromBits(out, k&mask, st)
}

func shiftBits(t *Term, sh int64, width int64, st *State) *Term {
	ps, k, ok := toBits(t, st)
	if !ok {
		return nil
	}
	var out []piece
	for _, p := range ps {
		p.pos += sh
		if p.pos < 0 {
			d := -p.pos
			if d >= p.n {
				continue
			}
			p.lo += d
			p.n -= d
			p.pos = 0
		}
		if p.pos >= width {
			continue
		}
		if p.pos+p.n > width {
			p.n = width - p.pos
		}
		out = append(out, p)
	}
	if sh >= 0 {
		k = k << uint(sh)
	} else {
		k = k >> uint(-sh)
	}
	if width < 64 {
		k &= 1<<uint(width) - 1
	}
	if width > 62 {
		for _, p := range out {
			if p.pos+p.n > 62 && sh > 0 {
				// would leave our 62-bit model
				if p.pos > 62 {
					return nil
				}
			}
		}
	}
	return fromBits(out, k, st)
}

func orBits(a, b *Term, st *State) *Term {
	pa, ka, ok1 := toBits(a, st)
	pb, kb, ok2 := toBits(b, st)
	if !ok1 || !ok2 {
		return nil
	}
	if bitsMask(pa, ka)&bitsMask(pb, kb) != 0 {
		return nil
	}
	return fromBits(append(append([]piece{}, pa...), pb...), ka|kb, st)
}

// wrap brings the mathematical value t into integer type ty.
func wrap(t *Term, ty types.Type, st *State) *Term {
	w, s := intWidth(ty)
	if w >= 64 {
		return t
	}
	r := rangeOf(t, st)
	tr := typeIv(ty)
	if r.lo >= tr.lo && r.hi <= tr.hi {
		return t
	}
	if s {
		if t.K == KInt {
			v := t.I & (1<<uint(w) - 1)
			if v >= 1<<uint(w-1) {
				v -= 1 << uint(w)
			}
			return Int(v)
		}
		return mk(Term{K: KOp, S: "sext" + strconv.Itoa(w), A: []*Term{t}, T: ty})
	}
	if t.K == KInt {
		return Int(t.I & (1<<uint(w) - 1))
	}
	if r.lo >= 0 {
		if x := andMask(t, 1<<uint(w)-1, st); x != nil && x.K != KLin {
			// only if it really is a bit composition
			if ps, _, ok := toBits(t, st); ok && !(len(ps) == 1 && ps[0].base == t) {
				return x
			} else if t.K != KLin {
				return x
			}
		}
	}
	if t.K == KTrunc && t.I >= int64(w) {
		return wrap(t.A[0], ty, st)
	}
	// reduce coefficients modulo 2^w
	l := toLin(t)
	m := int64(1) << uint(w)
	n := lin{((l.k % m) + m) % m, map[*Term]int64{}}
	for a, c := range l.m {
		if a.K == KTrunc && a.I >= int64(w) {
			// (x mod 2^v) mod 2^w with v>=w contributes x
			la := toLin(a.A[0])
			n.k = ((n.k+la.k*c)%m + m) % m
			for x, cx := range la.m {
				n.m[x] = ((n.m[x]+cx*c)%m + m) % m
			}
			continue
		}
		n.m[a] = ((n.m[a]+c)%m + m) % m
	}
	return mk(Term{K: KTrunc, I: int64(w), A: []*Term{fromLin(n)}})
}

func Xor(ty types.Type, ts ...*Term) *Term {
	cnt := map[*Term]int{}
	var k int64
	var add func(t *Term)
	add = func(t *Term) {
		switch t.K {
		case KInt:
			k ^= t.I
		case KXor:
			k ^= t.I
			for _, a := range t.A {
				add(a)
			}
		default:
			cnt[t]++
		}
	}
	for _, t := range ts {
		add(t)
	}
	var as []*Term
	for t, n := range cnt {
		if n%2 == 1 {
			as = append(as, t)
		}
	}
	if len(as) == 0 {
		return Int(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k == 0 {
		return as[0]
	}
	return mk(Term{K: KXor, I: k, A: as, T: ty})
}

// ---- booleans ----

func Not(t *Term) *Term {
	switch t.K {
	case KBool:
		return Bool(t.I == 0)
	case KNot:
		return t.A[0]
	}
	return mk(Term{K: KNot, A: []*Term{t}})
}

func gcdAll(l lin) int64 {
	g := int64(0)
	for _, c := range l.m {
		c = abs64(c)
		for g != 0 {
			c, g = g, c%g
		}
		g, c = c, 0
		_ = c
	}
	return g
}

func gcd(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// Ge0 : t >= 0. Canonical: a negated comparison is itself a Ge0.
func Ge0(t *Term) *Term {
	l := toLin(t)
	g := int64(0)
	for _, c := range l.m {
		g = gcd(g, c)
	}
	if g == 0 {
		return Bool(l.k >= 0)
	}
	if g > 1 {
		n := lin{floorDiv(l.k, g), map[*Term]int64{}}
		for a, c := range l.m {
			n.m[a] = c / g
		}
		t = fromLin(n)
		l = n
	}
	// canonical polarity: leading atom (lowest id) positive, else Not(Ge0(-t-1))
	var lead *Term
	for a, c := range l.m {
		if c != 0 && (lead == nil || a.id < lead.id) {
			lead = a
		}
	}
	if l.m[lead] < 0 {
		n := linComb(t, -1, Int(-1), 1)
		return Not(mk(Term{K: KGe0, A: []*Term{n}}))
	}
	return mk(Term{K: KGe0, A: []*Term{t}})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func EqInt(a, b *Term, st *State) *Term {
	d := Sub(a, b)
	if d.K == KInt {
		return Bool(d.I == 0)
	}
	r := rangeOf(d, st)
	if r.lo > 0 || r.hi < 0 {
		return False
	}
	l := toLin(d)
	g := int64(0)
	var lead *Term
	for x, c := range l.m {
		g = gcd(g, c)
		if lead == nil || x.id < lead.id {
			lead = x
		}
	}
	if l.k%g != 0 {
		return False
	}
	if l.m[lead] < 0 {
		g = -g
	}
	if g != 1 {
		n := lin{l.k / g, map[*Term]int64{}}
		for x, c := range l.m {
			n.m[x] = c / g
		}
		d = fromLin(n)
		l = n
	}
	// exclusive ors: a^b == c is a^b^c == 0; two operands are an equation
	if x := xorEq(l); x != nil {
		if x.K == KXor && len(x.A) == 1 {
			return EqInt(x.A[0], Int(x.I), st)
		}
		if x.K == KXor && len(x.A) == 2 && x.I == 0 {
			return EqInt(x.A[0], x.A[1], st)
		}
		if x.K != KXor {
			return EqInt(x, Int(0), st)
		}
		return mk(Term{K: KEq0, A: []*Term{x}})
	}
	// x mod 2^w == y for y below 2^w: x-y is a multiple of 2^w, and when only
	// one multiple is in reach, that one
	if t := truncEq(l, st); t != nil {
		return t
	}
	// 0/1-valued atoms: x==0 is !(x==1)
	if len(l.m) == 1 && l.m[lead] == 1 && l.k == 0 {
		if r := rangeOf(lead, nil); r.lo == 0 && r.hi == 1 {
			return Not(mk(Term{K: KEq0, A: []*Term{AddC(lead, -1)}}))
		}
	}
	return mk(Term{K: KEq0, A: []*Term{d}})
}

func truncEq(l lin, st *State) *Term {
	var tr *Term
	for x, c := range l.m {
		if x.K == KTrunc && (c == 1 || c == -1) {
			if tr != nil {
				return nil
			}
			tr = x
		}
	}
	if tr == nil || tr.I > 32 {
		return nil
	}
	y := lin{l.k, map[*Term]int64{}}
	for x, c := range l.m {
		if x != tr {
			y.m[x] = c
		}
	}
	yt := fromLin(y)
	if l.m[tr] == 1 {
		yt = Scale(yt, -1)
	}
	m := int64(1) << uint(tr.I)
	if r := rangeOf(yt, st); r.lo < 0 || r.hi >= m {
		return nil
	}
	d := Sub(tr.A[0], yt)
	r := rangeOf(d, st)
	if r.lo < -(1<<40) || r.hi > 1<<40 {
		return nil
	}
	first := (r.lo + m - 1) / m * m
	if r.lo < 0 {
		first = -((-r.lo) / m * m)
	}
	switch {
	case first > r.hi:
		return False
	case first+m > r.hi:
		return EqInt(d, Int(first), st)
	}
	return nil
}

// xorEq gives the exclusive or that is zero exactly when l is, for l with an
// exclusive or among at most two byte operands.
func xorEq(l lin) *Term {
	var ops []*Term
	has := false
	sum := int64(0)
	for x, c := range l.m {
		if c != 1 && c != -1 || len(ops) == 2 {
			return nil
		}
		if r := rangeOf(x, nil); r.lo < 0 || r.hi > 255 {
			return nil
		}
		has = has || x.K == KXor
		sum += c
		ops = append(ops, x)
	}
	switch {
	case !has:
		return nil
	case len(ops) == 1:
		k := l.k
		if l.m[ops[0]] == 1 {
			k = -k
		}
		if k < 0 || k > 255 {
			return nil
		}
		return Xor(byteType, ops[0], Int(k))
	case len(ops) == 2 && sum == 0 && l.k == 0:
		return Xor(byteType, ops...)
	}
	return nil
}

func EqOther(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.K == KStr && b.K == KStr {
		return Bool(a.S == b.S)
	}
	if a.K == KFloat && b.K == KFloat {
		return Bool(a.S == b.S)
	}
	if isNil(a) && nonNil(b) || isNil(b) && nonNil(a) {
		return False
	}
	if isNil(a) && isNil(b) {
		return True
	}
	if addrLike(a) && addrLike(b) {
		return False // distinct hash-consed addresses
	}
	if errAtom(a) && errAtom(b) {
		return False
	}
	if errAtom(a) && b.K == KWrap || errAtom(b) && a.K == KWrap {
		return False
	}
	if a.K == KIface && b.K == KIface {
		if types.Identical(a.T, b.T) {
			return EqOther(a.A[0], b.A[0])
		}
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{K: KEq, A: []*Term{a, b}})
}

func isNil(t *Term) bool { return t.K == KNil }

// errAtom: sentinel error values held in package-level variables, or freshly made errors.
func errAtom(t *Term) bool { return t.K == KSym && strings.HasPrefix(t.S, "err:") }

func addrLike(t *Term) bool {
	return t.K == KAlloc || t.K == KGlobal || (t.K == KPtr && (t.A[0].K == KAlloc || t.A[0].K == KGlobal))
}

func nonNil(t *Term) bool {
	switch t.K {
	case KAlloc, KGlobal, KPtr, KFunc, KClosure, KIface, KWrap, KCtx, KMap, KSlice, KBack:
		return true
	}
	if errAtom(t) {
		return true
	}
	if t.K == KSym && strings.HasPrefix(t.S, "nn:") {
		return true
	}
	return false
}

// ---- sequences ----

func SElem(v *Term) *Term { return mk(Term{K: KSElem, A: []*Term{v}}) }
func SChunk(src, off, n *Term) *Term {
	return mk(Term{K: KSChunk, A: []*Term{src, off, n}})
}
func SFill(v, n *Term) *Term { return mk(Term{K: KSFill, A: []*Term{v, n}}) }

func segLen(s *Term) *Term {
	switch s.K {
	case KSElem:
		return Int(1)
	case KSChunk:
		return s.A[2]
	case KSFill:
		return s.A[1]
	case KSFold:
		return mk(Term{K: KLen, A: []*Term{s}})
	}
	panic("segLen")
}

var emptySeq = mk(Term{K: KSeq})

// Seq normalises a segment list.
func Seq(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if n := segLen(s); n.K == KInt && n.I <= 0 && s.K != KSFold {
			continue
		}
		if s.K == KSChunk {
			if v := uniform(s.A[0]); v != nil {
				s = SFill(v, s.A[2])
			}
		}
		switch s.K {
		case KSChunk:
			if s.A[2].K == KInt && s.A[2].I == 1 {
				s = SElem(At(s.A[0], s.A[1], nil))
			} else if src := s.A[0]; src.K == KStr && s.A[1].K == KInt && s.A[2].K == KInt {
				for i := int64(0); i < s.A[2].I; i++ {
					out = append(out, SElem(Int(int64(src.S[s.A[1].I+i]))))
				}
				continue
			}
		case KSFill:
			if s.A[1].K == KInt && s.A[1].I <= 64 {
				for i := int64(0); i < s.A[1].I; i++ {
					out = appendSeg(out, SElem(s.A[0]))
				}
				continue
			}
		}
		out = appendSeg(out, s)
	}
	return mk(Term{K: KSeq, A: out})
}

// uniform: every element of the sequence is the same value (nil if not).
func uniform(q *Term) *Term {
	if q.K != KSeq || len(q.A) == 0 {
		return nil
	}
	var v *Term
	for _, s := range q.A {
		if s.K != KSElem && s.K != KSFill || v != nil && s.A[0] != v {
			return nil
		}
		v = s.A[0]
	}
	return v
}

func appendSeg(out []*Term, s *Term) []*Term {
	if n := len(out); n > 0 {
		if m := mergeSeg(out[n-1], s); m != nil {
			out[n-1] = m
			return out
		}
	}
	return append(out, s)
}

func atParts(s *Term) (src, off, n *Term, ok bool) {
	switch s.K {
	case KSChunk:
		return s.A[0], s.A[1], s.A[2], true
	case KSElem:
		if v := s.A[0]; v.K == KAt {
			return v.A[0], v.A[1], Int(1), true
		}
	}
	return nil, nil, nil, false
}

func mergeSeg(a, b *Term) *Term {
	s1, o1, n1, ok1 := atParts(a)
	s2, o2, n2, ok2 := atParts(b)
	if ok1 && ok2 && s1 == s2 && Add(o1, n1) == o2 {
		return SChunk(s1, o1, Add(n1, n2))
	}
	if a.K == KSFill && b.K == KSFill && a.A[0] == b.A[0] {
		return SFill(a.A[0], Add(a.A[1], b.A[1]))
	}
	return nil
}

// flatSeq: the sequence consists of single elements only.
func flatSeq(q *Term) bool {
	if q.flat == 0 {
		q.flat = 1
		for _, s := range q.A {
			if s.K != KSElem {
				q.flat = 2
				break
			}
		}
	}
	return q.flat == 1
}

func seqLen(q *Term) *Term {
	if flatSeq(q) {
		return Int(int64(len(q.A)))
	}
	n := Int(0)
	for _, s := range q.A {
		n = Add(n, segLen(s))
	}
	return n
}

func Concat(qs ...*Term) *Term {
	var segs []*Term
	for _, q := range qs {
		segs = append(segs, q.A...)
	}
	return Seq(segs...)
}

// seqOf views a string term as a sequence.
func seqOfStr(s *Term) *Term {
	switch s.K {
	case KStr:
		var segs []*Term
		for i := 0; i < len(s.S); i++ {
			segs = append(segs, SElem(Int(int64(s.S[i]))))
		}
		return Seq(segs...)
	case KStrOf:
		return s.A[0]
	}
	return Seq(SChunk(s, Int(0), LenOf(s)))
}

func strOf(q *Term) *Term {
	if len(q.A) == 0 {
		return StrC("")
	}
	all := true
	var b []byte
	for _, s := range q.A {
		if s.K == KSElem && s.A[0].K == KInt {
			b = append(b, byte(s.A[0].I))
			continue
		}
		all = false
		break
	}
	if all {
		return StrC(string(b))
	}
	if len(q.A) == 1 && q.A[0].K == KSChunk {
		c := q.A[0]
		if isStringTerm(c.A[0]) && c.A[1].K == KInt && c.A[1].I == 0 && c.A[2] == LenOf(c.A[0]) {
			return c.A[0]
		}
	}
	return mk(Term{K: KStrOf, A: []*Term{q}})
}

func isStringTerm(t *Term) bool {
	if t.K == KStr || t.K == KStrOf {
		return true
	}
	return t.T != nil && isStringType(t.T)
}

func LenOf(t *Term) *Term {
	switch t.K {
	case KStr:
		return Int(int64(len(t.S)))
	case KStrOf:
		return seqLen(t.A[0])
	case KNil:
		return Int(0)
	case KSlice:
		return t.A[2]
	case KSeq:
		return seqLen(t)
	}
	return mk(Term{K: KLen, A: []*Term{t}})
}

var byteType = types.Typ[types.Uint8]

func At(src, i *Term, elem types.Type) *Term {
	if src.K == KStr && i.K == KInt && i.I >= 0 && i.I < int64(len(src.S)) {
		return Int(int64(src.S[i.I]))
	}
	if elem == nil {
		elem = elemTypeOf(src)
	}
	return mk(Term{K: KAt, A: []*Term{src, i}, T: elem})
}

func elemTypeOf(src *Term) types.Type {
	if src.T != nil {
		switch u := src.T.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return a.Elem()
			}
		}
	}
	return byteType
}

// seqAt returns element i of q, using st's facts to locate the segment.
func seqAt(q, i *Term, st *State) *Term {
	if i.K == KInt && i.I >= 0 && i.I < int64(len(q.A)) && flatSeq(q) {
		return q.A[i.I].A[0]
	}
	if t := tableAt(q, i, st); t != nil {
		return t
	}
	off := i
	for k, s := range q.A {
		if off.K == KInt && off.I < 0 {
			break
		}
		n := segLen(s)
		in := Ge0(Sub(AddC(n, -1), off)) // off <= n-1
		d := st.decide(in)
		if d == 0 {
			if k == len(q.A)-1 && len(q.A) == 1 {
				d = 1 // the only segment: in-bounds access
			} else {
				break
			}
		}
		if d > 0 {
			switch s.K {
			case KSElem:
				return s.A[0]
			case KSFill:
				return s.A[0]
			case KSChunk:
				return At(s.A[0], Add(s.A[1], off), nil)
			}
			break
		}
		off = Sub(off, n)
	}
	return At(q, i, elemGuess(q))
}

// tableAt: an entry of a constant table whose entries differ from their index
// by one constant over the whole range the index can have ("0123456789"[d]).
func tableAt(q, i *Term, st *State) *Term {
	if i.K == KInt || st == nil || !flatSeq(q) {
		return nil
	}
	iv := rangeOf(i, st)
	if iv.lo < 0 || iv.hi >= int64(len(q.A)) || iv.hi-iv.lo > 256 {
		return nil
	}
	var base int64
	for k := iv.lo; k <= iv.hi; k++ {
		s := q.A[k]
		if s.K != KSElem || s.A[0].K != KInt {
			return nil
		}
		d := s.A[0].I - k
		if k == iv.lo {
			base = d
		} else if d != base {
			return nil
		}
	}
	return AddC(i, base)
}

func elemGuess(q *Term) types.Type {
	for _, s := range q.A {
		switch s.K {
		case KSElem, KSFill:
			if s.A[0].T != nil && s.A[0].K != KIface {
				return s.A[0].T
			}
		case KSChunk:
			return elemTypeOf(s.A[0])
		}
	}
	return byteType
}

// seqSub returns q[off:off+n].
func seqSub(q, off, n *Term, st *State) *Term {
	if off.K == KInt && off.I == 0 && n == seqLen(q) {
		return q
	}
	if n.K == KInt && n.I == 0 {
		return emptySeq
	}
	if off.K == KInt && n.K == KInt && off.I >= 0 && n.I >= 0 && off.I+n.I <= int64(len(q.A)) && flatSeq(q) {
		return mk(Term{K: KSeq, A: append([]*Term(nil), q.A[off.I:off.I+n.I]...)})
	}
	var out []*Term
	rest := n
	skip := off
	segs := q.A
	if off.K != KInt || n.K != KInt {
		segs = runs(q.A)
	}
	for k := 0; k < len(segs); k++ {
		s := segs[k]
		l := segLen(s)
		if skip.K != KInt || skip.I != 0 {
			// is skip >= l ?
			switch st.decide(Ge0(Sub(skip, l))) {
			case 1:
				skip = Sub(skip, l)
				continue
			case -1:
			default:
				if k != len(segs)-1 {
					return Seq(SChunk(q, off, n))
				}
			}
			// skip < l : partial
			l = Sub(l, skip)
			switch s.K {
			case KSChunk:
				s = SChunk(s.A[0], Add(s.A[1], skip), l)
			case KSFill:
				s = SFill(s.A[0], l)
			default:
				return Seq(SChunk(q, off, n))
			}
			skip = Int(0)
		}
		// take min(l, rest)
		if rest.K == KInt && rest.I == 0 {
			break
		}
		if rest == l {
			out = append(out, s)
			rest = Int(0)
			break
		}
		switch st.decide(Ge0(Sub(rest, l))) { // rest >= l
		case 1:
			out = append(out, s)
			rest = Sub(rest, l)
			continue
		case -1:
		default:
			if k != len(segs)-1 {
				return Seq(SChunk(q, off, n))
			}
		}
		switch s.K {
		case KSChunk:
			out = append(out, SChunk(s.A[0], s.A[1], rest))
		case KSFill:
			out = append(out, SFill(s.A[0], rest))
		case KSElem:
			out = append(out, s)
		default:
			return Seq(SChunk(q, off, n))
		}
		rest = Int(0)
		break
	}
	if rest.K != KInt || rest.I != 0 {
		if rest.K == KInt || st.decide(EqInt(rest, Int(0), st)) != 1 {
			if st.decide(EqInt(rest, Int(0), st)) != 1 {
				return Seq(SChunk(q, off, n))
			}
		}
	}
	return Seq(out...)
}

// runs gathers neighbouring equal elements into fills, so that symbolic
// offsets can be placed inside them.
func runs(a []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(a); {
		j := i + 1
		if a[i].K == KSElem {
			for j < len(a) && a[j] == a[i] {
				j++
			}
		}
		if j-i > 1 {
			out = append(out, mk(Term{K: KSFill, A: []*Term{a[i].A[0], Int(int64(j - i))}}))
		} else {
			out = append(out, a[i])
		}
		i = j
	}
	return out
}

// ---- misc term helpers ----

func Struct(t types.Type, fs []*Term) *Term { return mk(Term{K: KStruct, T: t, A: fs}) }

func fieldOf(v *Term, i int, t types.Type) *Term {
	if v.K == KStruct {
		return v.A[i]
	}
	if v.K == KZero {
		return zeroOf(t)
	}
	return mk(Term{K: KField, I: int64(i), A: []*Term{v}, T: t})
}

func Max0(t *Term, st *State) *Term {
	switch st.decide(Ge0(t)) {
	case 1:
		return t
	case -1:
		return Int(0)
	}
	return mk(Term{K: KMax0, A: []*Term{t}})
}

// subst rebuilds t with a leaf mapping applied.
func subst(t *Term, m map[*Term]*Term, st *State) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, st)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, st *State) *Term {
	switch t.K {
	case KLin:
		r := Int(t.I)
		for i, a := range as {
			r = linComb(r, 1, a, t.C[i])
		}
		return r
	case KBits:
		r := Int(t.I)
		for i, a := range as {
			x := andMask(a, (1<<uint(t.C[3*i+1])-1)<<uint(t.C[3*i]), st)
			if x != nil {
				x = shiftBits(x, t.C[3*i+2]-t.C[3*i], 62, st)
			}
			if x == nil {
				n := *t
				n.A = as
				return mk(n)
			}
			y := orBits(r, x, st)
			if y == nil {
				n := *t
				n.A = as
				return mk(n)
			}
			r = y
		}
		return r
	case KTrunc:
		return wrap(as[0], uintType(int(t.I)), st)
	case KXor:
		return Xor(t.T, append([]*Term{Int(t.I)}, as...)...)
	case KGe0:
		return Ge0(as[0])
	case KEq0:
		return EqInt(as[0], Int(0), st)
	case KEq:
		return EqOther(as[0], as[1])
	case KNot:
		return Not(as[0])
	case KLen:
		return LenOf(as[0])
	case KAt:
		if as[0].K == KSeq {
			return seqAt(as[0], as[1], st)
		}
		return At(as[0], as[1], t.T)
	case KSeq:
		var segs []*Term
		for _, a := range as {
			if a.K == KSeq {
				segs = append(segs, a.A...)
			} else {
				segs = append(segs, a)
			}
		}
		return Seq(segs...)
	case KSChunk:
		if as[0].K == KSeq {
			return seqSub(as[0], as[1], as[2], st)
		}
	case KStrOf:
		return strOf(as[0])
	case KMax0:
		return Max0(as[0], st)
	case KCall:
		if t.S == "rune2str" {
			return Call(t.S, t.T, as...)
		}
	case KField:
		return fieldOf(as[0], int(t.I), t.T)
	case KPtr:
		return mkPtr(as[0], t.C, as[1:], t.T)
	}
	n := *t
	n.A = as
	return mk(n)
}

func uintType(w int) types.Type {
	switch w {
	case 8:
		return types.Typ[types.Uint8]
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// occurs reports whether any term satisfying f occurs in t.
func occurs(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func(from int) string {
		var ss []string
		for _, a := range t.A[from:] {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.K {
	case KInt:
		if t.I > 9 {
			return fmt.Sprintf("0x%x", t.I)
		}
		return strconv.FormatInt(t.I, 10)
	case KBool:
		return strconv.FormatBool(t.I == 1)
	case KStr:
		return strconv.Quote(t.S)
	case KFloat:
		return t.S
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + types.TypeString(t.T, shortQ) + ")"
	case KSym:
		return t.S
	case KInit:
		return t.A[0].str(d+1) + t.S
	case KField:
		return t.A[0].str(d+1) + ".f" + strconv.FormatInt(t.I, 10)
	case KAlloc:
		return fmt.Sprintf("new#%d", t.I)
	case KGlobal:
		return "&" + t.S
	case KPtr:
		return "&" + t.A[0].str(d+1) + t.S
	case KBack:
		return "mem(" + t.A[0].str(d+1) + ")"
	case KSlice:
		return fmt.Sprintf("slice(%s,%s,%s)", t.A[0].str(d+1), t.A[1].str(d+1), t.A[2].str(d+1))
	case KLin:
		var ss []string
		if t.I != 0 {
			ss = append(ss, strconv.FormatInt(t.I, 10))
		}
		for i, a := range t.A {
			if t.C[i] == 1 {
				ss = append(ss, a.str(d+1))
			} else {
				ss = append(ss, fmt.Sprintf("%d*%s", t.C[i], a.str(d+1)))
			}
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case KBits:
		var ss []string
		if t.I != 0 {
			ss = append(ss, fmt.Sprintf("0x%x", t.I))
		}
		for i, a := range t.A {
			ss = append(ss, fmt.Sprintf("%s[%d:+%d]<<%d", a.str(d+1), t.C[3*i], t.C[3*i+1], t.C[3*i+2]))
		}
		return "{" + strings.Join(ss, " | ") + "}"
	case KTrunc:
		return fmt.Sprintf("trunc%d(%s)", t.I, as(0))
	case KXor:
		return fmt.Sprintf("xor(%d, %s)", t.I, as(0))
	case KOp:
		return t.S + "(" + as(0) + ")"
	case KGe0:
		return t.A[0].str(d+1) + ">=0"
	case KEq0:
		return t.A[0].str(d+1) + "==0"
	case KEq:
		return t.A[0].str(d+1) + "==" + t.A[1].str(d+1)
	case KNot:
		return "!" + t.A[0].str(d+1)
	case KHas:
		return "has(" + as(0) + ")"
	case KGet:
		return "get(" + as(0) + ")"
	case KIs:
		return t.A[0].str(d+1) + " is " + types.TypeString(t.T, shortQ)
	case KUnbox:
		return t.A[0].str(d+1) + ".(" + types.TypeString(t.T, shortQ) + ")"
	case KIface:
		return "iface<" + types.TypeString(t.T, shortQ) + ">(" + as(0) + ")"
	case KFunc, KClosure:
		return "func " + t.S
	case KStruct:
		return types.TypeString(t.T, shortQ) + "{" + as(0) + "}"
	case KTuple:
		return "(" + as(0) + ")"
	case KCall:
		if t.I != 0 {
			return fmt.Sprintf("%s#%d(%s)", t.S, t.I, as(0))
		}
		return t.S + "(" + as(0) + ")"
	case KProj:
		return t.A[0].str(d+1) + "·" + strconv.FormatInt(t.I, 10)
	case KLen:
		return "len(" + as(0) + ")"
	case KAt:
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case KSeq:
		return "<" + as(0) + ">"
	case KSElem:
		return t.A[0].str(d + 1)
	case KSChunk:
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + ":+" + t.A[2].str(d+1) + "]"
	case KSFill:
		return t.A[0].str(d+1) + "×" + t.A[1].str(d+1)
	case KSFold:
		return "loop<" + t.S + ">(" + as(0) + ")"
	case KStrOf:
		return "str" + t.A[0].str(d+1)
	case KMap:
		return "map#" + as(0)
	case KCtx:
		return "ctx(" + as(0) + ")"
	case KLoopVar:
		return t.S
	case KMax0:
		return "max0(" + as(0) + ")"
	case KFold:
		return "fold<" + t.S + ">(" + as(0) + ")"
	case KWrap:
		return "wrap(" + as(0) + ")"
	}
	return fmt.Sprintf("k%d", t.K)
}

func shortQ(p *types.Package) string { return p.Name() }
