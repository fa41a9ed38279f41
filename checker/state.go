package main

// Abstract state: heap cells, path facts, held locks, recorded effects.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Obj struct {
	fresh bool
	cells map[string]*Term
	ver   int64 // >0: contents unknown since this stamp
}

type mapWrite struct {
	key *Term
	val *Term // nil: deleted
}

type MapState struct {
	writes []mapWrite
	fresh  bool // contents fully known (allocated on this path)
	havoc  int  // >0: contents unknown after a loop; distinguishes lookups
}

type Event struct {
	Kind  string // call, mapget, mapset, mapdel, maplen, mapiter, store, lock, unlock, rlock, runlock, go, loop, defer, exit, send, recv
	Name  string // callee / method for call
	Args  []*Term
	Res   *Term
	Pos   token.Pos
	Locks []*Term // write-held locks
	RLock []*Term // read-held locks
	Epoch int     // id of the current critical section (0: none)
	Loop  *LoopRec
	Fn    string     // enclosing function
	NF    int        // number of facts when it happened
	In    bool       // inside a loop body summary
	Once  bool       // inside one-time initialisation
	T     types.Type // store: type of the value
}

type State struct {
	e      *Engine
	heap   map[*Term]*Obj
	own    map[*Term]bool // objects private to this state copy (copy on write)
	facts  map[*Term]bool
	order  []*Term
	lin    []*Term
	rng    map[*Term]Iv
	events []*Event
	locks  map[*Term]int // +n write, read encoded as -1
	epoch  int
	maps   map[*Term]*MapState
	notes  []string
	undec  bool // the incoming body could not be decoded
}

func (e *Engine) newState() *State {
	return &State{e: e, heap: map[*Term]*Obj{}, own: map[*Term]bool{}, facts: map[*Term]bool{}, rng: map[*Term]Iv{}, locks: map[*Term]int{}, maps: map[*Term]*MapState{}}
}

func (s *State) clone() *State {
	n := &State{e: s.e, epoch: s.epoch, undec: s.undec}
	n.heap = make(map[*Term]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.own = map[*Term]bool{}
	s.own = map[*Term]bool{}
	n.facts = make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.order = append([]*Term(nil), s.order...)
	n.lin = append([]*Term(nil), s.lin...)
	n.rng = make(map[*Term]Iv, len(s.rng))
	for k, v := range s.rng {
		n.rng[k] = v
	}
	n.events = append([]*Event(nil), s.events...)
	n.locks = make(map[*Term]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.maps = make(map[*Term]*MapState, len(s.maps))
	for k, v := range s.maps {
		c := *v
		c.writes = append([]mapWrite(nil), v.writes...)
		n.maps[k] = &c
	}
	n.notes = append([]string(nil), s.notes...)
	return n
}

func (s *State) obj(base *Term) *Obj {
	o, ok := s.heap[base]
	if !ok {
		if s.e.initSt != nil && base.K == KAlloc {
			if io, ok := s.e.initSt.heap[base]; ok {
				s.heap[base] = io
				return io
			}
		}
		o = &Obj{cells: map[string]*Term{}}
		s.heap[base] = o
		s.own[base] = true
	}
	return o
}

func (s *State) wobj(base *Term) *Obj {
	o := s.obj(base)
	if !s.own[base] {
		c := &Obj{fresh: o.fresh, ver: o.ver, cells: make(map[string]*Term, len(o.cells)+1)}
		for k, v := range o.cells {
			c.cells[k] = v
		}
		s.heap[base] = c
		s.own[base] = true
		o = c
	}
	return o
}

// ---- facts ----

// decide: 1 true, -1 false, 0 unknown.
func (s *State) decide(c *Term) int {
	switch c.K {
	case KBool:
		if c.I == 1 {
			return 1
		}
		return -1
	case KNot:
		return -s.decide(c.A[0])
	}
	if s == nil {
		return decideIv(c, nil)
	}
	if v, ok := s.facts[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	if d := decideIv(c, s); d != 0 {
		return d
	}
	switch c.K {
	case KGe0:
		return s.decideLin(c.A[0])
	case KEq0:
		t := c.A[0]
		a := s.decideLin(t)
		b := s.decideLin(Scale(t, -1))
		if a == 1 && b == 1 {
			return 1
		}
		if a == -1 || b == -1 {
			return -1
		}
	case KEq:
		x, y := c.A[0], c.A[1]
		if isNil(y) {
			x, y = y, x
		}
		if isNil(x) {
			if s.isNonNil(y) {
				return -1
			}
		}
		// equal to distinct constants
		if x.K == KStr || y.K == KStr {
			if x.K == KStr {
				x, y = y, x
			}
			for f, v := range s.facts {
				if v && f.K == KEq {
					if f.A[0] == x && f.A[1].K == KStr && f.A[1] != y || f.A[1] == x && f.A[0].K == KStr && f.A[0] != y {
						return -1
					}
				}
			}
		}
	case KIs:
		for f, v := range s.facts {
			if v && f.K == KIs && f.A[0] == c.A[0] && !types.Identical(f.T, c.T) {
				if !types.IsInterface(f.T) && !types.IsInterface(c.T) {
					return -1
				}
			}
		}
	}
	return 0
}

func (s *State) isNonNil(t *Term) bool {
	if nonNil(t) {
		return true
	}
	if v, ok := s.facts[mkEqNil(t)]; ok && !v {
		return true
	}
	for f, v := range s.facts {
		if v && f.K == KIs && f.A[0] == t {
			return true
		}
	}
	return false
}

func mkEqNil(t *Term) *Term { return EqOther(t, Nil) }

func (s *State) isNilNow(t *Term) bool {
	if isNil(t) {
		return true
	}
	v, ok := s.facts[mkEqNil(t)]
	return ok && v
}

func decideIv(c *Term, s *State) int {
	switch c.K {
	case KGe0:
		r := rangeOf(c.A[0], s)
		if r.lo >= 0 {
			return 1
		}
		if r.hi < 0 {
			return -1
		}
	case KEq0:
		r := rangeOf(c.A[0], s)
		if r.lo == 0 && r.hi == 0 {
			return 1
		}
		if r.lo > 0 || r.hi < 0 {
			return -1
		}
	}
	return 0
}

// decideLin decides t >= 0 from the recorded linear facts.
func (s *State) decideLin(t *Term) int {
	r := rangeOf(t, s)
	if r.lo >= 0 {
		return 1
	}
	if r.hi < 0 {
		return -1
	}
	neg := linComb(t, -1, Int(-1), 1) // -t-1 >= 0 <=> t < 0
	for pass, g := range []*Term{t, neg} {
		for _, f := range s.lin {
			if !shareAtoms(g, f) {
				continue
			}
			d := Sub(g, f)
			if rangeOf(d, s).lo >= 0 {
				return 1 - 2*pass
			}
		}
	}
	if len(s.lin) <= 60 {
		for pass, g := range []*Term{t, neg} {
			for i, f := range s.lin {
				d := Sub(g, f)
				if !shareAtoms(g, f) {
					continue
				}
				for _, h := range s.lin[i:] {
					if !shareAtoms(d, h) {
						continue
					}
					if rangeOf(Sub(d, h), s).lo >= 0 {
						return 1 - 2*pass
					}
				}
			}
		}
	}
	return 0
}

func shareAtoms(a, b *Term) bool {
	la, lb := toLin(a), toLin(b)
	for x := range la.m {
		if lb.m[x] != 0 {
			return true
		}
	}
	return false
}

func (s *State) assume(c *Term) bool {
	pos := true
	if c.K == KNot {
		pos = false
		c = c.A[0]
	}
	switch d := s.decide(c); {
	case d == 1 && pos, d == -1 && !pos:
		if _, ok := s.facts[c]; !ok && c.K != KBool {
			s.facts[c] = pos
			if pos {
				s.order = append(s.order, c)
			} else {
				s.order = append(s.order, Not(c))
			}
		}
		return true
	case d != 0:
		return false
	}
	s.facts[c] = pos
	if pos {
		s.order = append(s.order, c)
	} else {
		s.order = append(s.order, Not(c))
	}
	switch c.K {
	case KGe0:
		t := c.A[0]
		if !pos {
			t = linComb(t, -1, Int(-1), 1)
		}
		s.addLin(t)
	case KEq0:
		t := c.A[0]
		if pos {
			s.addLin(t)
			s.addLin(Scale(t, -1))
		} else {
			l := toLin(t)
			if len(l.m) == 1 {
				for a, cf := range l.m {
					if l.k%cf == 0 {
						v := -l.k / cf
						r := rangeOf(a, s)
						if r.lo == v {
							r.lo++
							s.rng[a] = r
						} else if r.hi == v {
							r.hi--
							s.rng[a] = r
						}
					}
				}
			} else {
				// t != 0 with t >= 0 known gives t >= 1
				if s.decideLin(t) == 1 {
					s.addLin(AddC(t, -1))
				} else if s.decideLin(Scale(t, -1)) == 1 {
					s.addLin(AddC(Scale(t, -1), -1))
				}
			}
		}
	case KNot:
	}
	return true
}

func (s *State) addLin(t *Term) {
	s.lin = append(s.lin, t)
	l := toLin(t)
	if len(l.m) == 1 {
		for a, c := range l.m {
			r := rangeOf(a, s)
			// c*a + k >= 0
			if c > 0 {
				v := -floorDiv(l.k, c) // a >= ceil(-k/c)
				if v > r.lo {
					r.lo = v
				}
			} else {
				v := floorDiv(l.k, -c)
				if v < r.hi {
					r.hi = v
				}
			}
			s.rng[a] = r
		}
	}
}

// constOf returns the constant value of an integer term under the facts.
func (s *State) constOf(t *Term) (int64, bool) {
	r := rangeOf(t, s)
	if r.lo == r.hi {
		return r.lo, true
	}
	return 0, false
}

// eqProved: a == b follows from the facts.
func (s *State) eqProved(a, b *Term) bool {
	if a == b {
		return true
	}
	if isInt(a) && isInt(b) {
		return s.decide(EqInt(a, b, s)) == 1
	}
	return s.decide(EqOther(a, b)) == 1
}

// ---- pointers ----

func mkPtr(base *Term, codes []int64, idxs []*Term, t types.Type) *Term {
	// flatten
	if base.K == KPtr {
		codes = append(append([]int64{}, base.C...), codes...)
		idxs = append(append([]*Term{}, base.A[1:]...), idxs...)
		base = base.A[0]
	}
	if len(codes) == 0 {
		return base
	}
	var b strings.Builder
	k := 0
	for _, c := range codes {
		if c >= 0 {
			b.WriteString("." + strconv.FormatInt(c, 10))
		} else {
			b.WriteString("[" + idxs[k].String() + "]")
			k++
		}
	}
	return mk(Term{K: KPtr, S: b.String(), C: codes, A: append([]*Term{base}, idxs...), T: t})
}

func splitPtr(p *Term) (base *Term, codes []int64, idxs []*Term) {
	if p.K == KPtr {
		return p.A[0], p.C, p.A[1:]
	}
	return p, nil, nil
}

func FieldPtr(p *Term, i int) *Term    { return mkPtr(p, []int64{int64(i)}, nil, nil) }
func ElemPtr(p *Term, idx *Term) *Term { return mkPtr(p, []int64{-1}, []*Term{idx}, nil) }

func (e *Engine) decomposable(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil || !e.isRepoPkg(n.Obj().Pkg().Path()) {
			// a library's struct is opaque unless its fields can be set by others
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() && n.Obj().Pkg() != nil {
					return st, true
				}
			}
			return nil, false
		}
	}
	return st, true
}

func zeroOf(t types.Type) *Term {
	if theEngine != nil {
		if st, ok := theEngine.decomposable(t); ok {
			fs := make([]*Term, st.NumFields())
			for i := range fs {
				fs[i] = zeroOf(st.Field(i).Type())
			}
			return Struct(t, fs)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrC("")
		case u.Info()&types.IsFloat != 0:
			return mk(Term{K: KFloat, S: "0"})
		}
		return Nil
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Nil
	case *types.Array:
		return Seq(SFill(zeroOf(u.Elem()), Int(u.Len())))
	case *types.Tuple:
		return Nil
	}
	return mk(Term{K: KZero, T: t})
}

func (s *State) loadCell(base *Term, path string, t types.Type) *Term {
	o := s.obj(base)
	if c, ok := o.cells[path]; ok {
		return c
	}
	if st, ok := s.e.decomposable(t); ok {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fs[i] = s.loadCell(base, path+"."+strconv.Itoa(i), st.Field(i).Type())
		}
		return Struct(t, fs)
	}
	if o.fresh {
		return zeroOf(t)
	}
	if v := s.e.frozenInit(base, path); v != nil {
		return v
	}
	if base.K == KGlobal && strings.HasSuffix(base.S, ".init$guard") {
		return False
	}
	if o.ver != 0 {
		if a, ok := t.Underlying().(*types.Array); ok {
			in := mk(Term{K: KInit, S: path, A: []*Term{base}, I: o.ver, T: t})
			return Seq(SChunk(in, Int(0), Int(a.Len())))
		}
		return mk(Term{K: KInit, S: path, A: []*Term{base}, I: o.ver, T: t})
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		in := mk(Term{K: KInit, S: path, A: []*Term{base}, T: t})
		return Seq(SChunk(in, Int(0), Int(a.Len())))
	}
	if base.K == KBack && path == "" {
		src := base.A[0]
		return Seq(SChunk(src, Int(0), LenOf(src)))
	}
	if base.K == KGlobal && path == "" {
		if x := s.e.errGlobal(base); x != nil {
			return x
		}
	}
	if s.e.initHook != nil {
		if v := s.e.initHook(s, base, path, t); v != nil {
			return v
		}
	}
	return mk(Term{K: KInit, S: path, A: []*Term{base}, T: t})
}

// load reads type t through p.
func (s *State) load(p *Term, t types.Type) *Term {
	base, codes, idxs := splitPtr(p)
	path := ""
	k := 0
	for i, c := range codes {
		if c >= 0 {
			path += "." + strconv.FormatInt(c, 10)
			continue
		}
		q := s.content(base, path)
		v := seqAt(q, idxs[k], s)
		k++
		// remaining projections
		for j := i + 1; j < len(codes); j++ {
			if codes[j] < 0 {
				if v.K == KSeq {
					v = seqAt(v, idxs[k], s)
				} else {
					v = At(v, idxs[k], t)
				}
				k++
				continue
			}
			ft := t
			if v.T != nil {
				if st, ok := v.T.Underlying().(*types.Struct); ok && int(codes[j]) < st.NumFields() {
					ft = st.Field(int(codes[j])).Type()
				}
			}
			v = fieldOf(v, int(codes[j]), ft)
		}
		if v.K == KAt && v.T == nil {
			v = At(v.A[0], v.A[1], t)
		}
		return v
	}
	return s.loadCell(base, path, t)
}

// content returns the element sequence stored at (base,path).
func (s *State) content(base *Term, path string) *Term {
	o := s.obj(base)
	if c, ok := o.cells[path]; ok {
		if c.K == KSeq {
			return c
		}
		return Seq(SChunk(c, Int(0), LenOf(c)))
	}
	if base.K == KBack {
		src := base.A[0]
		return Seq(SChunk(src, Int(0), LenOf(src)))
	}
	if o.fresh {
		return emptySeq
	}
	if v := s.e.frozenInit(base, path); v != nil && v.K == KSeq {
		return v
	}
	in := mk(Term{K: KInit, S: path, A: []*Term{base}, I: o.ver})
	return Seq(SChunk(in, Int(0), LenOf(in)))
}

func (s *State) storeCell(base *Term, path string, v *Term, t types.Type) {
	if st, ok := s.e.decomposable(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.storeCell(base, path+"."+strconv.Itoa(i), fieldOf(v, i, ft), ft)
		}
		return
	}
	if !s.e.frozenOK && base.K == KGlobal && path == "" && v.K == KSym && strings.HasPrefix(v.S, "err:") && strings.Contains(v.S, "#") {
		// a sentinel created by the package initialiser
		if x := s.e.errGlobal(base); x != nil {
			v = x
		}
	}
	s.wobj(base).cells[path] = v
}

func (s *State) store(p *Term, v *Term, t types.Type) {
	base, codes, idxs := splitPtr(p)
	path := ""
	for i, c := range codes {
		if c >= 0 {
			path += "." + strconv.FormatInt(c, 10)
			continue
		}
		q := s.content(base, path)
		if i+1 < len(codes) {
			// nested projection inside an element: rebuild the element
			old := seqAt(q, idxs[0], s)
			v = s.updProj(old, codes[i+1:], idxs[1:], v)
		}
		s.wobj(base).cells[path] = seqPut(q, idxs[0], v, s)
		return
	}
	s.storeCell(base, path, v, t)
}

func (s *State) updProj(old *Term, codes []int64, idxs []*Term, v *Term) *Term {
	if len(codes) == 0 {
		return v
	}
	if codes[0] < 0 {
		if old.K == KSeq {
			return seqPut(old, idxs[0], s.updProj(seqAt(old, idxs[0], s), codes[1:], idxs[1:], v), s)
		}
		return s.e.fresh("upd", nil)
	}
	if old.K == KStruct {
		fs := append([]*Term{}, old.A...)
		fs[codes[0]] = s.updProj(fs[codes[0]], codes[1:], idxs, v)
		return Struct(old.T, fs)
	}
	if old.T != nil {
		if st, ok := old.T.Underlying().(*types.Struct); ok {
			fs := make([]*Term, st.NumFields())
			for i := range fs {
				fs[i] = fieldOf(old, i, st.Field(i).Type())
			}
			fs[codes[0]] = s.updProj(fs[codes[0]], codes[1:], idxs, v)
			return Struct(old.T, fs)
		}
	}
	return s.e.fresh("upd", nil)
}

// seqPut replaces element i of q.
func seqPut(q, i, v *Term, st *State) *Term {
	n := seqLen(q)
	pre := seqSub(q, Int(0), i, st)
	post := seqSub(q, AddC(i, 1), Sub(n, AddC(i, 1)), st)
	return Concat(pre, Seq(SElem(v)), post)
}

// ---- slices ----

// desc returns pointer-to-backing, offset, length.
func (s *State) desc(v *Term) (p, off, n *Term) {
	switch v.K {
	case KNil:
		return Nil, Int(0), Int(0)
	case KSlice:
		return v.A[0], v.A[1], v.A[2]
	}
	return mk(Term{K: KBack, A: []*Term{v}}), Int(0), LenOf(v)
}

func mkSlice(p, off, n *Term) *Term {
	if p.K == KBack && off.K == KInt && off.I == 0 && n == LenOf(p.A[0]) {
		return p.A[0]
	}
	return mk(Term{K: KSlice, A: []*Term{p, off, n}})
}

// seqOfSlice returns the element sequence a slice value denotes now.
func (s *State) seqOfSlice(v *Term) *Term {
	if v.K == KNil {
		return emptySeq
	}
	if isStringTerm(v) {
		return seqOfStr(v)
	}
	p, off, n := s.desc(v)
	base, codes, _ := splitPtr(p)
	path := ""
	for _, c := range codes {
		path += "." + strconv.FormatInt(c, 10)
	}
	return seqSub(s.content(base, path), off, n, s)
}

// newSlice allocates a backing store with the given contents.
func (s *State) newSlice(q *Term) *Term {
	a := s.e.alloc("slice")
	o := s.wobj(a)
	o.fresh = true
	o.cells[""] = q
	return mk(Term{K: KSlice, A: []*Term{a, Int(0), seqLen(q)}})
}

// setSlice overwrites the elements a slice value covers.
func (s *State) setSlice(v *Term, off *Term, q *Term) {
	p, o, _ := s.desc(v)
	if isNil(p) {
		return
	}
	base, codes, _ := splitPtr(p)
	path := ""
	for _, c := range codes {
		path += "." + strconv.FormatInt(c, 10)
	}
	cur := s.content(base, path)
	start := Add(o, off)
	n := seqLen(q)
	total := seqLen(cur)
	pre := seqSub(cur, Int(0), start, s)
	post := seqSub(cur, Add(start, n), Sub(total, Add(start, n)), s)
	s.wobj(base).cells[path] = Concat(pre, q, post)
}

// pureArg converts a value to an address-free form for opaque pure calls.
func (s *State) pureArg(v *Term) *Term {
	switch v.K {
	case KSlice:
		return s.seqOfSlice(v)
	case KIface:
		return mk(Term{K: KIface, T: v.T, A: []*Term{s.pureArg(v.A[0])}})
	}
	if v.K != KSeq && v.T != nil {
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			return s.seqOfSlice(v)
		}
	}
	return v
}

// ---- facts printing ----

func (s *State) factsString() string {
	var ss []string
	for _, f := range s.order {
		ss = append(ss, f.String())
	}
	return strings.Join(ss, " && ")
}

func (s *State) lockLists() (w, r []*Term) {
	for t, n := range s.locks {
		if n > 0 {
			w = append(w, t)
		} else if n < 0 {
			r = append(r, t)
		}
	}
	sort.Slice(w, func(i, j int) bool { return w[i].id < w[j].id })
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return
}

func (s *State) emit(ev *Event) *Event {
	ev.Locks, ev.RLock = s.lockLists()
	ev.Epoch = s.epoch
	ev.NF = len(s.order)
	ev.Once = s.e.inOnce > 0
	s.events = append(s.events, ev)
	if s.e.onEvent != nil {
		s.e.onEvent(s, ev)
	}
	return ev
}

func (ev *Event) String() string {
	var ss []string
	for _, a := range ev.Args {
		ss = append(ss, a.String())
	}
	r := ""
	if ev.Res != nil {
		r = " -> " + ev.Res.String()
	}
	return fmt.Sprintf("%s %s(%s)%s", ev.Kind, ev.Name, strings.Join(ss, ", "), r)
}
