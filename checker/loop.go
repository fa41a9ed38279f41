package main

// Loops: bounded counting loops with known bounds are expanded; every other
// loop is summarised from one generic iteration (widening the header values
// that change, deriving counters, fills and folds in closed form).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := e.loops[f]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: f}
					li.byHeader[s] = l
				}
				// natural loop body
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.loops[f] = li
	return li
}

// inductionCond: the branch compares integers and one side is computed from a header phi.
func (l *loop) inductionCond(x *ssa.If) bool {
	b, ok := x.Cond.(*ssa.BinOp)
	if !ok || !isIntType(b.X.Type()) {
		return false
	}
	var fromPhi func(v ssa.Value, d int) bool
	fromPhi = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Phi:
			return y.Block() == l.header
		case *ssa.BinOp:
			return fromPhi(y.X, d+1) || fromPhi(y.Y, d+1)
		case *ssa.Convert:
			return fromPhi(y.X, d+1)
		}
		return false
	}
	return fromPhi(b.X, 0) || fromPhi(b.Y, 0)
}

// LoopRec describes one summarised loop.
type LoopRec struct {
	e      *Engine
	l      *loop
	entry  item
	phis   []*ssa.Phi
	init   []*Term   // entry values (content form for slices)
	raw    []*Term   // entry values
	vars   []*Term   // generic value: loop variable, or the entry value if invariant
	cells  []cellKey // heap cells the body changes
	cvars  []*Term   // their generic values
	cinit  []*Term
	cfresh []bool
	backs  []LoopBack
	start  *State
	pure   bool
	maps   []*Term
	inst   int64
	N      *Term // trip count when known
}

type LoopBack struct {
	it     item
	next   []*Term // content form
	rawNxt []*Term
	cnext  []*Term
	facts  []*Term
	events []*Event
}

type cellKey struct {
	base *Term
	path string
}

func (e *Engine) execLoop(it item, l *loop) ([]item, []Out) {
	if items, outs, ok := e.tryUnroll(it, l); ok {
		return items, outs
	}
	return e.execLoopGeneric(it, l)
}

func (e *Engine) tryUnroll(it item, l *loop) (items []item, outs []Out, ok bool) {
	st := it.st.clone()
	fr := it.fr.clone()
	cur := []item{{st: st, fr: fr, blk: it.blk, pred: it.pred}}
	for iter := 0; len(cur) > 0; iter++ {
		if e.forceUnroll > 0 {
			if iter > max(e.forceUnroll, 64) || len(cur) > 2000 {
				giveUp("loop in %s does not end within %d iterations on this input", l.fn, e.forceUnroll)
			}
		} else if iter > 700 || len(cur) > 48 || len(items)+len(outs) > 400 {
			return nil, nil, false
		}
		var nxt []item
		for _, c := range cur {
			e.evalPhis(&c)
			c.phid = true
			res := &regionRes{}
			e.runRegion([]item{c}, l, res)
			if len(res.backs) > 0 && !res.decidedExit && e.forceUnroll == 0 {
				return nil, nil, false
			}
			nxt = append(nxt, res.backs...)
			items = append(items, res.exits...)
			outs = append(outs, res.outs...)
		}
		cur = nxt
	}
	return items, outs, true
}

// contentForm gives the address-free value of a loop-carried value.
func contentForm(st *State, v *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return st.seqOfSlice(v)
	}
	return v
}

func (e *Engine) loopVar(inst int64, name string, t types.Type) *Term {
	return mk(Term{K: KLoopVar, S: fmt.Sprintf("%s@%d", name, inst), I: inst, T: t})
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
	}
	return ps
}

func phiVals(e *Engine, it item) []*Term {
	pi := -1
	for i, p := range it.blk.Preds {
		if p == it.pred {
			pi = i
		}
	}
	var vals []*Term
	for _, ph := range headerPhis(it.blk) {
		vals = append(vals, e.val(it.st, it.fr, ph.Edges[pi]))
	}
	return vals
}

// changedCells lists cells of pre-existing objects that differ between a and b.
func changedCells(a, b *State) []cellKey {
	var out []cellKey
	for base, ob := range b.heap {
		oa, ok := a.heap[base]
		if !ok {
			if base.K == KAlloc {
				continue // allocated inside
			}
			for p := range ob.cells {
				out = append(out, cellKey{base, p})
			}
			continue
		}
		if oa == ob {
			continue
		}
		for p, v := range ob.cells {
			if w, ok := oa.cells[p]; !ok || w != v {
				out = append(out, cellKey{base, p})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].base != out[j].base {
			return out[i].base.id < out[j].base.id
		}
		return out[i].path < out[j].path
	})
	return out
}

func (e *Engine) cellVal(st *State, k cellKey, like *Term) *Term {
	if c, ok := st.obj(k.base).cells[k.path]; ok {
		return c
	}
	if like != nil && like.K == KSeq {
		return st.content(k.base, k.path)
	}
	var t types.Type
	if like != nil {
		t = termType(like)
	}
	if st.obj(k.base).fresh {
		if t != nil {
			return zeroOf(t)
		}
		return Nil
	}
	if v := e.frozenInit(k.base, k.path); v != nil {
		return v
	}
	return mk(Term{K: KInit, S: k.path, A: []*Term{k.base}, T: t})
}

func termType(t *Term) types.Type {
	if t.T != nil {
		return t.T
	}
	switch t.K {
	case KInt, KLin, KBits, KTrunc, KXor, KLen:
		return types.Typ[types.Int]
	case KBool, KGe0, KEq0, KEq, KNot:
		return types.Typ[types.Bool]
	case KStr, KStrOf:
		return types.Typ[types.String]
	}
	return nil
}

func (e *Engine) execLoopGeneric(it item, l *loop) ([]item, []Out) {
	inst := e.stamp()
	phis := headerPhis(l.header)
	rec := &LoopRec{e: e, l: l, entry: it, phis: phis, inst: inst}
	entryVals := phiVals(e, it)
	rec.raw = entryVals
	for i, ph := range phis {
		rec.init = append(rec.init, contentForm(it.st, entryVals[i], ph.Type()))
	}
	gen := make([]*Term, len(phis))
	genCell := map[cellKey]*Term{}
	var cellOrder []cellKey
	mono := map[*Term]int64{} // loop var -> +1 (never decreases from init) / -1
	genMaps := map[*Term]bool{}
	var res *regionRes
	var start *State
	for round := 0; ; round++ {
		if round > 12 {
			giveUp("loop in %s does not stabilise", l.fn)
		}
		st := it.st.clone()
		fr := it.fr.clone()
		for i, ph := range phis {
			if gen[i] != nil {
				fr.env[ph] = gen[i]
			} else {
				fr.env[ph] = entryVals[i]
			}
		}
		for _, k := range cellOrder {
			st.wobj(k.base).cells[k.path] = genCell[k]
		}
		for m := range genMaps {
			ms := st.mapState(m)
			ms.fresh = false
			ms.writes = nil
			ms.havoc = int(inst)
		}
		for v, d := range mono {
			for i := range phis {
				if gen[i] == v {
					if d > 0 {
						st.noteLin(Sub(v, entryVals[i]))
					} else {
						st.noteLin(Sub(entryVals[i], v))
					}
				}
			}
		}
		start = st.clone()
		nf0, ne0 := len(st.order), len(st.events)
		res = &regionRes{}
		e.runRegion([]item{{st: st, fr: fr, blk: l.header, pred: it.pred, phid: true}}, l, res)
		changed := false
		rec.backs = nil
		for _, b := range res.backs {
			nv := phiVals(e, b)
			lb := LoopBack{it: b, rawNxt: nv}
			for i, ph := range phis {
				cf := contentForm(b.st, nv[i], ph.Type())
				lb.next = append(lb.next, cf)
				cur := entryVals[i]
				if gen[i] != nil {
					cur = gen[i]
				}
				if nv[i] != cur && gen[i] == nil {
					gen[i] = e.loopVar(inst, phiName(ph, i), ph.Type())
					changed = true
				}
			}
			for _, k := range changedCells(start, b.st) {
				if _, ok := genCell[k]; ok {
					continue
				}
				nvv := b.st.obj(k.base).cells[k.path]
				old := e.cellVal(start, k, nvv)
				if old == nvv {
					continue
				}
				t := termType(nvv)
				if t == nil {
					t = termType(old)
				}
				lv := e.loopVar(inst, fmt.Sprintf("cell%d%s", len(cellOrder), k.path), t)
				if nvv.K == KSeq || (old != nil && old.K == KSeq) {
					n := seqLen(nvv)
					if old.K == KSeq && seqLen(old) == n {
						lv = Seq(SChunk(lv, Int(0), n))
					} else {
						lv = Seq(SChunk(lv, Int(0), LenOf(lv)))
					}
				}
				genCell[k] = lv
				cellOrder = append(cellOrder, k)
				changed = true
			}
			for m, ms := range b.st.maps {
				s0, ok := start.maps[m]
				n0 := 0
				if ok {
					n0 = len(s0.writes)
				} else if m.K == KMap {
					continue // made inside
				}
				if len(ms.writes) != n0 && !genMaps[m] {
					genMaps[m] = true
					changed = true
				}
			}
			lb.facts = append([]*Term{}, b.st.order[min(nf0, len(b.st.order)):]...)
			lb.events = b.st.events[min(ne0, len(b.st.events)):]
			rec.backs = append(rec.backs, lb)
		}
		// monotone integer variables
		for i, ph := range phis {
			if gen[i] == nil || !isIntType(ph.Type()) {
				continue
			}
			up, down := true, true
			for _, b := range rec.backs {
				d := Sub(b.rawNxt[i], gen[i])
				if d.K != KInt {
					r := rangeOf(d, b.it.st)
					if r.lo < 0 {
						up = false
					}
					if r.hi > 0 {
						down = false
					}
					continue
				}
				if d.I < 0 {
					up = false
				}
				if d.I > 0 {
					down = false
				}
			}
			want := int64(0)
			if up {
				want = 1
			} else if down {
				want = -1
			}
			if mono[gen[i]] != want {
				if round > 8 && want != 0 {
					continue
				}
				if want == 0 {
					delete(mono, gen[i])
				} else {
					mono[gen[i]] = want
				}
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	rec.start = start
	for i := range phis {
		if gen[i] != nil {
			rec.vars = append(rec.vars, gen[i])
		} else {
			rec.vars = append(rec.vars, entryVals[i])
		}
	}
	rec.cells = cellOrder
	for _, k := range cellOrder {
		rec.cvars = append(rec.cvars, genCell[k])
		rec.cinit = append(rec.cinit, e.cellVal(it.st, k, genCell[k]))
	}
	rec.pure = true
	for bi := range rec.backs {
		b := &rec.backs[bi]
		for i, k := range cellOrder {
			b.cnext = append(b.cnext, e.cellVal(b.it.st, k, rec.cvars[i]))
		}
		if len(b.events) > 0 {
			rec.pure = false
		}
	}
	if len(genMaps) > 0 {
		rec.pure = false
		for m := range genMaps {
			rec.maps = append(rec.maps, m)
		}
	}
	// place the loop in the effect list of every continuation
	nEv := len(it.st.events)
	addLoop := func(st *State) {
		ev := &Event{Kind: "loop", Loop: rec, Pos: firstPos(l.header), Fn: l.fn.String()}
		ev.Locks, ev.RLock = start.lockLists()
		ev.Epoch = start.epoch
		evs := append([]*Event{}, st.events[:min(nEv, len(st.events))]...)
		evs = append(evs, ev)
		if nEv < len(st.events) {
			evs = append(evs, st.events[nEv:]...)
		}
		st.events = evs
	}
	for i := range res.outs {
		addLoop(res.outs[i].st)
	}
	cf := rec.closedForms()
	var items []item
	for _, x := range res.exits {
		addLoop(x.st)
		if cf != nil && x.pred == l.header {
			rec.applyClosed(&x, cf, len(it.st.order))
		}
		items = append(items, x)
	}
	return items, res.outs
}

func phiName(ph *ssa.Phi, i int) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return fmt.Sprintf("phi%d", i)
}

func firstPos(b *ssa.BasicBlock) (p0 tokenPos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return 0
}

// isVar tells whether t is one of this loop's variables.
func (r *LoopRec) isVar(t *Term) bool { return t.K == KLoopVar && t.I == r.inst }

func (r *LoopRec) mentions(t *Term) bool { return occurs(t, r.isVar) }

// counter returns (step, true) if phi i advances by a constant on every back edge.
func (r *LoopRec) counter(i int) (int64, bool) {
	if !r.isVar(r.vars[i]) || !isIntType(r.phis[i].Type()) || len(r.backs) == 0 {
		return 0, false
	}
	var step int64
	for k, b := range r.backs {
		d := Sub(b.rawNxt[i], r.vars[i])
		if d.K != KInt {
			return 0, false
		}
		if k == 0 {
			step = d.I
		} else if step != d.I {
			return 0, false
		}
	}
	return step, true
}

// headerCond is the condition (as a term over the loop variables) under which
// the loop continues, when the header decides.
func (r *LoopRec) headerCond() *Term {
	h := r.l.header
	x, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	stay0 := r.l.blocks[h.Succs[0]]
	stay1 := r.l.blocks[h.Succs[1]]
	if stay0 == stay1 {
		return nil
	}
	if len(r.backs) == 0 {
		return nil
	}
	c, ok := r.backs[0].it.fr.env[x.Cond]
	if !ok {
		return nil
	}
	if !stay0 {
		c = Not(c)
	}
	return c
}

// closedForms computes, for the normal (header) exit, the final value of
// every loop variable. nil when the trip count is unknown.
func (r *LoopRec) closedForms() map[*Term]*Term {
	c := r.headerCond()
	if c == nil || len(r.backs) == 0 {
		return nil
	}
	// stay condition as linear t >= 0
	var t *Term
	switch {
	case c.K == KGe0:
		t = c.A[0]
	case c.K == KNot && c.A[0].K == KGe0:
		t = linComb(c.A[0].A[0], -1, Int(-1), 1)
	case c.K == KNot && c.A[0].K == KEq0:
		t = nil
	}
	var idx = -1
	var step int64
	if t != nil {
		l := toLin(t)
		for i := range r.phis {
			if cf := l.m[r.vars[i]]; cf != 0 {
				s, ok := r.counter(i)
				if !ok || idx >= 0 {
					return nil
				}
				if cf*s != -1 {
					return nil
				}
				idx, step = i, s
			}
		}
		for a := range l.m {
			if idx >= 0 && a == r.vars[idx] {
				continue
			}
			if r.mentions(a) {
				return nil
			}
		}
		if idx < 0 {
			return nil
		}
		// iterations = max0(t(init)+1)
		t0 := subst(t, map[*Term]*Term{r.vars[idx]: r.init[idx]}, r.entry.st)
		r.N = Max0(AddC(t0, 1), r.entry.st)
	} else {
		// i != n with step 1
		if c.K == KNot && c.A[0].K == KEq0 {
			d := c.A[0].A[0]
			l := toLin(d)
			for i := range r.phis {
				if cf := l.m[r.vars[i]]; cf != 0 {
					s, ok := r.counter(i)
					if !ok || idx >= 0 || abs64(cf) != 1 || abs64(s) != 1 {
						return nil
					}
					idx, step = i, s
					_ = step
				}
			}
			if idx < 0 {
				return nil
			}
			d0 := subst(d, map[*Term]*Term{r.vars[idx]: r.init[idx]}, r.entry.st)
			if l.m[r.vars[idx]]*step > 0 {
				d0 = Scale(d0, -1)
			}
			if r.entry.st.decide(Ge0(d0)) != 1 {
				return nil
			}
			r.N = d0
		} else {
			return nil
		}
	}
	out := map[*Term]*Term{}
	// counters
	canon := map[*Term]*Term{}
	ix := mk(Term{K: KLoopVar, S: "%i", T: types.Typ[types.Int]})
	globalRange[ix] = Iv{0, 1 << 48}
	for i := range r.phis {
		if s, ok := r.counter(i); ok {
			v0 := r.init[i]
			out[r.vars[i]] = Add(v0, Scale(r.N, s))
			canon[r.vars[i]] = Add(v0, Scale(ix, s))
		}
	}
	// accumulators
	type acc struct {
		v, init *Term
		next    []*Term
		t       types.Type
		seq     bool
	}
	var accs []acc
	for i, ph := range r.phis {
		if !r.isVar(r.vars[i]) {
			continue
		}
		if _, ok := out[r.vars[i]]; ok {
			continue
		}
		a := acc{v: r.vars[i], init: r.init[i], t: ph.Type()}
		_, a.seq = ph.Type().Underlying().(*types.Slice)
		for _, b := range r.backs {
			a.next = append(a.next, b.next[i])
		}
		accs = append(accs, a)
	}
	for i := range r.cells {
		v := r.cvars[i]
		a := acc{init: r.cinit[i]}
		for _, b := range r.backs {
			a.next = append(a.next, b.cnext[i])
		}
		if v.K == KSeq {
			a.seq = true
			v = v.A[0].A[0]
		}
		a.v = v
		a.t = v.T
		accs = append(accs, a)
	}
	stayFact := r.headerCond()
	// loop-carried integers other than the counter advancing by constants are done;
	// cells advancing by constants (e.g. an index kept behind a pointer)
	for _, a := range accs {
		if a.seq || a.t == nil || !isIntType(a.t) {
			continue
		}
		step, ok := int64(0), true
		for k, n := range a.next {
			d := Sub(n, a.v)
			if d.K != KInt || (k > 0 && d.I != step) {
				ok = false
				break
			}
			step = d.I
		}
		if ok && len(a.next) > 0 {
			out[a.v] = Add(a.init, Scale(r.N, step))
			canon[a.v] = Add(a.init, Scale(ix, step))
		}
	}
	st := r.entry.st
	for _, a := range accs {
		if _, ok := out[a.v]; ok {
			continue
		}
		// emitted segments per back edge
		isStr := a.t != nil && isStringType(a.t)
		if a.seq || isStr {
			own := seqOfVar(a.v, a.seq)
			ok := true
			var ems []*Term
			for _, n := range a.next {
				q := n
				if isStr {
					q = seqOfStr(n)
				}
				if q.K != KSeq || len(q.A) < len(own.A) || len(own.A) == 0 || q.A[0] != own.A[0] {
					ok = false
					break
				}
				ems = append(ems, Seq(q.A[1:]...))
			}
			if ok {
				ini := a.init
				if isStr {
					ini = seqOfStr(ini)
				}
				fin := Concat(ini, r.foldSeq(ems, canon, stayFact))
				if isStr {
					fin = strOf(fin)
				}
				out[a.v] = fin
				continue
			}
		}
		// xor accumulation
		if a.t != nil && isIntType(a.t) && len(a.next) == 1 && a.next[0].K == KXor {
			rest := Xor(a.t, a.next[0], a.v)
			if !occurs(rest, func(t *Term) bool { return t == a.v }) {
				body := subst(rest, canon, st)
				if !r.mentions(body) {
					out[a.v] = Xor(a.t, a.init, r.foldXor(body, a.t))
					continue
				}
			}
		}
		// anything else: an opaque function of the loop's inputs
		out[a.v] = r.opaqueFinal(a.v, a.init, a.next, canon, stayFact)
	}
	return out
}

func seqOfVar(v *Term, seq bool) *Term {
	return Seq(SChunk(v, Int(0), LenOf(v)))
}

func (r *LoopRec) caseTerms(bodies []*Term, canon map[*Term]*Term, stay *Term) []*Term {
	var cases []*Term
	for k, b := range r.backs {
		var fs []*Term
		for _, f := range b.facts {
			if f == stay {
				continue
			}
			fs = append(fs, subst(f, canon, r.entry.st))
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		cases = append(cases, Tuple(Tuple(fs...), subst(bodies[k], canon, r.entry.st)))
	}
	sort.Slice(cases, func(i, j int) bool { return cases[i].id < cases[j].id })
	return cases
}

var foldRecs = map[*Term]*LoopRec{}

func (r *LoopRec) foldSeq(ems []*Term, canon map[*Term]*Term, stay *Term) *Term {
	// constant, identical emissions of one element
	same := true
	for _, e := range ems {
		if e != ems[0] {
			same = false
		}
	}
	if same && !r.mentions(ems[0]) {
		if len(ems[0].A) == 0 {
			return emptySeq
		}
		if len(ems[0].A) == 1 && ems[0].A[0].K == KSElem && !occurs(ems[0], func(t *Term) bool { return t.K == KCall && t.I > r.inst }) {
			return Seq(SFill(ems[0].A[0].A[0], r.N))
		}
	}
	if same {
		// copying loop: element %i of one source
		b := subst(ems[0], canon, r.entry.st)
		if len(b.A) == 1 && b.A[0].K == KSElem {
			v := b.A[0].A[0]
			if v.K == KAt {
				ix := mk(Term{K: KLoopVar, S: "%i", T: types.Typ[types.Int]})
				off := Sub(v.A[1], ix)
				if !occurs(off, func(t *Term) bool { return t == ix }) && !occurs(v.A[0], func(t *Term) bool { return t == ix }) && !r.mentions(v) {
					if v.A[0].K == KSeq {
						return seqSub(v.A[0], off, r.N, r.entry.st)
					}
					return Seq(SChunk(v.A[0], off, r.N))
				}
			}
		}
	}
	cases := r.caseTerms(ems, canon, stay)
	t := mk(Term{K: KSFold, S: "seq", A: append([]*Term{r.N}, cases...)})
	if r.impure(t) {
		t = mk(Term{K: KSFold, S: "seq", I: r.inst, A: append([]*Term{r.N}, cases...)})
	}
	foldRecs[t] = r
	return Seq(t)
}

func (r *LoopRec) impure(t *Term) bool {
	return occurs(t, func(x *Term) bool { return x.K == KCall && x.I > r.inst || x.K == KAlloc && x.I > r.inst || r.isVar(x) })
}

func (r *LoopRec) foldXor(body *Term, t types.Type) *Term {
	ix := mk(Term{K: KLoopVar, S: "%i", T: types.Typ[types.Int]})
	if body.K == KAt {
		off := Sub(body.A[1], ix)
		if !occurs(off, func(x *Term) bool { return x == ix }) {
			src := body.A[0]
			var q *Term
			if src.K == KSeq {
				q = seqSub(src, off, r.N, r.entry.st)
			} else {
				q = Seq(SChunk(src, off, r.N))
			}
			return XorAll(q, t)
		}
	}
	return mk(Term{K: KFold, S: "xor", A: []*Term{r.N, body}, T: t})
}

// XorAll is the exclusive or of all elements of q.
func XorAll(q *Term, t types.Type) *Term {
	var parts []*Term
	var rest []*Term
	for _, s := range q.A {
		if s.K == KSElem {
			parts = append(parts, s.A[0])
		} else {
			rest = append(rest, s)
		}
	}
	for _, s := range rest {
		parts = append(parts, mk(Term{K: KFold, S: "xorall", A: []*Term{s}, T: byteType}))
	}
	return Xor(t, parts...)
}

func (r *LoopRec) opaqueFinal(v, init *Term, next []*Term, canon map[*Term]*Term, stay *Term) *Term {
	if !r.pure {
		return mk(Term{K: KCall, S: "loopout", I: r.e.stamp(), T: v.T, A: []*Term{v}})
	}
	cases := r.caseTerms(next, canon, stay)
	// name the remaining loop variables canonically
	m := map[*Term]*Term{}
	for i := range r.phis {
		if r.isVar(r.vars[i]) {
			if _, ok := canon[r.vars[i]]; !ok {
				m[r.vars[i]] = mk(Term{K: KLoopVar, S: fmt.Sprintf("%%v%d", len(m)), T: r.vars[i].T})
			}
		}
	}
	for _, c := range r.cvars {
		occurs(c, func(t *Term) bool {
			if r.isVar(t) {
				if _, ok := canon[t]; !ok {
					if _, ok := m[t]; !ok {
						m[t] = mk(Term{K: KLoopVar, S: fmt.Sprintf("%%v%d", len(m)), T: t.T})
					}
				}
			}
			return false
		})
	}
	for i := range cases {
		cases[i] = subst(cases[i], m, r.entry.st)
	}
	t := mk(Term{K: KFold, S: "phi", A: append([]*Term{r.N, init, subst(v, m, nil)}, cases...), T: v.T})
	if r.impure(t) {
		return mk(Term{K: KCall, S: "loopout", I: r.e.stamp(), T: v.T, A: []*Term{v}})
	}
	foldRecs[t] = r
	return t
}

// applyClosed rewrites the state at a header exit with the closed forms.
func (r *LoopRec) applyClosed(x *item, cf map[*Term]*Term, nf int) {
	// slices in the environment: replace by newly allocated stores with the final contents
	st := x.st
	m := map[*Term]*Term{}
	sliceVals := map[*Term]*Term{}
	for v, fin := range cf {
		if v.T != nil {
			if _, ok := v.T.Underlying().(*types.Slice); ok && fin.K == KSeq {
				sliceVals[v] = fin
				continue
			}
		}
		m[v] = fin
	}
	for v, fin := range sliceVals {
		m[v] = st.newSlice(fin)
	}
	// facts about loop variables are only valid inside the loop
	var ord []*Term
	for _, f := range st.order[:min(nf, len(st.order))] {
		ord = append(ord, f)
	}
	for _, f := range st.order[min(nf, len(st.order)):] {
		if r.mentions(f) {
			continue
		}
		ord = append(ord, f)
	}
	for f := range st.facts {
		if r.mentions(f) {
			delete(st.facts, f)
		}
	}
	st.order = ord
	var ls []*Term
	for _, t := range st.lin {
		if !r.mentions(t) {
			ls = append(ls, t)
		}
	}
	st.lin = ls
	for t := range st.rng {
		if r.mentions(t) {
			delete(st.rng, t)
		}
	}
	for k, v := range x.fr.env {
		if r.mentions(v) {
			x.fr.env[k] = substVal(v, m, sliceVals, st)
		}
	}
	for base := range st.heap {
		o := st.heap[base]
		for p, v := range o.cells {
			if r.mentions(v) {
				st.wobj(base).cells[p] = substVal(v, m, sliceVals, st)
			}
		}
	}
	for _, ms := range st.maps {
		for i, w := range ms.writes {
			if w.val != nil && r.mentions(w.val) {
				ms.writes[i].val = substVal(w.val, m, sliceVals, st)
			}
		}
	}
}

func substVal(v *Term, m map[*Term]*Term, sl map[*Term]*Term, st *State) *Term {
	// loop-carried slices appear as themselves, as LenOf, as chunk sources
	if len(sl) > 0 {
		full := map[*Term]*Term{}
		for a, b := range m {
			full[a] = b
		}
		for s, fin := range sl {
			full[LenOf(s)] = seqLen(fin)
			full[SChunk(s, Int(0), LenOf(s))] = fin
			full[mk(Term{K: KBack, A: []*Term{s}})] = splitBase(m[s])
			if v == s {
				return m[s]
			}
		}
		return subst(v, full, st)
	}
	return subst(v, m, st)
}

func splitBase(s *Term) *Term {
	if s.K == KSlice {
		return s.A[0]
	}
	return s
}

// step runs one iteration from given loop-variable values. phis maps the
// loop's variables (LoopRec.vars order) to values; seqs are slice contents.
func (r *LoopRec) step(vals []*Term, cells []*Term, prep func(st *State)) *regionRes {
	e := r.e
	st := r.start.clone()
	fr := r.entry.fr.clone()
	for i, ph := range r.phis {
		v := r.raw[i]
		if vals != nil && vals[i] != nil {
			v = vals[i]
			if v.K == KSeq {
				if _, ok := ph.Type().Underlying().(*types.Slice); ok {
					v = st.newSlice(v)
				}
			}
		}
		fr.env[ph] = v
	}
	for i, k := range r.cells {
		c := r.cinit[i]
		if cells != nil && cells[i] != nil {
			c = cells[i]
		}
		st.wobj(k.base).cells[k.path] = c
	}
	if prep != nil {
		prep(st)
	}
	res := &regionRes{}
	e.runRegion([]item{{st: st, fr: fr, blk: r.l.header, pred: r.entry.pred, phid: true}}, r.l, res)
	return res
}

// nextVals extracts the loop variables' next values (content form) from a back edge.
func (r *LoopRec) nextVals(b item) (vals, cells []*Term) {
	nv := phiVals(r.e, b)
	for i, ph := range r.phis {
		vals = append(vals, contentForm(b.st, nv[i], ph.Type()))
	}
	for i, k := range r.cells {
		cells = append(cells, r.e.cellVal(b.st, k, r.cvars[i]))
	}
	return
}

func (r *LoopRec) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "loop in %s:\n", r.l.fn)
	for i, ph := range r.phis {
		fmt.Fprintf(&b, "  %s: init %s var %s\n", phiName(ph, i), r.init[i], r.vars[i])
	}
	for i, k := range r.cells {
		fmt.Fprintf(&b, "  cell %s%s: init %s var %s\n", k.base, k.path, r.cinit[i], r.cvars[i])
	}
	for _, bk := range r.backs {
		fmt.Fprintf(&b, "  back: %v -> %v | %v\n", bk.facts, bk.next, bk.cnext)
	}
	fmt.Fprintf(&b, "  N=%v\n", r.N)
	return b.String()
}
