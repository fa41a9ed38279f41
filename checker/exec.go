package main

// Path-sensitive forward dataflow over the SSA form. Repository functions are
// analysed in context (their transfer function is recomputed at each call
// site); functions outside the repository are represented by models.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fakeyanss/jt808-server-go"

type Engine struct {
	dir      string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*ssa.Package
	ppkgs    []*packages.Package
	byPath   map[string]*ssa.Package
	allFns   map[*ssa.Function]bool
	seq      int
	loops    map[*ssa.Function]*loopInfo
	initSt   *State
	frozen   map[*ssa.Global]bool
	frozenOK bool

	sortAny      bool // what is sorted came in any order: sorting picks one of them
	assertPanics bool // an unknown type assertion may fail
	execOnce     bool // interpret sync.Once bodies
	seqAtomics   bool // nobody else touches atomic cells (calls analysed one after another)
	interfere    bool // shared maps may change between critical sections
	opaque       map[string]bool
	initHook     func(s *State, base *Term, path string, t types.Type) *Term
	sameEntry    func(m, k *Term, ver int64) (*Term, *Term) // another map and key holding the same entry
	callHook     func(e *Engine, st *State, name string, args []*Term, call ssa.CallInstruction) ([]callRes, bool)
	onEvent      func(s *State, ev *Event)
	concrete     []types.Type
	traceLoads   bool // emit load and appendto events
	inOnce       int
	maxPaths     int
	pathCount    int
	fnSeen       map[*ssa.Function]bool
	pathsTotal   int
	recDepth     map[*ssa.Function]int
	unsupported  map[string]bool
	noLoopGen    bool
	forceUnroll  int // analyse loops iteration by iteration (inputs of known shape)
}

var theEngine *Engine

type undecided struct{ msg string }

func giveUp(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

func loadEngine(dir string) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, er)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{dir: dir, fset: fset, prog: prog, pkgs: sp, ppkgs: ps, byPath: map[string]*ssa.Package{},
		loops: map[*ssa.Function]*loopInfo{}, opaque: map[string]bool{}, maxPaths: 60000, fnSeen: map[*ssa.Function]bool{},
		recDepth: map[*ssa.Function]int{}, unsupported: map[string]bool{}}
	for _, p := range sp {
		if p != nil {
			e.byPath[p.Pkg.Path()] = p
		}
	}
	e.allFns = ssautil.AllFunctions(prog)
	theEngine = e
	e.computeFrozen()
	return e, nil
}

func (e *Engine) isRepoPkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (e *Engine) pkg(rel string) *ssa.Package {
	if rel == "" {
		return e.byPath[modPath]
	}
	return e.byPath[modPath+"/"+rel]
}

// fn finds a package-level function.
func (e *Engine) fn(rel, name string) *ssa.Function {
	p := e.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) typ(rel, name string) types.Type {
	p := e.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// method finds a method on *T or T.
func (e *Engine) method(rel, tname, name string) *ssa.Function {
	t := e.typ(rel, tname)
	if t == nil {
		return nil
	}
	return e.methodOf(types.NewPointer(t), name)
}

func (e *Engine) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) stamp() int64 { e.seq++; return int64(e.seq) }

func (e *Engine) fresh(name string, t types.Type, a ...*Term) *Term {
	return mk(Term{K: KCall, S: name, I: e.stamp(), T: t, A: a})
}

func (e *Engine) alloc(what string) *Term {
	return mk(Term{K: KAlloc, I: e.stamp(), S: ""})
}

func (e *Engine) errGlobal(g *Term) *Term {
	sg, ok := g.P.(*ssa.Global)
	if !ok {
		return nil
	}
	pt := sg.Type().(*types.Pointer).Elem()
	if !types.Identical(pt, types.Universe.Lookup("error").Type()) {
		return nil
	}
	if sg.Pkg != nil && e.isRepoPkg(sg.Pkg.Pkg.Path()) {
		if !e.onlyInitStores(sg) {
			return nil
		}
	}
	return mk(Term{K: KSym, S: "err:" + sg.Pkg.Pkg.Path() + "." + sg.Name(), T: pt})
}

func ErrSentinel(pkgPath, name string) *Term {
	return mk(Term{K: KSym, S: "err:" + pkgPath + "." + name, T: types.Universe.Lookup("error").Type()})
}

// ---- frozen globals ----

func (e *Engine) onlyInitStores(g *ssa.Global) bool {
	for f := range e.allFns {
		isInit := f.Pkg == g.Pkg && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g && !isInit {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) computeFrozen() {
	e.frozen = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	seen := map[*ssa.Global]bool{}
	for f := range e.allFns {
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					seen[g] = true
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g && isInit && x.Val != ssa.Value(g) {
							continue
						}
						bad[g] = true
					case *ssa.UnOp:
						if !isInit && !frozenUse(x) {
							bad[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !isInit && !onlyLoaded(in.(ssa.Value)) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range seen {
		if !bad[g] && g.Pkg != nil && e.isRepoPkg(g.Pkg.Pkg.Path()) && !strings.HasPrefix(g.Name(), "init$") {
			e.frozen[g] = true
		}
	}
	// evaluate the package initialisers
	st := e.newState()
	e.initSt = nil
	for _, p := range e.sortedPkgs() {
		f := p.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(undecided); !ok {
						panic(r)
					}
				}
			}()
			outs := e.call(st.clone(), f, nil, nil, nil)
			for _, o := range outs {
				if o.kind == outRet {
					st = o.st
					break
				}
			}
		}()
	}
	e.initSt = st
	e.frozenOK = true
}

func (e *Engine) sortedPkgs() []*ssa.Package {
	ps := append([]*ssa.Package{}, e.pkgs...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	return ps
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if !frozenUse(r) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// frozenUse: the loaded value is only used in ways that cannot modify what it refers to.
func frozenUse(v *ssa.UnOp) bool {
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Map, *types.Slice, *types.Array, *types.Struct:
		return readOnly(v, map[ssa.Value]bool{})
	case *types.Interface:
		return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
	}
	return false
}

func readOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Index, *ssa.Range, *ssa.Field, *ssa.Lookup:
		case *ssa.IndexAddr:
			if !onlyLoaded(r) {
				return false
			}
		case *ssa.Slice:
			if !readOnly(r, seen) {
				return false
			}
		case *ssa.Phi:
			if !readOnly(r, seen) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() != "len" && b.Name() != "cap" && b.Name() != "append" && b.Name() != "copy" {
					return false
				}
				if (b.Name() == "append" || b.Name() == "copy") && r.Call.Args[0] == v {
					return false
				}
				continue
			}
			f := r.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 || len(f.Params) != len(r.Call.Args) {
				return false
			}
			for i, a := range r.Call.Args {
				if a == v && !readOnly(f.Params[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) frozenInit(base *Term, path string) *Term {
	if e.initSt == nil || base.K != KGlobal {
		return nil
	}
	g := base.P.(*ssa.Global)
	if !e.frozen[g] {
		return nil
	}
	if o, ok := e.initSt.heap[base]; ok {
		if v, ok := o.cells[path]; ok {
			return v
		}
	}
	if path == "" {
		return nil
	}
	return nil
}

func (e *Engine) globalTerm(g *ssa.Global) *Term {
	return mk(Term{K: KGlobal, S: g.Pkg.Pkg.Path() + "." + g.Name(), P: g})
}

// ---- frames ----

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	bind   []*Term
	args   []*Term
	call   ssa.CallInstruction
}

type deferred struct {
	fn   *Term // function term, or nil for builtin / invoke
	args []*Term
	call ssa.CallInstruction
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type outKind int

const (
	outRet outKind = iota
	outPanic
	outExit
)

type Out struct {
	st   *State
	kind outKind
	vals []*Term
	why  string
	pos  token.Pos
}

type item struct {
	st   *State
	fr   *Frame
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
	idx  int
	phid bool // phis of blk already evaluated
}

type callRes struct {
	st   *State
	val  *Term
	kind outKind
	why  string
	pos  token.Pos
}

func FnTerm(f *ssa.Function) *Term { return mk(Term{K: KFunc, S: f.String(), P: f}) }

// call analyses fn in context.
func (e *Engine) call(st *State, fn *ssa.Function, args, bind []*Term, ci ssa.CallInstruction) []Out {
	if len(fn.Blocks) == 0 {
		giveUp("no body: %s", fn)
	}
	if e.recDepth[fn] > 3 {
		giveUp("recursion: %s", fn)
	}
	e.recDepth[fn]++
	defer func() { e.recDepth[fn]-- }()
	e.fnSeen[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, bind: bind, args: args, call: ci}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	res := e.runRegion([]item{{st: st, fr: fr, blk: fn.Blocks[0]}}, nil, nil)
	return res.outs
}

type regionRes struct {
	backs []item // arrived at the loop header again (blk=header, pred=latch)
	exits []item // left the loop
	outs  []Out
	// set while probing whether a loop unrolls
	decidedExit bool
	undecExit   bool
}

// runRegion runs items until they return, panic, or (when lp != nil) reach
// the loop header again or leave the loop.
func (e *Engine) runRegion(work []item, lp *loop, probe *regionRes) *regionRes {
	res := probe
	if res == nil {
		res = &regionRes{}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if e.pathCount++; e.pathCount > e.maxPaths*40 {
			giveUp("too many steps in %s", it.fr.fn)
		}
		if it.idx == 0 && !it.phid {
			if lp != nil {
				if it.blk == lp.header && it.pred != nil && lp.blocks[it.pred] {
					res.backs = append(res.backs, it)
					continue
				}
				if !lp.blocks[it.blk] {
					res.exits = append(res.exits, it)
					continue
				}
			}
			li := e.loopsOf(it.fr.fn)
			if l := li.byHeader[it.blk]; l != nil && l != lp {
				items, outs := e.execLoop(it, l)
				work = append(work, items...)
				res.outs = append(res.outs, outs...)
				continue
			}
			e.evalPhis(&it)
		}
		e.runBlock(it, &work, res, lp)
		if len(work)+len(res.outs)+len(res.exits) > e.maxPaths {
			giveUp("too many paths in %s", it.fr.fn)
		}
	}
	return res
}

func (e *Engine) evalPhis(it *item) {
	if it.pred == nil {
		return
	}
	pi := -1
	for i, p := range it.blk.Preds {
		if p == it.pred {
			pi = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(it.st, it.fr, ph.Edges[pi]))
	}
	for i, ph := range phis {
		it.fr.env[ph] = vals[i]
	}
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch {
	case isBoolType(t):
		return Bool(constant.BoolVal(c.Value))
	case isStringType(t):
		return StrC(constant.StringVal(c.Value))
	case isIntType(t):
		v := constant.ToInt(c.Value)
		if n, ok := constant.Int64Val(v); ok {
			return Int(n)
		}
		if b, ok := constant.Val(v).(*big.Int); ok {
			return mk(Term{K: KSym, S: "big:" + b.String(), T: t})
		}
	case isFloatType(t):
		return mk(Term{K: KFloat, S: constant.ToFloat(c.Value).ExactString()})
	}
	return mk(Term{K: KSym, S: "const:" + c.Value.ExactString(), T: t})
}

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return e.globalTerm(x)
	case *ssa.Function:
		return FnTerm(x)
	case *ssa.Builtin:
		return mk(Term{K: KSym, S: "builtin:" + x.Name()})
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	giveUp("value %s undefined in %s", v.Name(), fr.fn)
	return nil
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, e.dir+"/"); i == 0 {
		f = f[len(e.dir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// derefOK makes sure p can be dereferenced; false: definite nil dereference.
func (e *Engine) derefOK(st *State, p *Term) bool {
	base, _, _ := splitPtr(p)
	if st.isNilNow(base) {
		return false
	}
	if !nonNil(base) && base.K != KBack {
		c := mkEqNil(base)
		if c.K != KBool {
			if _, ok := st.facts[c]; !ok {
				st.facts[c] = false
			}
		}
	}
	return true
}

func (e *Engine) panicOut(it item, why string, pos token.Pos, res *regionRes) {
	st := it.st
	outs := e.unwind(st, it.fr, why, pos)
	res.outs = append(res.outs, outs...)
}

// unwind runs the deferred calls of a panicking frame. Only a recover called
// directly by a deferred function stops the panic.
func (e *Engine) unwind(st *State, fr *Frame, why string, pos token.Pos) []Out {
	type cur struct {
		st  *State
		rec bool
		why string
		pos token.Pos
	}
	var outs []Out
	curs := []cur{{st, false, why, pos}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var nxt []cur
		for _, c := range curs {
			n0 := len(c.st.events)
			for _, r := range e.invoke(c.st, fr, d.fn, d.args, d.call) {
				switch r.kind {
				case outPanic:
					nxt = append(nxt, cur{r.st, false, r.why, r.pos})
					continue
				case outRet:
				default:
					outs = append(outs, Out{st: r.st, kind: r.kind, why: r.why, pos: r.pos})
					continue
				}
				rec := c.rec
				for _, ev := range r.st.events[min(n0, len(r.st.events)):] {
					if ev.Kind == "recover" && (d.fn.K == KFunc || d.fn.K == KClosure) && ev.Fn == d.fn.S {
						rec = true
					}
				}
				nxt = append(nxt, cur{r.st, rec, c.why, c.pos})
			}
		}
		curs = nxt
	}
	for _, c := range curs {
		if !c.rec {
			outs = append(outs, Out{st: c.st, kind: outPanic, why: c.why, pos: c.pos})
			continue
		}
		if fr.fn.Recover != nil {
			f2 := fr.clone()
			f2.defers = nil
			for _, o := range e.runRegion([]item{{st: c.st, fr: f2, blk: fr.fn.Recover}}, nil, nil).outs {
				if o.kind == outRet {
					o.why = "recovered: " + c.why
				}
				outs = append(outs, o)
			}
			continue
		}
		var vals []*Term
		rs := fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, zeroOf(rs.At(i).Type()))
		}
		outs = append(outs, Out{st: c.st, kind: outRet, vals: vals, why: "recovered: " + c.why, pos: c.pos})
	}
	return outs
}

func (e *Engine) runBlock(it item, work *[]item, res *regionRes, lp *loop) {
	st, fr := it.st, it.fr
	for i := it.idx; i < len(it.blk.Instrs); i++ {
		in := it.blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Alloc:
			a := e.alloc("")
			o := st.wobj(a)
			o.fresh = true
			et := x.Type().(*types.Pointer).Elem()
			if _, ok := et.Underlying().(*types.Array); ok {
				o.cells[""] = zeroOf(et)
			}
			fr.env[x] = a
		case *ssa.BinOp:
			fr.env[x] = e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.X.Type(), x.Type())
		case *ssa.UnOp:
			v := e.val(st, fr, x.X)
			switch x.Op {
			case token.MUL:
				if !e.derefOK(st, v) {
					e.panicOut(it, "nil dereference", x.Pos(), res)
					return
				}
				if e.traceLoads {
					if b, _, _ := splitPtr(v); b.K != KAlloc || st.published(b) || globalHolding(st, b) != "" {
						st.emit(&Event{Kind: "load", Args: []*Term{v}, Pos: x.Pos(), Fn: fr.fn.String()})
					}
				}
				fr.env[x] = st.load(v, x.Type())
			case token.NOT:
				fr.env[x] = Not(v)
			case token.SUB:
				if isIntType(x.Type()) {
					fr.env[x] = wrap(Scale(v, -1), x.Type(), st)
				} else {
					fr.env[x] = mk(Term{K: KOp, S: "neg", A: []*Term{v}, T: x.Type()})
				}
			case token.XOR:
				if v.K == KInt {
					fr.env[x] = wrap(Int(^v.I), x.Type(), st)
				} else {
					fr.env[x] = mk(Term{K: KOp, S: "not", A: []*Term{v}, T: x.Type()})
				}
			case token.ARROW:
				r := e.fresh("chanrecv", x.Type(), v)
				st.emit(&Event{Kind: "recv", Args: []*Term{v}, Res: r, Pos: x.Pos(), Fn: fr.fn.String()})
				if x.CommaOk {
					tt := x.Type().(*types.Tuple)
					r = Tuple(proj(r, 0, tt.At(0).Type()), proj(r, 1, tt.At(1).Type()))
				}
				fr.env[x] = r
			}
		case *ssa.ChangeInterface:
			fr.env[x] = e.val(st, fr, x.X)
		case *ssa.ChangeType:
			v := e.val(st, fr, x.X)
			if v.K == KStruct {
				v = Struct(x.Type(), v.A)
			}
			fr.env[x] = v
		case *ssa.Convert:
			fr.env[x] = e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
		case *ssa.MultiConvert:
			fr.env[x] = e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
		case *ssa.MakeInterface:
			fr.env[x] = mk(Term{K: KIface, T: x.X.Type(), A: []*Term{e.val(st, fr, x.X)}})
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			var bs []*Term
			for _, b := range x.Bindings {
				bs = append(bs, e.val(st, fr, b))
			}
			fr.env[x] = mk(Term{K: KClosure, S: f.String(), P: f, A: bs})
		case *ssa.MakeMap:
			a := e.alloc("map")
			m := mk(Term{K: KMap, A: []*Term{a}, T: x.Type()})
			st.maps[m] = &MapState{fresh: true}
			fr.env[x] = m
		case *ssa.MakeChan:
			fr.env[x] = e.alloc("chan")
		case *ssa.MakeSlice:
			n := e.val(st, fr, x.Len)
			el := x.Type().Underlying().(*types.Slice).Elem()
			fr.env[x] = st.newSlice(Seq(SFill(zeroOf(el), n)))
		case *ssa.FieldAddr:
			p := e.val(st, fr, x.X)
			if !e.derefOK(st, p) {
				e.panicOut(it, "nil dereference", x.Pos(), res)
				return
			}
			fr.env[x] = mkPtr(p, []int64{int64(x.Field)}, nil, x.Type())
		case *ssa.Field:
			fr.env[x] = fieldOf(e.val(st, fr, x.X), x.Field, x.Type())
		case *ssa.IndexAddr:
			v := e.val(st, fr, x.X)
			idx := e.val(st, fr, x.Index)
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if !e.derefOK(st, v) {
					e.panicOut(it, "nil dereference", x.Pos(), res)
					return
				}
				n := Int(pt.Elem().Underlying().(*types.Array).Len())
				if !e.inBounds(st, idx, n) {
					e.panicOut(it, "index out of range", x.Pos(), res)
					return
				}
				fr.env[x] = mkPtr(v, []int64{-1}, []*Term{idx}, x.Type())
			} else {
				p, off, n := st.desc(v)
				if !e.inBounds(st, idx, n) {
					e.panicOut(it, "index out of range", x.Pos(), res)
					return
				}
				fr.env[x] = mkPtr(p, []int64{-1}, []*Term{Add(off, idx)}, x.Type())
			}
		case *ssa.Index:
			v := e.val(st, fr, x.X)
			idx := e.val(st, fr, x.Index)
			if isStringTerm(v) || isStringType(x.X.Type()) {
				q := seqOfStr(v)
				if !e.inBounds(st, idx, seqLen(q)) {
					e.panicOut(it, "index out of range", x.Pos(), res)
					return
				}
				fr.env[x] = seqAt(q, idx, st)
			} else if v.K == KSeq {
				fr.env[x] = seqAt(v, idx, st)
			} else {
				fr.env[x] = At(v, idx, x.Type())
			}
		case *ssa.Lookup:
			v := e.val(st, fr, x.X)
			idx := e.val(st, fr, x.Index)
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				q := seqOfStr(v)
				if !e.inBounds(st, idx, seqLen(q)) {
					e.panicOut(it, "index out of range", x.Pos(), res)
					return
				}
				fr.env[x] = seqAt(q, idx, st)
				break
			}
			rs := e.mapLookup(st, v, idx, x, fr)
			e.fork(it, i, x, rs, work, res)
			return
		case *ssa.MapUpdate:
			m := e.val(st, fr, x.Map)
			if st.isNilNow(m) {
				e.panicOut(it, "assignment to nil map", x.Pos(), res)
				return
			}
			e.mapSet(st, m, e.val(st, fr, x.Key), e.val(st, fr, x.Value), x.Pos(), fr.fn.String())
		case *ssa.Range:
			v := e.val(st, fr, x.X)
			r := e.fresh("range", x.Type(), v)
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				st.emit(&Event{Kind: "mapiter", Args: []*Term{v}, Pos: x.Pos(), Fn: fr.fn.String()})
			}
			fr.env[x] = r
		case *ssa.Next:
			r := e.val(st, fr, x.Iter)
			if r.K == KCall && e.forceUnroll > 0 && !x.IsString {
				m, at := r.A[0], 0
				if r.S == "rangeat" {
					at = int(r.A[1].I)
				}
				if kv, ok := e.mapKnown(st, m); ok {
					tt := x.Type().(*types.Tuple)
					if at < len(kv) {
						fr.env[x] = Tuple(True, kv[at].key, kv[at].val)
						fr.env[x.Iter] = Call("rangeat", x.Iter.Type(), m, Int(int64(at+1)))
					} else {
						z := func(i int) *Term {
							if t, ok := tt.At(i).Type().(*types.Basic); ok && t.Kind() == types.Invalid {
								return Nil
							}
							return zeroOf(tt.At(i).Type())
						}
						fr.env[x] = Tuple(False, z(1), z(2))
					}
					break
				}
			}
			n := e.fresh("next", nil, r)
			tt := x.Type().(*types.Tuple)
			k := proj(n, 1, tt.At(1).Type())
			var v *Term
			if r.K == KCall && len(r.A) == 1 && !x.IsString {
				m := r.A[0]
				v = mk(Term{K: KGet, A: []*Term{m, k, Int(0)}, T: tt.At(2).Type()})
				st.emit(&Event{Kind: "mapiter", Args: []*Term{m, k}, Pos: x.Pos(), Fn: fr.fn.String()})
			} else {
				v = proj(n, 2, tt.At(2).Type())
			}
			fr.env[x] = Tuple(proj(n, 0, types.Typ[types.Bool]), k, v)
		case *ssa.Extract:
			t := e.val(st, fr, x.Tuple)
			if t.K == KTuple {
				fr.env[x] = t.A[x.Index]
			} else {
				fr.env[x] = proj(t, x.Index, x.Type())
			}
		case *ssa.Slice:
			if !e.doSlice(it, x, res) {
				return
			}
		case *ssa.SliceToArrayPointer:
			fr.env[x] = e.fresh("slice2arr", x.Type(), e.val(st, fr, x.X))
		case *ssa.Store:
			p := e.val(st, fr, x.Addr)
			v := e.val(st, fr, x.Val)
			if !e.derefOK(st, p) {
				e.panicOut(it, "nil dereference", x.Pos(), res)
				return
			}
			b, _, _ := splitPtr(p)
			if b.K != KAlloc {
				st.emit(&Event{Kind: "store", T: x.Val.Type(), Args: []*Term{p, v}, Pos: x.Pos(), Fn: fr.fn.String()})
			} else if o := st.heap[b]; o != nil && (st.published(b) || e.traceLoads && globalHolding(st, b) != "") {
				st.emit(&Event{Kind: "store", T: x.Val.Type(), Args: []*Term{p, v}, Pos: x.Pos(), Fn: fr.fn.String()})
			}
			st.store(p, v, x.Val.Type())
		case *ssa.TypeAssert:
			rs := e.typeAssert(st, x, e.val(st, fr, x.X))
			e.fork(it, i, x, rs, work, res)
			return
		case *ssa.Call:
			rs := e.doCall(st, fr, x)
			e.fork(it, i, x, rs, work, res)
			return
		case *ssa.Go:
			fnT, args := e.callee(st, fr, x.Common())
			st.emit(&Event{Kind: "go", Args: append([]*Term{fnT}, args...), Pos: x.Pos(), Fn: fr.fn.String()})
		case *ssa.Defer:
			fnT, args := e.callee(st, fr, x.Common())
			fr.defers = append(fr.defers, deferred{fnT, args, x})
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			rs := e.invoke(st, fr, d.fn, d.args, d.call)
			// re-run this instruction until the defers are exhausted
			for k, r := range rs {
				f2 := fr
				if k < len(rs)-1 {
					f2 = fr.clone()
				}
				if r.kind != outRet {
					res.outs = append(res.outs, e.finish(r, f2)...)
					continue
				}
				*work = append(*work, item{st: r.st, fr: f2, blk: it.blk, pred: it.pred, idx: i, phid: true})
			}
			return
		case *ssa.Send:
			st.emit(&Event{Kind: "send", Args: []*Term{e.val(st, fr, x.Chan), e.val(st, fr, x.X)}, Pos: x.Pos(), Fn: fr.fn.String()})
		case *ssa.Select:
			st.emit(&Event{Kind: "select", Pos: x.Pos(), Fn: fr.fn.String()})
			r := e.fresh("select", x.Type())
			tt := x.Type().(*types.Tuple)
			var ts []*Term
			for k := 0; k < tt.Len(); k++ {
				ts = append(ts, proj(r, k, tt.At(k).Type()))
			}
			if len(x.States) == 0 && x.Blocking {
				res.outs = append(res.outs, Out{st: st, kind: outExit, why: "blocks forever", pos: x.Pos()})
				return
			}
			fr.env[x] = Tuple(ts...)
		case *ssa.Panic:
			st.emit(&Event{Kind: "panic", Args: []*Term{e.val(st, fr, x.X)}, Pos: x.Pos(), Fn: fr.fn.String()})
			e.panicOut(it, "panic", x.Pos(), res)
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range x.Results {
				vs = append(vs, e.val(st, fr, r))
			}
			res.outs = append(res.outs, Out{st: st, kind: outRet, vals: vs, pos: x.Pos()})
			return
		case *ssa.Jump:
			*work = append(*work, item{st: st, fr: fr, blk: it.blk.Succs[0], pred: it.blk})
			return
		case *ssa.If:
			c := e.val(st, fr, x.Cond)
			d := st.decide(c)
			isExit := lp != nil && (!lp.blocks[it.blk.Succs[0]] || !lp.blocks[it.blk.Succs[1]])
			if isExit {
				if d != 0 {
					if lp.inductionCond(x) {
						res.decidedExit = true
					}
				} else {
					res.undecExit = true
				}
			}
			switch d {
			case 1:
				*work = append(*work, item{st: st, fr: fr, blk: it.blk.Succs[0], pred: it.blk})
			case -1:
				*work = append(*work, item{st: st, fr: fr, blk: it.blk.Succs[1], pred: it.blk})
			default:
				s2 := st.clone()
				f2 := fr.clone()
				if s2.assume(Not(c)) {
					*work = append(*work, item{st: s2, fr: f2, blk: it.blk.Succs[1], pred: it.blk})
				}
				if st.assume(c) {
					*work = append(*work, item{st: st, fr: fr, blk: it.blk.Succs[0], pred: it.blk})
				}
			}
			return
		default:
			giveUp("instruction %T in %s", in, fr.fn)
		}
	}
}

// published: the object is reachable from shared state on this path.
func (s *State) published(b *Term) bool {
	for _, m := range s.maps {
		if m.fresh {
			continue
		}
		if m.holds(b) {
			return true
		}
	}
	return false
}

// holds: the value was stored in the map on this path and has not been removed
// or replaced since.
func (m *MapState) holds(b *Term) bool {
	for i, w := range m.writes {
		if w.val != b {
			continue
		}
		gone := false
		for _, w2 := range m.writes[i+1:] {
			gone = gone || w2.key == w.key && w2.val != b
		}
		if !gone {
			return true
		}
	}
	return false
}

func (e *Engine) finish(r callRes, fr *Frame) []Out {
	if r.kind == outExit {
		return []Out{{st: r.st, kind: outExit, why: r.why, pos: r.pos}}
	}
	return e.unwind(r.st, fr, r.why, r.pos)
}

// fork continues after instruction i with each call result.
func (e *Engine) fork(it item, i int, x ssa.Value, rs []callRes, work *[]item, res *regionRes) {
	for k, r := range rs {
		f2 := it.fr
		if k < len(rs)-1 {
			f2 = it.fr.clone()
		}
		if r.kind != outRet {
			res.outs = append(res.outs, e.finish(r, f2)...)
			continue
		}
		f2.env[x] = r.val
		*work = append(*work, item{st: r.st, fr: f2, blk: it.blk, pred: it.pred, idx: i + 1, phid: true})
	}
}

func proj(t *Term, i int, ty types.Type) *Term {
	if t.K == KTuple {
		return t.A[i]
	}
	return mk(Term{K: KProj, I: int64(i), A: []*Term{t}, T: ty})
}

func (e *Engine) inBounds(st *State, i, n *Term) bool {
	if st.decide(Ge0(i)) == -1 || st.decide(Ge0(Sub(AddC(n, -1), i))) == -1 {
		return false
	}
	if i.K != KInt || n.K != KInt {
		if st.decide(Ge0(i)) == 0 {
			st.addLin(i)
		}
		if st.decide(Ge0(Sub(AddC(n, -1), i))) == 0 {
			st.addLin(Sub(AddC(n, -1), i))
		}
	}
	return true
}

func (e *Engine) doSlice(it item, x *ssa.Slice, res *regionRes) bool {
	st, fr := it.st, it.fr
	v := e.val(st, fr, x.X)
	lo := Int(0)
	if x.Low != nil {
		lo = e.val(st, fr, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(st, fr, x.High)
	}
	if isStringType(x.X.Type()) {
		q := seqOfStr(v)
		if hi == nil {
			hi = seqLen(q)
		}
		if st.decide(Ge0(Sub(hi, lo))) == -1 || st.decide(Ge0(lo)) == -1 || st.decide(Ge0(Sub(seqLen(q), hi))) == -1 {
			e.panicOut(it, "slice bounds out of range", x.Pos(), res)
			return false
		}
		st.noteLin(Sub(hi, lo))
		st.noteLin(Sub(seqLen(q), hi))
		fr.env[x] = strOf(seqSub(q, lo, Sub(hi, lo), st))
		return true
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = Int(n)
		}
		fr.env[x] = mkSlice(v, lo, Sub(hi, lo))
		return true
	}
	p, off, n := st.desc(v)
	if hi == nil {
		hi = n
	}
	if isNil(p) {
		fr.env[x] = Nil
		return true
	}
	if st.decide(Ge0(Sub(hi, lo))) == -1 || st.decide(Ge0(lo)) == -1 {
		e.panicOut(it, "slice bounds out of range", x.Pos(), res)
		return false
	}
	// fresh stores have exactly the capacity we track
	base, codes, _ := splitPtr(p)
	if base.K == KBack || (base.K == KAlloc && len(codes) == 0) {
		total := seqLen(st.content(base, ""))
		if base.K == KBack || x.Max == nil {
			if st.decide(Ge0(Sub(total, Add(off, hi)))) == -1 && base.K == KBack {
				e.panicOut(it, "slice bounds out of range", x.Pos(), res)
				return false
			}
			st.noteLin(Sub(hi, lo))
			st.noteLin(lo)
			st.noteLin(Sub(total, Add(off, hi)))
		}
	}
	fr.env[x] = mkSlice(p, Add(off, lo), Sub(hi, lo))
	if x.Max != nil || v.K == KSlice && len(v.A) == 4 {
		// the capacity is limited: appending writes in place up to there
		var end *Term
		if x.Max != nil {
			end = Add(off, e.val(st, fr, x.Max))
		} else {
			end = v.A[3]
		}
		fr.env[x] = mk(Term{K: KSlice, A: []*Term{p, Add(off, lo), Sub(hi, lo), end}})
	}
	return true
}

func (s *State) noteLin(t *Term) {
	if t.K == KInt {
		return
	}
	if s.decide(Ge0(t)) == 0 {
		s.addLin(t)
	}
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if isIntType(from) && isIntType(to) {
		if v.K == KOp || v.K == KCall {
			return wrap(v, to, st)
		}
		return wrap(v, to, st)
	}
	if isIntType(from) && isFloatType(to) {
		if v.K == KInt && !(isFloat32(to) && (v.I > 1<<24 || v.I < -1<<24)) {
			return mk(Term{K: KFloat, S: strconv.FormatInt(v.I, 10)})
		}
		if isFloat32(to) {
			if iv := rangeOf(v, st); iv.lo >= -1<<24 && iv.hi <= 1<<24 {
				return mk(Term{K: KOp, S: "i2f", A: []*Term{v}, T: to})
			}
			return mk(Term{K: KOp, S: "i2f32", A: []*Term{v}, T: to})
		}
		return mk(Term{K: KOp, S: "i2f", A: []*Term{v}, T: to})
	}
	if isFloatType(from) && isIntType(to) {
		return mk(Term{K: KOp, S: "f2i" + types.TypeString(tu, nil), A: []*Term{v}, T: to})
	}
	if isFloatType(from) && isFloatType(to) {
		if isFloat32(to) && !isFloat32(from) {
			return mk(Term{K: KOp, S: "f32", A: []*Term{v}, T: to})
		}
		return v
	}
	if isStringType(from) {
		if sl, ok := tu.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return st.newSlice(seqOfStr(v))
			}
			return st.newSlice(Seq(SChunk(Call("runes", to, v), Int(0), LenOf(Call("runes", to, v)))))
		}
		return v
	}
	if isStringType(to) {
		if sl, ok := fu.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return strOf(st.seqOfSlice(v))
			}
			return Call("runes2str", to, st.pureArg(v))
		}
		if isIntType(from) {
			if v.K == KInt && v.I <= 0x10ffff && v.I >= 0 {
				return StrC(string(rune(v.I)))
			}
			return Call("rune2str", to, v)
		}
		return v
	}
	return v
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	if isIntType(xt) {
		switch op {
		case token.ADD:
			if a.K == KBits || b.K == KBits {
				if r := orBits(a, b, st); r != nil && rangeOf(r, st).hi <= typeIv(rt).hi {
					return r
				}
			}
			return wrap(Add(a, b), rt, st)
		case token.SUB:
			return wrap(Sub(a, b), rt, st)
		case token.MUL:
			if a.K == KInt {
				a, b = b, a
			}
			if b.K == KInt {
				return wrap(Scale(a, b.I), rt, st)
			}
			return e.op("mul", rt, a, b)
		case token.QUO:
			if a.K == KInt && b.K == KInt && b.I != 0 {
				return Int(a.I / b.I)
			}
			if b.K == KInt && b.I > 0 && b.I&(b.I-1) == 0 && rangeOf(a, st).lo >= 0 {
				sh := int64(0)
				for 1<<uint(sh) < b.I {
					sh++
				}
				if r := shiftBits(a, -sh, 64, st); r != nil {
					return r
				}
			}
			if q, _, ok := splitDiv(st, a, b); ok {
				return q
			}
			return e.op("div", rt, a, b)
		case token.REM:
			if a.K == KInt && b.K == KInt && b.I != 0 {
				return Int(a.I % b.I)
			}
			if b.K == KInt && b.I > 0 {
				r := rangeOf(a, st)
				if r.lo >= 0 && r.hi < b.I {
					return a
				}
				if r.lo >= 0 && b.I&(b.I-1) == 0 {
					if x := andMask(a, uint64(b.I-1), st); x != nil {
						return x
					}
				}
			}
			if _, r, ok := splitDiv(st, a, b); ok {
				return r
			}
			return e.op("rem", rt, a, b)
		case token.AND:
			if a.K == KInt {
				a, b = b, a
			}
			if a.K == KInt && b.K == KInt {
				return Int(a.I & b.I)
			}
			if b.K == KInt && b.I >= 0 {
				if r := andMask(a, uint64(b.I), st); r != nil {
					return r
				}
			}
			return e.opComm("and", rt, a, b)
		case token.OR:
			if a.K == KInt && b.K == KInt {
				return Int(a.I | b.I)
			}
			if r := orBits(a, b, st); r != nil {
				return r
			}
			return e.opComm("or", rt, a, b)
		case token.XOR:
			return Xor(rt, a, b)
		case token.AND_NOT:
			if b.K == KInt {
				w, _ := intWidth(rt)
				m := ^uint64(0)
				if w < 64 {
					m = 1<<uint(w) - 1
				}
				if r := andMask(a, m&^uint64(b.I), st); r != nil {
					return r
				}
			}
			return e.op("andnot", rt, a, b)
		case token.SHL:
			if b.K == KInt {
				if a.K == KInt {
					return wrap(Int(a.I<<uint(b.I)), rt, st)
				}
				w, _ := intWidth(rt)
				if r := shiftBits(a, b.I, int64(w), st); r != nil {
					return r
				}
			}
			if a.K == KInt && a.I == 1 && b.K == KInt {
				return Int(1 << uint(b.I))
			}
			return e.op("shl", rt, a, b)
		case token.SHR:
			if b.K == KInt {
				if a.K == KInt {
					return Int(a.I >> uint(b.I))
				}
				if r := shiftBits(a, -b.I, 64, st); r != nil {
					return r
				}
			}
			return e.op("shr", rt, a, b)
		case token.EQL:
			return EqInt(a, b, st)
		case token.NEQ:
			return Not(EqInt(a, b, st))
		case token.LSS:
			return Ge0(AddC(Sub(b, a), -1))
		case token.LEQ:
			return Ge0(Sub(b, a))
		case token.GTR:
			return Ge0(AddC(Sub(a, b), -1))
		case token.GEQ:
			return Ge0(Sub(a, b))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var c *Term
		switch {
		case isBoolType(xt):
			switch {
			case b.K == KBool:
				c = a
				if b.I == 0 {
					c = Not(a)
				}
			case a.K == KBool:
				c = b
				if a.I == 0 {
					c = Not(b)
				}
			default:
				c = EqOther(a, b)
			}
		case isStringType(xt):
			c = eqStr(a, b, st)
		default:
			c = e.eqVal(st, a, b)
		}
		if op == token.NEQ {
			c = Not(c)
		}
		return c
	case token.ADD:
		if isStringType(xt) {
			return strOf(Concat(seqOfStr(a), seqOfStr(b)))
		}
		return e.opComm("fadd"+f32suffix(rt), rt, a, b)
	case token.MUL:
		return e.opComm("fmul"+f32suffix(rt), rt, a, b)
	case token.SUB:
		return e.op("fsub"+f32suffix(rt), rt, a, b)
	case token.QUO:
		return e.op("fdiv"+f32suffix(rt), rt, a, b)
	case token.LSS:
		return e.op("lt", rt, a, b)
	case token.GTR:
		return e.op("lt", rt, b, a)
	case token.LEQ:
		return Not(e.op("lt", rt, b, a))
	case token.GEQ:
		return Not(e.op("lt", rt, a, b))
	}
	return e.op(op.String(), rt, a, b)
}

func eqStr(a, b *Term, st *State) *Term {
	// comparison with "" is a length test
	if a.K == KStr && a.S == "" {
		a, b = b, a
	}
	if b.K == KStr && b.S == "" {
		return EqInt(LenOf(a), Int(0), st)
	}
	return EqOther(a, b)
}

func (e *Engine) eqVal(st *State, a, b *Term) *Term {
	// nil comparison of slices
	if isNil(b) || isNil(a) {
		x := a
		if isNil(a) {
			x = b
		}
		if x.K == KSlice {
			return False
		}
	}
	if a.K == KStruct && b.K == KStruct && len(a.A) == len(b.A) {
		all := True
		for i := range a.A {
			var c *Term
			if isInt(a.A[i]) {
				c = EqInt(a.A[i], b.A[i], st)
			} else {
				c = e.eqVal(st, a.A[i], b.A[i])
			}
			if c == True {
				continue
			}
			if c == False {
				return False
			}
			if all != True {
				return EqOther(a, b)
			}
			all = c
		}
		return all
	}
	return EqOther(a, b)
}

func (e *Engine) op(s string, t types.Type, a ...*Term) *Term {
	return mk(Term{K: KOp, S: s, A: a, T: t})
}
func (e *Engine) opComm(s string, t types.Type, a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{K: KOp, S: s, A: []*Term{a, b}, T: t})
}

// ---- type assertions ----

func (e *Engine) typeAssert(st *State, x *ssa.TypeAssert, v *Term) []callRes {
	mkRes := func(s *State, ok bool) callRes {
		var r *Term
		if ok {
			if types.IsInterface(x.AssertedType) {
				r = v
			} else if v.K == KIface {
				r = v.A[0]
			} else {
				r = mk(Term{K: KUnbox, T: x.AssertedType, A: []*Term{v}})
			}
		} else {
			r = zeroOf(x.AssertedType)
		}
		if x.CommaOk {
			return callRes{st: s, val: Tuple(r, Bool(ok))}
		}
		if !ok {
			return callRes{st: s, kind: outPanic, why: "type assertion fails", pos: x.Pos()}
		}
		return callRes{st: s, val: r}
	}
	if st.isNilNow(v) {
		return []callRes{mkRes(st, false)}
	}
	if v.K == KIface {
		var ok bool
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.T, it)
		} else {
			ok = types.Identical(v.T, x.AssertedType)
		}
		return []callRes{mkRes(st, ok)}
	}
	c := mk(Term{K: KIs, A: []*Term{v}, T: x.AssertedType})
	switch st.decide(c) {
	case 1:
		return []callRes{mkRes(st, true)}
	case -1:
		return []callRes{mkRes(st, false)}
	}
	if !x.CommaOk && st.e.assertPanics {
		s2 := st.clone()
		s2.assume(Not(c))
		st.assume(c)
		return []callRes{mkRes(s2, false), mkRes(st, true)}
	}
	if !x.CommaOk {
		st.assume(c) // the failing case ends the goroutine; see the panic-containment rules
		return []callRes{mkRes(st, true)}
	}
	s2 := st.clone()
	s2.assume(Not(c))
	st.assume(c)
	return []callRes{mkRes(s2, false), mkRes(st, true)}
}

// ---- maps ----

func (s *State) mapState(m *Term) *MapState {
	ms, ok := s.maps[m]
	if !ok {
		if s.e.initSt != nil {
			if im, ok := s.e.initSt.maps[m]; ok {
				c := *im
				c.writes = append([]mapWrite(nil), im.writes...)
				s.maps[m] = &c
				return &c
			}
		}
		ms = &MapState{}
		s.maps[m] = ms
	}
	return ms
}

// mapKnown lists the contents of a map when they are fully known; the order
// is one of the possible iteration orders.
func (e *Engine) mapKnown(st *State, m *Term) ([]mapWrite, bool) {
	ms := st.mapState(m)
	if !ms.fresh || ms.havoc > 0 {
		return nil, false
	}
	var out []mapWrite
	for _, w := range ms.writes {
		at := -1
		for i := range out {
			switch st.decide(e.eqKey(st, w.key, out[i].key)) {
			case 1:
				at = i
			case 0:
				return nil, false
			}
		}
		switch {
		case w.val == nil && at >= 0:
			out = append(out[:at:at], out[at+1:]...)
		case w.val == nil:
		case at >= 0:
			out[at].val = w.val
		default:
			out = append(out, w)
		}
	}
	return out, true
}

func (e *Engine) eqKey(st *State, a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return EqInt(a, b, st)
	}
	if isStringTerm(a) || isStringTerm(b) {
		return eqStr(a, b, st)
	}
	return e.eqVal(st, a, b)
}

func (e *Engine) mapSet(st *State, m, k, v *Term, pos token.Pos, fn string) {
	ms := st.mapState(m)
	if !ms.fresh {
		st.emit(&Event{Kind: "mapset", Args: []*Term{m, k, v}, Pos: pos, Fn: fn})
	}
	ms.writes = append(ms.writes, mapWrite{k, v})
}

func (e *Engine) mapDel(st *State, m, k *Term, pos token.Pos, fn string) {
	ms := st.mapState(m)
	if !ms.fresh {
		st.emit(&Event{Kind: "mapdel", Args: []*Term{m, k}, Pos: pos, Fn: fn})
	}
	ms.writes = append(ms.writes, mapWrite{k, nil})
}

func (e *Engine) mapLookup(st *State, m, k *Term, x *ssa.Lookup, fr *Frame) []callRes {
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	mkRes := func(s *State, v *Term) callRes {
		ok := v != nil
		if !ok {
			v = zeroOf(vt)
		}
		if x.CommaOk {
			return callRes{st: s, val: Tuple(v, Bool(ok))}
		}
		return callRes{st: s, val: v}
	}
	if st.isNilNow(m) {
		return []callRes{mkRes(st, nil)}
	}
	ms := st.mapState(m)
	if !ms.fresh {
		st.emit(&Event{Kind: "mapget", Args: []*Term{m, k}, Pos: x.Pos(), Fn: fr.fn.String()})
	}
	var out []callRes
	cur := st
	for i := len(ms.writes) - 1; i >= 0; i-- {
		w := ms.writes[i]
		c := e.eqKey(cur, k, w.key)
		switch cur.decide(c) {
		case 1:
			return append(out, mkRes(cur, w.val))
		case -1:
			continue
		}
		s2 := cur.clone()
		if s2.assume(c) {
			out = append(out, mkRes(s2, w.val))
		}
		if !cur.assume(Not(c)) {
			return out
		}
	}
	if ms.fresh {
		return append(out, mkRes(cur, nil))
	}
	ep := 0
	if e.interfere {
		ep = cur.epoch
	}
	ep = ep*1000 + ms.havoc
	if e.sameEntry != nil {
		m, k = e.sameEntry(m, k, int64(ep))
	}
	has := mk(Term{K: KHas, A: []*Term{m, k, Int(int64(ep))}})
	got := mk(Term{K: KGet, A: []*Term{m, k, Int(int64(ep))}, T: vt})
	switch cur.decide(has) {
	case 1:
		return append(out, mkRes(cur, got))
	case -1:
		return append(out, mkRes(cur, nil))
	}
	s2 := cur.clone()
	s2.assume(Not(has))
	out = append(out, mkRes(s2, nil))
	cur.assume(has)
	if _, isPtr := vt.Underlying().(*types.Pointer); isPtr {
		cur.facts[mkEqNil(got)] = false // registries never hold nil (checked by the registry rules)
	}
	return append(out, mkRes(cur, got))
}

// ---- calls ----

func (e *Engine) callee(st *State, fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	if c.IsInvoke() {
		recv := e.val(st, fr, c.Value)
		return mk(Term{K: KSym, S: "method:" + c.Method.FullName(), P: c.Method}), append([]*Term{recv}, args...)
	}
	return e.val(st, fr, c.Value), args
}

func (e *Engine) doCall(st *State, fr *Frame, x *ssa.Call) []callRes {
	fnT, args := e.callee(st, fr, x.Common())
	return e.invoke(st, fr, fnT, args, x)
}

func (e *Engine) resolveInvoke(st *State, m *types.Func, recv *Term) (*ssa.Function, *Term) {
	v := recv
	var dyn types.Type
	if v.K == KIface {
		dyn = v.T
		v = v.A[0]
	} else {
		for f, b := range st.facts {
			if b && f.K == KIs && f.A[0] == recv && !types.IsInterface(f.T) {
				dyn = f.T
				v = mk(Term{K: KUnbox, T: f.T, A: []*Term{recv}})
			}
		}
	}
	if dyn == nil {
		return nil, nil
	}
	sel := e.prog.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil, nil
	}
	return e.prog.MethodValue(sel), v
}

func (e *Engine) invoke(st *State, fr *Frame, fnT *Term, args []*Term, ci ssa.CallInstruction) []callRes {
	switch fnT.K {
	case KFunc, KClosure:
		f := fnT.P.(*ssa.Function)
		return e.callResolved(st, fr, f, args, fnT.A, ci)
	case KSym:
		if strings.HasPrefix(fnT.S, "builtin:") {
			return e.builtin(st, fr, fnT.S[8:], args, ci)
		}
		if strings.HasPrefix(fnT.S, "method:") {
			m := fnT.P.(*types.Func)
			if st.isNilNow(args[0]) {
				return []callRes{{st: st, kind: outPanic, why: "nil interface method call " + m.Name(), pos: ci.Pos()}}
			}
			if f, v := e.resolveInvoke(st, m, args[0]); f != nil {
				return e.callResolved(st, fr, f, append([]*Term{v}, args[1:]...), nil, ci)
			}
			return e.external(st, fr, m.FullName(), args, ci, m.Type().(*types.Signature))
		}
	case KNil:
		return []callRes{{st: st, kind: outPanic, why: "call of nil function", pos: ci.Pos()}}
	}
	if st.isNilNow(fnT) {
		return []callRes{{st: st, kind: outPanic, why: "call of nil function", pos: ci.Pos()}}
	}
	sig, _ := ci.Common().Value.Type().Underlying().(*types.Signature)
	return e.external(st, fr, "dyn:"+fnT.String(), args, ci, sig)
}

func (e *Engine) callResolved(st *State, fr *Frame, f *ssa.Function, args, bind []*Term, ci ssa.CallInstruction) []callRes {
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if e.callHook != nil {
		if rs, ok := e.callHook(e, st, name, args, ci); ok {
			return rs
		}
	}
	if len(f.Blocks) == 0 || e.opaque[name] {
		return e.external(st, fr, name, args, ci, f.Signature)
	}
	if e.fnIsExternal(f) {
		return e.external(st, fr, name, args, ci, f.Signature)
	}
	outs := e.call(st, f, args, bind, ci)
	rs := make([]callRes, 0, len(outs))
	for _, o := range outs {
		r := callRes{st: o.st, kind: o.kind, why: o.why, pos: o.pos}
		if o.kind == outRet {
			switch len(o.vals) {
			case 0:
				r.val = Nil
			case 1:
				r.val = o.vals[0]
			default:
				r.val = Tuple(o.vals...)
			}
		}
		rs = append(rs, r)
	}
	return rs
}

func (e *Engine) fnIsExternal(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return false // synthetic wrapper
	}
	return !e.isRepoPkg(p.Pkg.Path())
}

// f32suffix: single-precision arithmetic rounds differently.
func f32suffix(t types.Type) string {
	if isFloatType(t) && isFloat32(t) {
		return "32"
	}
	return ""
}
