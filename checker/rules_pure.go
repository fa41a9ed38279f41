package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Types outside the repository whose methods change the receiver and that are
// not safe for concurrent use.
var stateful = []string{
	"bytes.Buffer", "strings.Builder", "bufio.Reader", "bufio.Writer", "bufio.ReadWriter", "bufio.Scanner",
	"golang.org/x/text/encoding.Decoder", "golang.org/x/text/encoding.Encoder",
	"golang.org/x/text/transform.Transformer", "golang.org/x/text/transform.Reader", "golang.org/x/text/transform.Writer",
	"hash.Hash", "hash.Hash32", "hash.Hash64", "math/rand.Rand", "math/rand/v2.Rand",
	"encoding/json.Encoder", "encoding/json.Decoder", "text/tabwriter.Writer", "container/list.List", "container/ring.Ring",
}

func statefulType(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	for _, x := range stateful {
		if s == x {
			return true
		}
	}
	return false
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

// A rootAnalysis says which values may lead to memory owned by a package-level
// variable (through loads, fields, slices, parameters and results).
type rootAnalysis struct {
	e   *Engine
	val map[ssa.Value]*ssa.Global
	fld map[string]*ssa.Global // struct fields that are given such a value
	ret map[*ssa.Function][]*ssa.Global
	fns []*ssa.Function
}

func (e *Engine) rootsOf() *rootAnalysis {
	r := &rootAnalysis{e: e, val: map[ssa.Value]*ssa.Global{}, fld: map[string]*ssa.Global{}, ret: map[*ssa.Function][]*ssa.Global{}}
	for _, pk := range e.sortedPkgs() {
		if e.isRepoPkg(pk.Pkg.Path()) {
			r.fns = append(r.fns, fnsOf(e, pk)...)
		}
	}
	byName := map[string][]*ssa.Function{}
	for _, f := range r.fns {
		if f.Signature.Recv() != nil && len(f.Params) > 0 {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	fieldKey := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || !refLike(fa.Type().Underlying().(*types.Pointer).Elem()) {
			return ""
		}
		return fmt.Sprintf("%s.%d", fa.X.Type(), fa.Field)
	}
	// variables whose address is taken (captured by a closure): their content
	cell := map[ssa.Value]*ssa.Global{}
	for changed := true; changed; {
		changed = false
		fill := func(v ssa.Value, g *ssa.Global) {
			if g != nil && cell[v] == nil {
				cell[v] = g
				changed = true
			}
		}
		set := func(v ssa.Value, g *ssa.Global) {
			if g != nil && r.val[v] == nil {
				r.val[v] = g
				changed = true
			}
		}
		for _, f := range r.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL && refLike(x.Type()) {
							set(x, r.root(x.X))
							set(x, cell[x.X])
							if k := fieldKey(x.X); k != "" {
								set(x, r.fld[k])
							}
						}
					case *ssa.Store:
						switch x.Addr.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
							if refLike(x.Val.Type()) {
								fill(x.Addr, r.root(x.Val))
							}
						}
						if k := fieldKey(x.Addr); k != "" && r.fld[k] == nil {
							if g := r.root(x.Val); g != nil {
								r.fld[k] = g
								changed = true
							}
						}
					case *ssa.FieldAddr:
						set(x, r.root(x.X))
					case *ssa.IndexAddr:
						set(x, r.root(x.X))
					case *ssa.Slice:
						set(x, r.root(x.X))
					case *ssa.Phi:
						for _, ed := range x.Edges {
							set(x, r.root(ed))
						}
					case *ssa.ChangeType:
						set(x, r.root(x.X))
					case *ssa.ChangeInterface:
						set(x, r.root(x.X))
					case *ssa.MakeInterface:
						if refLike(x.X.Type()) {
							set(x, r.root(x.X))
						}
					case *ssa.TypeAssert:
						if !x.CommaOk {
							set(x, r.root(x.X))
						}
					case *ssa.Extract:
						if cl, ok := x.Tuple.(*ssa.Call); ok {
							if cal := cl.Call.StaticCallee(); cal != nil && x.Index < len(r.ret[cal]) && refLike(x.Type()) {
								set(x, r.ret[cal][x.Index])
							}
						}
					case *ssa.MakeClosure:
						fn := x.Fn.(*ssa.Function)
						for i, bd := range x.Bindings {
							if i < len(fn.FreeVars) {
								set(fn.FreeVars[i], r.root(bd))
								fill(fn.FreeVars[i], cell[bd])
								fill(bd, cell[fn.FreeVars[i]])
							}
						}
					case *ssa.Return:
						for i, v := range x.Results {
							if g := r.root(v); g != nil {
								if r.ret[f] == nil {
									r.ret[f] = make([]*ssa.Global, len(x.Results))
								}
								if r.ret[f][i] == nil {
									r.ret[f][i] = g
									changed = true
								}
							}
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						cal := ci.Common().StaticCallee()
						if cl, ok := in.(*ssa.Call); ok && cal != nil && len(r.ret[cal]) == 1 && refLike(cl.Type()) {
							set(cl, r.ret[cal][0])
						}
						if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
							if cl, ok := in.(*ssa.Call); ok {
								set(cl, r.root(ci.Common().Args[0]))
							}
						}
						if cc := ci.Common(); cc.IsInvoke() {
							it, _ := cc.Value.Type().Underlying().(*types.Interface)
							for _, m := range byName[cc.Method.Name()] {
								if it == nil || !types.Implements(m.Params[0].Type(), it) || len(m.Params) != len(cc.Args)+1 {
									continue
								}
								if refLike(m.Params[0].Type()) {
									set(m.Params[0], r.root(cc.Value))
								}
								for i, a := range cc.Args {
									if refLike(m.Params[i+1].Type()) {
										set(m.Params[i+1], r.root(a))
									}
								}
							}
						}
						if cal != nil && len(cal.Blocks) > 0 && cal.Pkg != nil && e.isRepoPkg(cal.Pkg.Pkg.Path()) {
							for i, a := range ci.Common().Args {
								if i < len(cal.Params) && refLike(cal.Params[i].Type()) {
									set(cal.Params[i], r.root(a))
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

func (r *rootAnalysis) root(v ssa.Value) *ssa.Global {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg == nil || !r.e.isRepoPkg(g.Pkg.Pkg.Path()) {
			return nil
		}
		return g
	}
	return r.val[v]
}

// setupOnly: the function runs only while the package is initialised or inside
// a one-time initialisation.
func (r *rootAnalysis) setupOnly() map[*ssa.Function]bool {
	uses := map[*ssa.Function][]*ssa.Function{} // callee -> users
	once := map[*ssa.Function]bool{}
	for _, f := range r.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					if cal := ci.Common().StaticCallee(); cal != nil && (cal.String() == "(*sync.Once).Do" || strings.HasPrefix(cal.String(), "sync.OnceFunc") || strings.HasPrefix(cal.String(), "sync.OnceValue")) {
						a := ci.Common().Args[len(ci.Common().Args)-1]
						if mc, ok := a.(*ssa.MakeClosure); ok {
							a = mc.Fn
						}
						if g, ok := a.(*ssa.Function); ok {
							once[g] = true
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						uses[g] = append(uses[g], f)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						_ = mc
					}
				}
			}
		}
	}
	setup := map[*ssa.Function]bool{}
	for _, f := range r.fns {
		if once[f] || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			setup[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range r.fns {
			if setup[f] || len(uses[f]) == 0 {
				continue
			}
			if f.Object() != nil && f.Object().Exported() {
				continue
			}
			all := true
			for _, u := range uses[f] {
				all = all && setup[u]
			}
			if f.Parent() != nil && setup[f.Parent()] {
				all = true
			}
			if all {
				setup[f] = true
				changed = true
			}
		}
	}
	return setup
}

// locked: some lock is acquired before the instruction on every path to it in
// this function (whether it is the right lock is for the lockset analysis).
func lockedBefore(in ssa.Instruction) bool {
	f := in.Parent()
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			cl, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			cal := cl.Call.StaticCallee()
			if cal == nil || cal.String() != "(*sync.Mutex).Lock" && cal.String() != "(*sync.RWMutex).Lock" {
				continue
			}
			if b == in.Block() {
				for j, y := range b.Instrs {
					if y == in && i < j {
						return true
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

// noSharedScratch: the conversion code of the given packages keeps no working
// state in package-level variables (or in objects reached from them), so that
// what it computes for one connection cannot depend on another one.
func (c *Check) noSharedScratch(rule string, only func(f *ssa.Function) bool) {
	c.guard(rule, "working state", "internal/", func() {
		r := c.e.rootsOf()
		setup := r.setupOnly()
		n := 0
		for _, f := range r.fns {
			if setup[f] || !only(f) {
				continue
			}
			n++
			inst := shortFn(f.String())
			bad := func(in ssa.Instruction, g *ssa.Global, what string) {
				if lockedBefore(in) {
					return
				}
				c.fail(rule, inst, c.at(in.Pos()), "%s %s, which every connection shares through %s, without a lock", inst, what, g.Name())
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if g := r.root(x.Addr); g != nil {
							bad(in, g, "writes memory")
						}
					case *ssa.MapUpdate:
						if g := r.root(x.Map); g != nil {
							bad(in, g, "writes a map")
						}
					case ssa.CallInstruction:
						cc := x.Common()
						if bi, ok := cc.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "append", "copy", "delete", "clear":
								if g := r.root(cc.Args[0]); g != nil {
									bad(in, g, fmt.Sprintf("changes (%s) memory", bi.Name()))
								}
							}
							continue
						}
						if cc.IsInvoke() {
							if g := r.root(cc.Value); g != nil && statefulType(cc.Value.Type()) {
								bad(in, g, fmt.Sprintf("uses a %s", cc.Value.Type()))
							}
							continue
						}
						if cal := cc.StaticCallee(); cal != nil && cal.Signature.Recv() != nil && len(cc.Args) > 0 {
							if g := r.root(cc.Args[0]); g != nil && statefulType(cal.Signature.Recv().Type()) {
								bad(in, g, fmt.Sprintf("uses a %s", cal.Signature.Recv().Type()))
							}
						}
					}
				}
			}
			c.pass(rule, inst, c.fnAt(f))
		}
		c.must(n > 0, rule, "functions", "internal/", "no function analysed")
	})
}

func inPkgs(rels ...string) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil {
			return false
		}
		p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/")
		for _, r := range rels {
			if p == r || strings.HasSuffix(r, "/") && strings.HasPrefix(p, r) {
				return true
			}
		}
		return false
	}
}
