package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Variables shared between a goroutine and the function that starts it.
//
// A closure captures variables, not values. Where one is handed to another
// goroutine, every later write of a captured variable by the function that
// started it (the next round of a loop, say) races with the goroutine, and
// decides what it sees. The rule reports a captured variable which, after the
// goroutine was started and with nothing waited for in between, is written on
// one side and used on the other.

// startsAsync: calls of f run (something reached from) their i-th argument in
// another goroutine.
func startsAsync(f *ssa.Function, i int, seen map[*ssa.Parameter]bool) bool {
	if f == nil || i >= len(f.Params) {
		return false
	}
	p := f.Params[i]
	if seen[p] {
		return false
	}
	seen[p] = true
	return len(asyncUses(p, seen)) > 0
}

// asyncUses are the instructions that hand the function value to another
// goroutine.
func asyncUses(v ssa.Value, seen map[*ssa.Parameter]bool) (out []ssa.Instruction) {
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Go:
			out = append(out, x)
		case *ssa.Call:
			cal := x.Call.StaticCallee()
			if cal == nil {
				continue
			}
			if cal.String() == "time.AfterFunc" {
				out = append(out, x)
				continue
			}
			for i, a := range x.Call.Args {
				if a == v && startsAsync(cal, i, seen) {
					out = append(out, x)
				}
			}
		case *ssa.ChangeType:
			out = append(out, asyncUses(x, seen)...)
		case *ssa.MakeInterface:
			out = append(out, asyncUses(x, seen)...)
		case *ssa.MakeClosure:
			if len(asyncUses(x, seen)) > 0 {
				out = append(out, x)
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, r := range *a.Referrers() {
					if mc, ok := r.(*ssa.MakeClosure); ok {
						out = append(out, asyncUses(mc, seen)...)
					}
				}
			}
		}
	}
	return out
}

// cellUses are the reads and writes of the variable v (a cell's address) made
// by the function itself, and by the closures inside it when nested is set.
func cellUses(v ssa.Value, nested bool) (reads, writes []ssa.Instruction) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == v {
				writes = append(writes, x)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				reads = append(reads, x)
			}
		case *ssa.FieldAddr:
			r, w := cellUses(x, nested)
			reads, writes = append(reads, r...), append(writes, w...)
		case *ssa.IndexAddr:
			if x.X == v {
				r, w := cellUses(x, nested)
				reads, writes = append(reads, r...), append(writes, w...)
			}
		case *ssa.MakeClosure:
			if !nested {
				continue
			}
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					r, w := cellUses(fn.FreeVars[i], true)
					reads, writes = append(reads, r...), append(writes, w...)
				}
			}
		}
	}
	return
}

// waits: the instruction may order what follows it after another goroutine.
func waits(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return true
	case *ssa.Call:
		if cal := x.Call.StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg.Pkg.Path() == "sync" {
			return true
		}
		return x.Call.IsInvoke() && x.Call.Method.Name() == "Wait"
	}
	return false
}

// reachesAfter: control can get from just behind one instruction to another
// without making the variable anew and without waiting.
func reachesAfter(from, to ssa.Instruction, stop ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, i int) bool
	scan = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == to {
				return true
			}
			if in == stop || waits(in) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return scan(b, i+1)
		}
	}
	return false
}

// unlocked are the instructions with no lock taken before them (which lock,
// and whether it is the right one, is for the lockset analysis).
func unlocked(ins []ssa.Instruction) (out []ssa.Instruction) {
	for _, in := range ins {
		if !lockedBefore(in) {
			out = append(out, in)
		}
	}
	return
}

func (c *Check) noCapturedRace(rule string, only func(f *ssa.Function) bool) {
	c.guard(rule, "captured variables", "internal/", func() {
		n := 0
		for f := range c.e.allFns {
			if !only(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					fn := mc.Fn.(*ssa.Function)
					for _, g := range asyncUses(mc, map[*ssa.Parameter]bool{}) {
						n++
						inst := shortFn(f.String())
						ok := true
						for i, bd := range mc.Bindings {
							cell, isCell := bd.(*ssa.Alloc)
							if !isCell {
								continue
							}
							gr, gw := cellUses(fn.FreeVars[i], true)
							gr, gw = unlocked(gr), unlocked(gw)
							pr, pw := cellUses(cell, false)
							bad := func(at ssa.Instruction, what string) {
								ok = false
								c.fail(rule, inst, c.at(at.Pos()), "%s %s %q, which the goroutine started at %s uses too, with nothing to order the two", inst, what, cell.Comment, c.at(g.Pos()))
							}
							for _, w := range pw {
								if len(gr)+len(gw) > 0 && reachesAfter(g, w, cell) {
									bad(w, "writes the variable")
								}
							}
							for _, r := range pr {
								if len(gw) > 0 && reachesAfter(g, r, cell) {
									bad(r, "reads the variable")
								}
							}
							if len(gw) > 0 && reachesAfter(g, g, cell) {
								bad(g, "starts several goroutines that write the variable")
							}
						}
						if ok {
							c.pass(rule, inst, c.at(g.Pos()))
						}
					}
				}
			}
		}
		if n == 0 { // goroutines that share no variable with their starter
			c.pass(rule, "captured variables", "internal/")
		}
	})
}
