package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// symArgs makes symbolic arguments for f.
func symArgs(f *ssa.Function) []*Term {
	var as []*Term
	for i, p := range f.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		as = append(as, Sym(n, p.Type()))
	}
	return as
}

func (e *Engine) tryCall(st *State, f *ssa.Function, args []*Term) (outs []Out, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	e.pathCount = 0
	return e.call(st, f, args, nil, nil), nil
}

func debugMain(e *Engine, args []string) {
	if len(args) == 0 {
		survey(e)
		return
	}
	for n := range e.frozen {
		_ = n
	}
	for _, a := range args {
		for f := range e.allFns {
			if !strings.HasSuffix(f.String(), a) {
				continue
			}
			st := e.newState()
			outs, err := e.tryCall(st, f, symArgs(f))
			fmt.Println("==", f, len(outs), err)
			for _, o := range outs {
				fmt.Printf(" kind=%d why=%s vals=%v\n   facts: %s\n", o.kind, o.why, o.vals, o.st.factsString())
				for _, v := range o.vals {
					if v.K == KSlice {
						fmt.Println("   content:", o.st.seqOfSlice(v))
					}
					b, _, _ := splitPtr(v)
					if b.K == KAlloc {
						fmt.Println("   ->", o.st.heap[b].cells)
					}
				}
				for _, ev := range o.st.events {
					fmt.Println("   ev:", ev, e.pos(ev.Pos))
					if ev.Loop != nil {
						fmt.Println(ev.Loop)
					}
				}
			}
		}
	}
}

func survey(e *Engine) {
	var fs []*ssa.Function
	for f := range e.allFns {
		if !e.fnIsExternal(f) && f.Synthetic == "" && len(f.Blocks) > 0 && f.Parent() == nil && !strings.HasSuffix(e.fset.Position(f.Pos()).Filename, "_test.go") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		t0 := time.Now()
		outs, err := e.tryCall(e.newState(), f, symArgs(f))
		np, nx := 0, 0
		for _, o := range outs {
			if o.kind == outPanic {
				np++
			}
			if o.kind == outExit {
				nx++
			}
		}
		fmt.Printf("%-90s outs=%d panics=%d exits=%d %v err=%v\n", strings.ReplaceAll(f.String(), modPath, ""), len(outs), np, nx, time.Since(t0).Round(time.Millisecond), err)
	}
}

func debugProcess(e *Engine, id int64) {
	st, mp := e.processor()
	p := e.newPacket(st, id)
	ctx, _ := e.ctxWithSession(st)
	outs, err := e.tryCall(st, e.needMethod(pProto, "JT808MsgProcessor", "Process"), []*Term{mp, ctx, p.pkt})
	fmt.Println(err, len(outs))
	dumpOuts(e, outs)
}
