package main

import (
	"bytes"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constFold evaluates the pure string and byte-slice functions of the standard
// library on operands the analysis knows to be constant.
func (e *Engine) constFold(st *State, fr *Frame, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
	isB := strings.HasPrefix(name, "bytes.")
	if !isB && !strings.HasPrefix(name, "strings.") || len(args) == 0 {
		return nil, false
	}
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		a := args[i]
		if a.K == KStr {
			return a.S, true
		}
		if a.K == KSlice && isB {
			s := strOf(st.seqOfSlice(a))
			return s.S, s.K == KStr
		}
		return "", false
	}
	a, ok := str(0)
	if !ok {
		return nil, false
	}
	out := func(s string) ([]callRes, bool) {
		if isB {
			return ret1(st, st.newSlice(seqOfStr(StrC(s)))), true
		}
		return ret1(st, StrC(s)), true
	}
	fn := name[strings.Index(name, ".")+1:]
	switch fn {
	case "TrimSpace":
		return out(strings.TrimSpace(a))
	case "TrimFunc", "TrimRightFunc", "TrimLeftFunc":
		pred := func(b byte) (bool, bool) {
			if b >= 0x80 {
				return false, false
			}
			rs := e.invoke(st.clone(), fr, args[1], []*Term{Int(int64(b))}, ci)
			if len(rs) != 1 || rs[0].kind != outRet || rs[0].val != True && rs[0].val != False {
				return false, false
			}
			return rs[0].val == True, true
		}
		lo, hi := 0, len(a)
		for fn != "TrimLeftFunc" && hi > lo {
			y, ok := pred(a[hi-1])
			if !ok {
				return nil, false
			}
			if !y {
				break
			}
			hi--
		}
		for fn != "TrimRightFunc" && lo < hi {
			y, ok := pred(a[lo])
			if !ok {
				return nil, false
			}
			if !y {
				break
			}
			lo++
		}
		return out(a[lo:hi])
	case "IndexByte", "LastIndexByte":
		if args[1].K != KInt {
			return nil, false
		}
		if fn == "IndexByte" {
			return ret1(st, Int(int64(strings.IndexByte(a, byte(args[1].I))))), true
		}
		return ret1(st, Int(int64(strings.LastIndexByte(a, byte(args[1].I))))), true
	}
	var b string
	b, ok = str(1)
	if !ok && len(args) > 1 && args[1].K == KStr {
		b, ok = args[1].S, true
	}
	if !ok {
		return nil, false
	}
	if isB && (fn == "Trim" || fn == "TrimLeft" || fn == "TrimRight") {
		switch fn {
		case "Trim":
			return out(string(bytes.Trim([]byte(a), b)))
		case "TrimLeft":
			return out(string(bytes.TrimLeft([]byte(a), b)))
		}
		return out(string(bytes.TrimRight([]byte(a), b)))
	}
	switch fn {
	case "Trim":
		return out(strings.Trim(a, b))
	case "TrimLeft":
		return out(strings.TrimLeft(a, b))
	case "TrimRight":
		return out(strings.TrimRight(a, b))
	case "TrimPrefix":
		return out(strings.TrimPrefix(a, b))
	case "TrimSuffix":
		return out(strings.TrimSuffix(a, b))
	case "Index":
		return ret1(st, Int(int64(strings.Index(a, b)))), true
	case "LastIndex":
		return ret1(st, Int(int64(strings.LastIndex(a, b)))), true
	case "IndexAny":
		return ret1(st, Int(int64(strings.IndexAny(a, b)))), true
	case "Contains":
		return ret1(st, Bool(strings.Contains(a, b))), true
	case "HasPrefix":
		return ret1(st, Bool(strings.HasPrefix(a, b))), true
	case "HasSuffix":
		return ret1(st, Bool(strings.HasSuffix(a, b))), true
	case "EqualFold":
		return ret1(st, Bool(strings.EqualFold(a, b))), true
	case "Cut":
		if !isB {
			x, y, f := strings.Cut(a, b)
			return ret1(st, Tuple(StrC(x), StrC(y), Bool(f))), true
		}
	case "ReplaceAll":
		if args[2].K == KStr {
			return out(strings.ReplaceAll(a, b, args[2].S))
		}
	}
	return nil, false
}
