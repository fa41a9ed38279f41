package main

// Models of the language's builtins and of the functions outside the
// repository. A function without a model is either a pure function of its
// arguments (a fixed list of value-only packages) or an effect with an
// unknown result.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

var errType = types.Universe.Lookup("error").Type()

const pathContent = ".77"

func ret1(st *State, v *Term) []callRes { return []callRes{{st: st, val: v}} }

func (e *Engine) freshErr(what string) *Term {
	return mk(Term{K: KSym, S: "err:" + what + "#" + strconv.FormatInt(e.stamp(), 10), T: errType})
}

// resultOf builds a result value for a signature from an opaque call term.
func resultOf(c *Term, sig *types.Signature) *Term {
	if sig == nil || sig.Results().Len() == 0 {
		return Nil
	}
	rs := sig.Results()
	if rs.Len() == 1 {
		return c
	}
	var ts []*Term
	for i := 0; i < rs.Len(); i++ {
		ts = append(ts, proj(c, i, rs.At(i).Type()))
	}
	return Tuple(ts...)
}

func sigType(sig *types.Signature) types.Type {
	if sig == nil || sig.Results().Len() == 0 {
		return nil
	}
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// ---- builtins ----

func (e *Engine) builtin(st *State, fr *Frame, name string, args []*Term, ci ssa.CallInstruction) []callRes {
	var t0 types.Type
	if len(ci.Common().Args) > 0 {
		t0 = ci.Common().Args[0].Type()
	}
	switch name {
	case "len", "cap":
		v := args[0]
		if t0 != nil {
			switch u := t0.Underlying().(type) {
			case *types.Map:
				st.emit(&Event{Kind: "maplen", Args: []*Term{v}, Pos: ci.Pos(), Fn: fr.fn.String()})
				ms := st.mapState(v)
				if ms.fresh && len(ms.writes) == 0 {
					return ret1(st, Int(0))
				}
				if n, ok := ms.constLen(); ok {
					return ret1(st, Int(n))
				}
				r := e.fresh("maplen", types.Typ[types.Int], v)
				st.rng[r] = Iv{0, 1 << 48}
				return ret1(st, r)
			case *types.Chan:
				return ret1(st, e.fresh("chanlen", types.Typ[types.Int], v))
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					return ret1(st, Int(a.Len()))
				}
			case *types.Array:
				return ret1(st, Int(u.Len()))
			}
			if isStringType(t0) {
				return ret1(st, seqLen(seqOfStr(v)))
			}
		}
		if name == "cap" && v.K != KNil {
			r := e.fresh("cap", types.Typ[types.Int], v)
			_, _, n := st.desc(v)
			st.noteLin(Sub(r, n))
			return ret1(st, r)
		}
		_, _, n := st.desc(v)
		return ret1(st, n)
	case "append":
		if len(args) == 1 {
			return ret1(st, args[0])
		}
		a := st.seqOfSlice(args[0])
		b := st.seqOfSlice(args[1])
		if e.traceLoads && args[0].K != KNil {
			if p0, _, _ := st.desc(args[0]); p0 != nil {
				if bb, _, _ := splitPtr(p0); bb.K != KAlloc || st.published(bb) {
					st.emit(&Event{Kind: "appendto", Args: []*Term{bb}, Pos: ci.Pos(), Fn: fr.fn.String()})
				}
			}
		}
		if len(b.A) == 0 {
			return ret1(st, args[0])
		}
		// what lies behind the slice in its backing store is overwritten
		if v := args[0]; v.K == KSlice {
			if base, codes, _ := splitPtr(v.A[0]); (base.K == KAlloc || base.K == KBack) && len(codes) == 0 {
				end := Add(v.A[1], v.A[2])
				if st.decide(Ge0(Sub(Sub(seqLen(st.content(base, "")), end), seqLen(b)))) == 1 && (len(v.A) == 3 || st.decide(Ge0(Sub(Sub(v.A[3], end), seqLen(b)))) == 1) {
					if base.K != KAlloc {
						st.emit(&Event{Kind: "store", Args: []*Term{base, b}, Pos: ci.Pos(), Fn: fr.fn.String()})
					}
					st.setSlice(v, v.A[2], b)
					return ret1(st, mk(Term{K: KSlice, A: append([]*Term{v.A[0], v.A[1], Add(v.A[2], seqLen(b))}, v.A[3:]...)}))
				}
			}
		}
		return ret1(st, st.newSlice(Concat(a, b)))
	case "copy":
		src := st.seqOfSlice(args[1])
		_, _, dn := st.desc(args[0])
		sn := seqLen(src)
		doCopy := func(s *State, n *Term) callRes {
			b, _, _ := splitPtr(first(s.desc(args[0])))
			if b.K != KAlloc {
				s.emit(&Event{Kind: "store", Args: []*Term{b, src}, Pos: ci.Pos(), Fn: fr.fn.String()})
			}
			s.setSlice(args[0], Int(0), seqSub(src, Int(0), n, s))
			return callRes{st: s, val: n}
		}
		c := Ge0(Sub(dn, sn))
		switch st.decide(c) {
		case 1:
			return []callRes{doCopy(st, sn)}
		case -1:
			return []callRes{doCopy(st, dn)}
		}
		s2 := st.clone()
		s2.assume(Not(c))
		st.assume(c)
		return []callRes{doCopy(s2, dn), doCopy(st, sn)}
	case "delete":
		if !st.isNilNow(args[0]) {
			e.mapDel(st, args[0], args[1], ci.Pos(), fr.fn.String())
		}
		return ret1(st, Nil)
	case "panic":
		return []callRes{{st: st, kind: outPanic, why: "panic", pos: ci.Pos()}}
	case "recover":
		st.emit(&Event{Kind: "recover", Pos: ci.Pos(), Fn: fr.fn.String()})
		return ret1(st, e.fresh("recovered", types.NewInterfaceType(nil, nil)))
	case "close":
		st.emit(&Event{Kind: "close", Args: args, Pos: ci.Pos(), Fn: fr.fn.String()})
		return ret1(st, Nil)
	case "min", "max":
		a := args[0]
		for _, b := range args[1:] {
			if !isIntType(t0) {
				a = e.opComm(name, t0, a, b)
				continue
			}
			d := st.decide(Ge0(Sub(a, b)))
			if d == 0 {
				// fork lazily: a symbolic min/max
				s2 := st.clone()
				s2.assume(Not(Ge0(Sub(a, b))))
				st.assume(Ge0(Sub(a, b)))
				if len(args) == 2 {
					lo, hi := b, a
					if name == "max" {
						return []callRes{{st: s2, val: b}, {st: st, val: a}}
					}
					_ = hi
					return []callRes{{st: s2, val: a}, {st: st, val: lo}}
				}
				a = e.fresh(name, t0, args...)
				continue
			}
			if (d == 1) == (name == "min") {
				a = b
			}
		}
		return ret1(st, a)
	case "clear":
		st.emit(&Event{Kind: "clear", Args: args, Pos: ci.Pos(), Fn: fr.fn.String()})
		if _, ok := t0.Underlying().(*types.Map); ok {
			ms := st.mapState(args[0])
			ms.writes = nil
			ms.fresh = true
		}
		return ret1(st, Nil)
	case "print", "println":
		return ret1(st, Nil)
	case "ssa:wrapnilchk":
		if st.isNilNow(args[0]) {
			return []callRes{{st: st, kind: outPanic, why: "nil dereference", pos: ci.Pos()}}
		}
		return ret1(st, args[0])
	}
	giveUp("builtin %s", name)
	return nil
}

func first(a, b, c *Term) *Term { return a }

// havocPtr forgets what a pointer argument refers to.
func (e *Engine) havocPtr(st *State, v *Term) {
	if v.K == KIface {
		v = v.A[0]
	}
	switch v.K {
	case KAlloc:
		o := st.wobj(v)
		if _, isMark := o.cells[pathContent]; isMark {
			return
		}
		st.heap[v] = &Obj{ver: e.stamp(), cells: map[string]*Term{}}
		st.own[v] = true
	case KSlice:
		b, _, _ := splitPtr(v.A[0])
		if b.K == KAlloc {
			n := seqLen(st.content(b, ""))
			c := e.fresh("havoc", nil)
			st.wobj(b).cells[""] = Seq(SChunk(c, Int(0), n))
		}
	}
}

// ---- external functions ----

var purePkgs = []string{"strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "bytes", "encoding/hex", "encoding/json", "encoding/binary",
	"golang.org/x/text/transform", "golang.org/x/text/encoding", "golang.org/x/text/encoding/simplifiedchinese", "path", "path/filepath", "fmt", "time",
	"reflect", "net/url", "net/netip", "encoding", "hash", "hash/fnv", "hash/crc32", "encoding/base64", "crypto/md5", "crypto/sha1", "crypto/sha256", "slices", "cmp", "github.com/fakeyanss/gron", "html", "github.com/cn/GB2260.go"}

var impureNames = map[string]bool{"time.Now": true, "time.Sleep": true, "time.After": true, "time.NewTimer": true, "time.NewTicker": true, "time.Tick": true, "time.AfterFunc": true,
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"encoding/json.Unmarshal": true, "encoding/binary.Read": true, "encoding/binary.Write": true}

// pkgOf extracts the package path from a function's full name.
func pkgOf(name string) string {
	s := name
	if strings.HasPrefix(s, "(") {
		s = strings.TrimPrefix(s, "(")
		s = strings.TrimPrefix(s, "*")
		if i := strings.Index(s, ")"); i >= 0 {
			s = s[:i]
		}
	}
	i := strings.LastIndex(s, "/")
	j := strings.Index(s[i+1:], ".")
	if j < 0 {
		return s
	}
	return s[:i+1+j]
}

func isPure(name string) bool {
	if impureNames[name] {
		return false
	}
	p := pkgOf(name)
	if p == "github.com/fakeyanss/gron" {
		return strings.HasSuffix(name, ".Every") || strings.HasSuffix(name, ").At")
	}
	for _, q := range purePkgs {
		if p == q {
			return true
		}
	}
	return false
}

func (e *Engine) external(st *State, fr *Frame, name string, args []*Term, ci ssa.CallInstruction, sig *types.Signature) []callRes {
	pos := token.NoPos
	if ci != nil {
		pos = ci.Pos()
	}
	if e.callHook != nil {
		if rs, ok := e.callHook(e, st, name, args, ci); ok {
			return rs
		}
	}
	if strings.HasSuffix(name, ".init") {
		return ret1(st, Nil)
	}
	fnName := ""
	if fr != nil {
		fnName = fr.fn.String()
	}
	ev := func(kind string, as []*Term, res *Term) {
		st.emit(&Event{Kind: kind, Name: name, Args: as, Res: res, Pos: pos, Fn: fnName})
	}
	if rs, ok := e.modelBinary(st, name, args); ok {
		return rs
	}
	if rs, ok := e.modelTime(st, name, args); ok {
		return rs
	}
	if rs, ok := e.constFold(st, fr, name, args, ci); ok {
		return rs
	}
	if name == "time.AfterFunc" {
		st.emit(&Event{Kind: "go", Name: name, Args: args[1:2], Pos: pos, Fn: fnName})
	}
	short := name
	switch {
	case strings.HasPrefix(name, "github.com/rs/zerolog") || strings.HasPrefix(name, "(*github.com/rs/zerolog") || strings.HasPrefix(name, "(github.com/rs/zerolog"):
		m := name[strings.LastIndex(name, ".")+1:]
		if m == "Fatal" {
			return ret1(st, Sym("nn:zerolog.fatal", sigType(sig)))
		}
		if m == "Panic" {
			return ret1(st, Sym("nn:zerolog.panic", sigType(sig)))
		}
		if len(args) > 0 && args[0].K == KSym && strings.HasPrefix(args[0].S, "nn:zerolog.") {
			if m == "Msg" || m == "Msgf" || m == "Send" {
				if args[0].S == "nn:zerolog.fatal" {
					ev("exit", args, nil)
					return []callRes{{st: st, kind: outExit, why: "log.Fatal", pos: pos}}
				}
				if args[0].S == "nn:zerolog.panic" {
					return []callRes{{st: st, kind: outPanic, why: "log.Panic", pos: pos}}
				}
			}
			if m != "Msg" && m != "Msgf" && m != "Send" {
				return ret1(st, args[0])
			}
			return ret1(st, Nil)
		}
		if sig == nil || sig.Results().Len() == 0 {
			return ret1(st, Nil)
		}
		if sig.Results().Len() == 1 {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				return ret1(st, Sym("nn:zerolog.ev", sigType(sig)))
			}
		}
		return ret1(st, resultOf(Call(short, sigType(sig)), sig))
	}
	if rs, ok := modelDigits(st, name, args); ok {
		return rs
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		ev("exit", args, nil)
		return []callRes{{st: st, kind: outExit, why: name, pos: pos}}
	case "log.Panic", "log.Panicf":
		return []callRes{{st: st, kind: outPanic, why: name, pos: pos}}

	// errors
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return ret1(st, e.freshErr("new"))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
		er := args[0]
		c := mkEqNil(er)
		switch st.decide(c) {
		case 1:
			return ret1(st, Nil)
		case -1:
			return ret1(st, mk(Term{K: KWrap, A: []*Term{er}, T: errType}))
		}
		s2 := st.clone()
		s2.assume(c)
		st.assume(Not(c))
		return []callRes{{st: s2, val: Nil}, {st: st, val: mk(Term{K: KWrap, A: []*Term{er}, T: errType})}}
	case "fmt.Errorf":
		if args[0].K == KStr && strings.Contains(args[0].S, "%w") && len(args) > 1 {
			q := st.seqOfSlice(args[1])
			for i := len(q.A) - 1; i >= 0; i-- {
				if q.A[i].K == KSElem {
					v := q.A[i].A[0]
					if errAtom(v) || v.K == KWrap || v.T != nil && types.Identical(v.T, errType) {
						return ret1(st, mk(Term{K: KWrap, A: []*Term{v}, T: errType}))
					}
				}
			}
		}
		return ret1(st, e.freshErr("new"))
	case "errors.Is", "github.com/pkg/errors.Is":
		return ret1(st, e.errIs(st, args[0], args[1]))
	case "errors.Unwrap", "github.com/pkg/errors.Unwrap":
		if args[0].K == KWrap {
			return ret1(st, args[0].A[0])
		}
		return ret1(st, Call(name, errType, args...))
	case "github.com/pkg/errors.Cause":
		v := args[0]
		for v.K == KWrap {
			v = v.A[0]
		}
		if errAtom(v) || isNil(v) {
			return ret1(st, v)
		}
		return ret1(st, Call(name, errType, v))
	case "(error).Error":
		return ret1(st, Call(name, types.Typ[types.String], args...))

	// locks
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return e.lock(st, args[0], true, pos, fnName, "lock")
	case "(*sync.RWMutex).RLock":
		return e.lock(st, args[0], false, pos, fnName, "rlock")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return e.unlock(st, args[0], true, pos, fnName)
	case "(*sync.RWMutex).RUnlock":
		return e.unlock(st, args[0], false, pos, fnName)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		s2 := st.clone()
		rs := e.lock(st, args[0], true, pos, fnName, "lock")
		rs[0].val = True
		return append(rs, callRes{st: s2, val: False})
	case "(*sync.Once).Do":
		if e.execOnce {
			e.inOnce++
			defer func() { e.inOnce-- }()
			return e.invoke(st, fr, args[1], nil, ci)
		}
		return ret1(st, Nil)
	case "(*sync.Pool).Get":
		// what New makes, with whatever the last user left in it
		if mk := e.poolNew(args[0]); mk != nil {
			rs := e.invoke(st, fr, FnTerm(mk), nil, ci)
			for _, r := range rs {
				if r.kind == outRet && r.val != nil && r.val.K == KIface && r.val.A[0].K == KSlice {
					e.havocPtr(r.st, r.val)
				}
			}
			return rs
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		ev("call", args, nil)
		return ret1(st, Nil)

	// contexts
	case "context.Background", "context.TODO":
		return ret1(st, mk(Term{K: KCtx, S: "bg"}))
	case "context.WithValue":
		return ret1(st, mk(Term{K: KCtx, A: args}))
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline":
		return ret1(st, Tuple(args[0], e.fresh("cancel", sig.Results().At(1).Type())))
	case "(context.Context).Value":
		c := args[0]
		for c.K == KCtx {
			if c.S == "bg" {
				return ret1(st, Nil)
			}
			eq := EqOther(c.A[1], args[1])
			if eq == True {
				return ret1(st, c.A[2])
			}
			if eq != False {
				return ret1(st, e.fresh("ctxval", sigType(sig), args...))
			}
			c = c.A[0]
		}
		return ret1(st, Call("ctxval", sigType(sig), c, args[1]))
	case "(context.Context).Err", "(context.Context).Done":
		return ret1(st, e.fresh(name, sigType(sig), args...))

	// strings.Builder and bytes.Buffer
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		e.bufAppend(st, args[0], Seq(SElem(args[1])))
		return ret1(st, Nil)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		q := seqOfStr(args[1])
		e.bufAppend(st, args[0], q)
		return ret1(st, Tuple(seqLen(q), Nil))
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		q := st.seqOfSlice(args[1])
		e.bufAppend(st, args[0], q)
		return ret1(st, Tuple(seqLen(q), Nil))
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if args[1].K == KInt {
			e.bufAppend(st, args[0], seqOfStr(StrC(string(rune(args[1].I)))))
		} else {
			e.bufAppend(st, args[0], seqOfStr(Call("rune2str", types.Typ[types.String], args[1])))
		}
		return ret1(st, Tuple(Int(1), Nil))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return ret1(st, strOf(e.bufContent(st, args[0])))
	case "(*bytes.Buffer).Bytes":
		return ret1(st, st.newSlice(e.bufContent(st, args[0])))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return ret1(st, seqLen(e.bufContent(st, args[0])))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret1(st, Nil)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		e.bufSet(st, args[0], emptySeq)
		return ret1(st, Nil)
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader":
		a := e.alloc("")
		o := st.wobj(a)
		o.fresh = true
		o.cells[pathContent] = st.seqOfSlice(args[0])
		return ret1(st, a)

	// formatting
	case "fmt.Sprintf":
		return ret1(st, e.sprintf(st, args))
	case "fmt.Fprintf", "fmt.Fprint":
		if w := args[0]; w.K == KIface {
			switch w.T.String() {
			case "*strings.Builder", "*bytes.Buffer":
				if name == "fmt.Fprintf" {
					q := seqOfStr(e.sprintf(st, args[1:]))
					e.bufAppend(st, w.A[0], q)
					return ret1(st, Tuple(seqLen(q), Nil))
				}
			}
		}
	case "fmt.Appendf":
		q := seqOfStr(e.sprintf(st, args[1:]))
		return ret1(st, st.newSlice(Concat(st.seqOfSlice(args[0]), q)))
	case "strconv.Itoa":
		if args[0].K == KInt {
			return ret1(st, StrC(strconv.FormatInt(args[0].I, 10)))
		}
		return ret1(st, Call("itoa", types.Typ[types.String], args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1].K == KInt && args[1].I == 10 {
			if args[0].K == KInt {
				return ret1(st, StrC(strconv.FormatInt(args[0].I, 10)))
			}
			return ret1(st, Call("itoa", types.Typ[types.String], args[0]))
		}
		if args[0].K == KInt && args[1].K == KInt && args[1].I >= 2 && args[1].I <= 36 {
			if name == "strconv.FormatUint" {
				return ret1(st, StrC(strconv.FormatUint(uint64(args[0].I), int(args[1].I))))
			}
			return ret1(st, StrC(strconv.FormatInt(args[0].I, int(args[1].I))))
		}
	case "strings.Repeat":
		if args[0].K == KStr && len(args[0].S) == 1 {
			return ret1(st, strOf(Seq(SFill(Int(int64(args[0].S[0])), args[1]))))
		}
	case "bytes.Repeat":
		q := st.seqOfSlice(args[0])
		if len(q.A) == 1 && q.A[0].K == KSElem {
			return ret1(st, st.newSlice(Seq(SFill(q.A[0].A[0], args[1]))))
		}
	case "bytes.Equal":
		a, b := st.pureArg(args[0]), st.pureArg(args[1])
		if a == b {
			return ret1(st, True)
		}
		return ret1(st, EqOther(a, b))
	case "strings.Compare":
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		if args[0].K == KStr && args[1].K == KStr {
			var r bool
			switch name {
			case "strings.HasPrefix":
				r = strings.HasPrefix(args[0].S, args[1].S)
			case "strings.HasSuffix":
				r = strings.HasSuffix(args[0].S, args[1].S)
			default:
				r = strings.Contains(args[0].S, args[1].S)
			}
			return ret1(st, Bool(r))
		}
	case "strings.Join":
		q := st.seqOfSlice(args[0])
		out := emptySeq
		ok := true
		for i, s := range q.A {
			if s.K != KSElem {
				ok = false
				break
			}
			if i > 0 {
				out = Concat(out, seqOfStr(args[1]))
			}
			out = Concat(out, seqOfStr(s.A[0]))
		}
		if ok {
			return ret1(st, strOf(out))
		}
	case "bytes.ReplaceAll", "bytes.Replace", "strings.ReplaceAll", "strings.Replace", "bytes.IndexByte", "bytes.Index", "bytes.Contains":
		if rs, ok := e.byteSearch(st, name, args); ok {
			return rs
		}
	case "strings.Clone":
		return ret1(st, args[0])
	case "net.JoinHostPort":
		if args[0].K == KStr && !strings.ContainsAny(args[0].S, ":%") {
			return ret1(st, strOf(Concat(seqOfStr(args[0]), seqOfStr(StrC(":")), seqOfStr(args[1]))))
		}
	case "bytes.Clone", "slices.Clone":
		return ret1(st, st.newSlice(st.seqOfSlice(args[0])))

	// reading and writing
	case "(*bufio.Reader).Read", "(io.Reader).Read", "(net.Conn).Read", "(*net.TCPConn).Read":
		return e.modelRead(st, name, args, pos, fnName, false)
	case "io.ReadFull":
		return e.modelRead(st, name, args, pos, fnName, true)
	case "(*bufio.Reader).ReadByte", "(io.ByteReader).ReadByte":
		s2 := st.clone()
		s2.emit(&Event{Kind: "read", Name: name, Args: []*Term{args[0], emptySeq}, Pos: pos, Fn: fnName})
		er := e.freshErr("read")
		d := e.fresh("rd", types.NewSlice(byteType))
		b := At(d, Int(0), byteType)
		st.emit(&Event{Kind: "read", Name: name, Args: []*Term{args[0], Seq(SElem(b))}, Pos: pos, Fn: fnName})
		return []callRes{{st: s2, val: Tuple(Int(0), er)}, {st: st, val: Tuple(b, Nil)}}
	case "(io.Writer).Write", "(net.Conn).Write", "(*bufio.Writer).Write", "(*net.TCPConn).Write":
		if a := args[0]; a.K == KAlloc {
			if o := st.heap[a]; o != nil {
				if c, ok := o.cells[pathContent]; ok && c.K == KSeq {
					q := st.seqOfSlice(args[1])
					e.bufAppend(st, a, q)
					return ret1(st, Tuple(seqLen(q), Nil))
				}
			}
		}
		q := st.seqOfSlice(args[1])
		s2 := st.clone()
		er := e.freshErr("write")
		n := e.fresh("written", types.Typ[types.Int])
		s2.rng[n] = Iv{0, 1 << 48}
		s2.noteLin(Sub(seqLen(q), n))
		s2.emit(&Event{Kind: "write", Name: name, Args: []*Term{args[0], q, er}, Pos: pos, Fn: fnName})
		st.emit(&Event{Kind: "write", Name: name, Args: []*Term{args[0], q, Nil}, Pos: pos, Fn: fnName})
		return []callRes{{st: s2, val: Tuple(n, er)}, {st: st, val: Tuple(seqLen(q), Nil)}}
	case "hash/fnv.New32a", "hash/fnv.New32", "hash/fnv.New64a", "hash/fnv.New64":
		a := e.alloc("")
		o := st.wobj(a)
		o.fresh = true
		o.cells[pathContent] = emptySeq
		o.cells[".78"] = StrC(name)
		return ret1(st, a)
	case "(hash.Hash32).Sum32", "(hash.Hash64).Sum64":
		if a := args[0]; a.K == KAlloc {
			if o := st.heap[a]; o != nil {
				return ret1(st, Call("hashsum", sigType(sig), o.cells[".78"], o.cells[pathContent]))
			}
		}

	case "golang.org/x/exp/maps.Values", "golang.org/x/exp/maps.Keys", "maps.Values", "maps.Keys":
		st.emit(&Event{Kind: "mapiter", Args: args, Pos: pos, Fn: fnName})
		if e.forceUnroll > 0 && strings.HasPrefix(name, "golang.org") {
			if kv, ok := e.mapKnown(st, args[0]); ok {
				var el []*Term
				for _, w := range kv {
					v := w.val
					if strings.HasSuffix(name, "Keys") {
						v = w.key
					}
					el = append(el, SElem(v))
				}
				return ret1(st, st.newSlice(Seq(el...)))
			}
		}
		return ret1(st, e.fresh(name, sigType(sig), args...))
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc":
		if e.sortAny {
			return ret1(st, Nil)
		}
		if strings.HasPrefix(name, "sort.") && e.forceUnroll > 0 {
			if ok := e.sortKnown(st, fr, args, ci); ok {
				return ret1(st, Nil)
			}
		}
		e.havocPtr(st, args[0])
		return ret1(st, Nil)
	case "sort.Strings", "sort.Ints":
		e.havocPtr(st, args[0])
		return ret1(st, Nil)
	case "unicode/utf8.RuneCountInString":
	}
	if rs, ok := e.modelAtomic(st, name, args, pos, fnName); ok {
		return rs
	}
	if isPure(name) || name == "io.ReadAll" && args[0].K == KCall && args[0].I == 0 || name == "io/ioutil.ReadAll" && args[0].K == KCall && args[0].I == 0 {
		as := make([]*Term, len(args))
		for i, a := range args {
			as[i] = e.deepPure(st, a)
		}
		return ret1(st, resultOf(Call(name, sigType(sig), as...), sig))
	}
	switch {
	case strings.HasPrefix(name, "(*github.com/gin-gonic/gin.Context)."):
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Param", "Query", "GetHeader", "PostForm":
			return ret1(st, resultOf(Call(name, sigType(sig), args...), sig))
		}
	case name == "(net.Conn).RemoteAddr" || name == "(net.Conn).LocalAddr" || name == "(net.Addr).String" || name == "(net.Addr).Network":
		return ret1(st, Call(name, sigType(sig), args...))
	}
	if (name == "io.ReadAll" || name == "io/ioutil.ReadAll") && len(args) == 1 && args[0].K == KIface && inMemory(args[0].T) {
		return ret1(st, resultOf(Call("io.ReadAll", sigType(sig), e.deepPure(st, args[0])), sig))
	}
	// an effect with an unknown result
	r := e.fresh(name, sigType(sig), args...)
	ev("call", args, r)
	if pkgOf(name) != "github.com/fakeyanss/gron" { // the scheduler keeps jobs, it does not write them
		for i, a := range args {
			if i == 0 && strings.HasSuffix(name, "mapstructure.Decode") {
				continue // the input is only read
			}
			e.havocPtr(st, a)
		}
	}
	return ret1(st, resultOf(r, sig))
}

func (e *Engine) deepPure(st *State, v *Term) *Term {
	v = st.pureArg(v)
	if v.K == KAlloc {
		if o := st.heap[v]; o != nil {
			if c, ok := o.cells[pathContent]; ok {
				return c
			}
		}
	}
	if v.K == KIface {
		return mk(Term{K: KIface, T: v.T, A: []*Term{e.deepPure(st, v.A[0])}})
	}
	return v
}

func (e *Engine) errIs(st *State, er, target *Term) *Term {
	for {
		if er == target {
			return True
		}
		if st.isNilNow(er) {
			return Bool(st.isNilNow(target))
		}
		if er.K == KWrap {
			er = er.A[0]
			continue
		}
		if errAtom(er) && errAtom(target) {
			return False
		}
		if st.decide(EqOther(er, target)) == 1 {
			return True
		}
		return Call("errors.Is", types.Typ[types.Bool], er, target)
	}
}

func (e *Engine) lock(st *State, p *Term, write bool, pos token.Pos, fn, kind string) []callRes {
	if !e.derefOK(st, p) {
		return []callRes{{st: st, kind: outPanic, why: "nil mutex", pos: pos}}
	}
	n := st.locks[p]
	if n != 0 && (write || n > 0) {
		st.emit(&Event{Kind: "deadlock", Args: []*Term{p}, Pos: pos, Fn: fn})
		return []callRes{{st: st, kind: outExit, why: "lock already held", pos: pos}}
	}
	st.emit(&Event{Kind: kind, Args: []*Term{p}, Pos: pos, Fn: fn})
	if write {
		st.locks[p] = 1
	} else {
		st.locks[p] = n - 1
	}
	st.epoch = int(e.stamp())
	return ret1(st, Nil)
}

func (e *Engine) unlock(st *State, p *Term, write bool, pos token.Pos, fn string) []callRes {
	n := st.locks[p]
	kind := "unlock"
	if !write {
		kind = "runlock"
	}
	if write && n <= 0 || !write && n >= 0 {
		st.emit(&Event{Kind: "badunlock", Args: []*Term{p}, Pos: pos, Fn: fn})
		return []callRes{{st: st, kind: outExit, why: "unlock of unlocked mutex", pos: pos}}
	}
	if write {
		delete(st.locks, p)
	} else if n+1 == 0 {
		delete(st.locks, p)
	} else {
		st.locks[p] = n + 1
	}
	st.emit(&Event{Kind: kind, Args: []*Term{p}, Pos: pos, Fn: fn})
	st.epoch = int(e.stamp())
	return ret1(st, Nil)
}

// ---- buffers ----

func (e *Engine) bufLoc(p *Term) (*Term, string) {
	base, codes, _ := splitPtr(p)
	path := ""
	for _, c := range codes {
		path += "." + strconv.FormatInt(c, 10)
	}
	return base, path + pathContent
}
func (e *Engine) bufContent(st *State, p *Term) *Term {
	b, path := e.bufLoc(p)
	return st.content(b, path)
}
func (e *Engine) bufSet(st *State, p, q *Term) {
	b, path := e.bufLoc(p)
	st.wobj(b).cells[path] = q
}
func (e *Engine) bufAppend(st *State, p, q *Term) {
	e.bufSet(st, p, Concat(e.bufContent(st, p), q))
}

// ---- Sprintf ----

func (e *Engine) sprintf(st *State, args []*Term) *Term {
	strT := types.Typ[types.String]
	if args[0].K != KStr {
		return Call("fmt.Sprintf", strT, args[0], st.pureArg(args[1]))
	}
	f := args[0].S
	var q *Term = emptySeq
	vals := []*Term{}
	if len(args) > 1 {
		vs := st.seqOfSlice(args[1])
		for _, s := range vs.A {
			if s.K != KSElem {
				return Call("fmt.Sprintf", strT, args[0], vs)
			}
			vals = append(vals, s.A[0])
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			q = Concat(q, Seq(SElem(Int(int64(f[i])))))
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			q = Concat(q, Seq(SElem(Int('%'))))
			continue
		}
		if k >= len(vals) {
			return Call("fmt.Sprintf", strT, args[0], Tuple(vals...))
		}
		v := vals[k]
		k++
		done := false
		if v.K == KIface && verb == "%02d" && isIntType(v.T) {
			if r := rangeOf(v.A[0], st); r.lo >= 0 && r.hi <= 99 && v.A[0].K != KInt {
				if hi, lo, ok := splitDiv(st, v.A[0], Int(10)); ok {
					q = Concat(q, Seq(SElem(AddC(hi, '0')), SElem(AddC(lo, '0'))))
					continue
				}
			}
		}
		if v.K == KIface {
			_, named := v.T.(*types.Named)
			if !named || e.prog.MethodSets.MethodSet(v.T).Len() == 0 {
				x := v.A[0]
				if isStringType(v.T) && (verb == "%s" || verb == "%v") {
					q = Concat(q, seqOfStr(x))
					done = true
				}
				if isIntType(v.T) && (verb == "%d" || verb == "%v") {
					if x.K == KInt {
						q = Concat(q, seqOfStr(StrC(strconv.FormatInt(x.I, 10))))
					} else {
						q = Concat(q, seqOfStr(Call("itoa", strT, x)))
					}
					done = true
				}
				if !done && isIntType(v.T) && x.K == KInt && x.I >= 0 && strings.ContainsAny(verb[len(verb)-1:], "dxXoc") {
					q = Concat(q, seqOfStr(StrC(fmt.Sprintf(verb, uint64(x.I)))))
					done = true
				}
				if !done && isIntType(v.T) && (verb == "%02X" || verb == "%02x") {
					if ds, ok := decimalNibbles(st, x); ok {
						q = Concat(q, ds)
						done = true
					}
				}
				if sl, ok := v.T.Underlying().(*types.Slice); ok && !done && isByteType(sl.Elem()) && (verb == "%X" || verb == "%x" || verb == "%02X" || verb == "%02x") {
					if g, ok := elems(st.seqOfSlice(x)); ok {
						dd, all := emptySeq, true
						for _, b := range g {
							ds, ok := decimalNibbles(st, b)
							if all = all && ok; !all {
								break
							}
							dd = Concat(dd, ds)
						}
						if all {
							q = Concat(q, dd)
							done = true
						}
					}
				}
				if !done {
					q = Concat(q, seqOfStr(Call("fmt"+verb, strT, e.deepPure(st, x))))
					done = true
				}
			}
		}
		if !done {
			q = Concat(q, seqOfStr(Call("fmt"+verb, strT, e.deepPure(st, v))))
		}
	}
	return strOf(q)
}

// ---- reading ----

func (e *Engine) modelRead(st *State, name string, args []*Term, pos token.Pos, fn string, full bool) []callRes {
	r, buf := args[0], args[1]
	_, _, ln := st.desc(buf)
	s2 := st.clone()
	er := e.freshErr("read")
	n2 := e.fresh("nread", types.Typ[types.Int])
	s2.rng[n2] = Iv{0, 1 << 48}
	s2.noteLin(Sub(ln, n2))
	s2.emit(&Event{Kind: "read", Name: name, Args: []*Term{r, emptySeq}, Pos: pos, Fn: fn})
	e.havocPtr(s2, buf)
	d := e.fresh("rd", types.NewSlice(byteType))
	n := ln
	if !full && !(ln.K == KInt && ln.I == 1) {
		n = e.fresh("nread", types.Typ[types.Int])
		st.rng[n] = Iv{1, 1 << 48}
		st.noteLin(Sub(ln, n))
	}
	q := Seq(SChunk(d, Int(0), n))
	st.setSlice(buf, Int(0), q)
	st.emit(&Event{Kind: "read", Name: name, Args: []*Term{r, q}, Pos: pos, Fn: fn})
	return []callRes{{st: s2, val: Tuple(n2, er)}, {st: st, val: Tuple(n, Nil)}}
}

// ---- encoding/binary ----

func (e *Engine) modelBinary(st *State, name string, args []*Term) ([]callRes, bool) {
	be := strings.HasPrefix(name, "(encoding/binary.bigEndian).")
	le := strings.HasPrefix(name, "(encoding/binary.littleEndian).")
	if !be && !le {
		return nil, false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	w := int64(0)
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	default:
		return nil, false
	}
	bytesOf := func(v *Term) *Term {
		var segs []*Term
		for i := int64(0); i < w; i++ {
			sh := (w - 1 - i) * 8
			if le {
				sh = i * 8
			}
			x := shiftBits(v, -sh, 64, st)
			if x != nil {
				x = andMask(x, 255, st)
			}
			if x == nil {
				x = mk(Term{K: KOp, S: "byte" + strconv.FormatInt(sh, 10), A: []*Term{v}, T: byteType})
			}
			segs = append(segs, SElem(x))
		}
		return Seq(segs...)
	}
	switch {
	case strings.HasPrefix(m, "Uint"):
		_, _, n := st.desc(args[1])
		if st.decide(Ge0(AddC(n, -w))) == -1 {
			return []callRes{{st: st, kind: outPanic, why: "index out of range"}}, true
		}
		st.noteLin(AddC(n, -w))
		q := st.seqOfSlice(args[1])
		v := Int(0)
		for i := int64(0); i < w; i++ {
			sh := (w - 1 - i) * 8
			if le {
				sh = i * 8
			}
			b := seqAt(q, Int(i), st)
			var x *Term
			if w < 8 {
				x = shiftBits(b, sh, w*8, st)
				if x != nil {
					x = orBits(v, x, st)
				}
			}
			if x == nil {
				return ret1(st, Call(name, uintType(int(w*8)), seqSub(q, Int(0), Int(w), st))), true
			}
			v = x
		}
		return ret1(st, v), true
	case strings.HasPrefix(m, "PutUint"):
		_, _, n := st.desc(args[1])
		if st.decide(Ge0(AddC(n, -w))) == -1 {
			return []callRes{{st: st, kind: outPanic, why: "index out of range"}}, true
		}
		st.noteLin(AddC(n, -w))
		st.setSlice(args[1], Int(0), bytesOf(args[2]))
		return ret1(st, Nil), true
	case strings.HasPrefix(m, "AppendUint"):
		return ret1(st, st.newSlice(Concat(st.seqOfSlice(args[1]), bytesOf(args[2])))), true
	}
	return nil, false
}

// ---- time ----

func nsOf(t *Term) *Term {
	if t.K == KCall && t.S == "timeOfNs" {
		return t.A[0]
	}
	if t.K == KZero {
		return Sym("ns:zero", types.Typ[types.Int64])
	}
	return Call("ns", types.Typ[types.Int64], t)
}

func timeOf(ns *Term) *Term {
	if ns.K == KCall && ns.S == "ns" {
		return ns.A[0]
	}
	return Call("timeOfNs", nil, ns)
}

func divC(v *Term, c int64) *Term {
	if v.K == KInt {
		return Int(v.I / c)
	}
	l := toLin(v)
	ok := l.k%c == 0
	for _, x := range l.m {
		if x%c != 0 {
			ok = false
		}
	}
	if ok {
		n := lin{l.k / c, map[*Term]int64{}}
		for a, x := range l.m {
			n.m[a] = x / c
		}
		return fromLin(n)
	}
	return mk(Term{K: KOp, S: "div", A: []*Term{v, Int(c)}, T: types.Typ[types.Int64]})
}

// splitDiv splits a linear term c*q + r with 0 <= r < c into q and r.
func splitDiv(st *State, a, b *Term) (q, r *Term, ok bool) {
	if b.K != KInt || b.I <= 1 || a.K == KInt || rangeOf(a, st).lo < 0 {
		return nil, nil, false
	}
	l := toLin(a)
	hi, lo := lin{l.k / b.I, map[*Term]int64{}}, lin{l.k % b.I, map[*Term]int64{}}
	if l.k < 0 {
		return nil, nil, false
	}
	for t, x := range l.m {
		if x < 0 {
			return nil, nil, false
		}
		if x%b.I == 0 {
			hi.m[t] = x / b.I
		} else {
			lo.m[t] = x
		}
	}
	q, r = fromLin(hi), fromLin(lo)
	if len(hi.m) == 0 && hi.k == 0 {
		return nil, nil, false
	}
	if iv := rangeOf(r, st); iv.lo < 0 || iv.hi >= b.I {
		return nil, nil, false
	}
	return q, r, true
}

func (e *Engine) modelTime(st *State, name string, args []*Term) ([]callRes, bool) {
	if !strings.HasPrefix(name, "time.") && !strings.HasPrefix(name, "(time.") {
		return nil, false
	}
	r := func(v *Term) ([]callRes, bool) { return ret1(st, v), true }
	switch name {
	case "time.Now":
		return r(e.fresh("time.Now", nil))
	case "time.Since":
		return r(Sub(nsOf(e.fresh("time.Now", nil)), nsOf(args[0])))
	case "time.Until":
		return r(Sub(nsOf(args[0]), nsOf(e.fresh("time.Now", nil))))
	case "(time.Time).Sub":
		return r(Sub(nsOf(args[0]), nsOf(args[1])))
	case "(time.Time).Add":
		return r(timeOf(Add(nsOf(args[0]), args[1])))
	case "(time.Time).After":
		return r(Ge0(AddC(Sub(nsOf(args[0]), nsOf(args[1])), -1)))
	case "(time.Time).Before":
		return r(Ge0(AddC(Sub(nsOf(args[1]), nsOf(args[0])), -1)))
	case "(time.Time).Equal":
		return r(EqInt(nsOf(args[0]), nsOf(args[1]), st))
	case "(time.Time).UnixMilli":
		return r(divC(nsOf(args[0]), 1000000))
	case "(time.Time).UnixNano":
		return r(nsOf(args[0]))
	case "(time.Time).Unix":
		return r(divC(nsOf(args[0]), 1000000000))
	case "time.UnixMilli":
		return r(timeOf(Scale(args[0], 1000000)))
	case "(time.Duration).Milliseconds":
		return r(divC(args[0], 1000000))
	case "(time.Duration).Nanoseconds":
		return r(args[0])
	}
	return nil, false
}

// ---- sync/atomic ----

func (e *Engine) modelAtomic(st *State, name string, args []*Term, pos token.Pos, fn string) ([]callRes, bool) {
	if !strings.HasPrefix(name, "sync/atomic.") && !strings.HasPrefix(name, "(*sync/atomic.") {
		return nil, false
	}
	if !e.derefOK(st, args[0]) {
		return []callRes{{st: st, kind: outPanic, why: "nil atomic", pos: pos}}, true
	}
	m := name[strings.LastIndex(name, ".")+1:]
	p := args[0]
	var t types.Type = types.Typ[types.Int64]
	switch {
	case strings.Contains(name, "Uint32"):
		t = types.Typ[types.Uint32]
	case strings.Contains(name, "Int32"):
		t = types.Typ[types.Int32]
	case strings.Contains(name, "Uint64"):
		t = types.Typ[types.Uint64]
	case strings.Contains(name, "Bool"):
		t = types.Typ[types.Bool]
	}
	if strings.HasPrefix(name, "(*") {
		p = FieldPtr(p, 79)
	}
	op := ""
	for _, o := range []string{"CompareAndSwap", "Add", "Load", "Store", "Swap"} {
		if strings.HasPrefix(m, o) {
			op = o
			break
		}
	}
	if op == "" {
		return nil, false
	}
	// another goroutine may have changed the cell: the value read is unknown
	// but the same within this operation.
	cur := e.fresh("atomicval", t, p)
	if e.seqAtomics {
		cur = st.load(p, t)
	}
	emit := func(s *State, res *Term) {
		s.emit(&Event{Kind: "atomic", Name: op, Args: append([]*Term{p, cur}, args[1:]...), Res: res, Pos: pos, Fn: fn})
	}
	switch op {
	case "Load":
		emit(st, cur)
		return ret1(st, cur), true
	case "Store":
		st.store(p, args[1], t)
		emit(st, Nil)
		return ret1(st, Nil), true
	case "Add":
		v := wrap(Add(cur, args[1]), t, st)
		st.store(p, v, t)
		emit(st, v)
		return ret1(st, v), true
	case "Swap":
		st.store(p, args[1], t)
		emit(st, cur)
		return ret1(st, cur), true
	case "CompareAndSwap":
		s2 := st.clone()
		var c *Term
		if isIntType(t) {
			c = EqInt(cur, args[1], st)
		} else {
			c = EqOther(cur, args[1])
		}
		s2.assume(Not(c))
		emit(s2, False)
		st.assume(c)
		st.store(p, args[2], t)
		emit(st, True)
		return []callRes{{st: s2, val: False}, {st: st, val: True}}, true
	}
	return nil, false
}

// inMemory: a reader over bytes already in memory.
func inMemory(t types.Type) bool {
	switch t.String() {
	case "*golang.org/x/text/transform.Reader", "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		return true
	}
	return false
}

// decimalNibbles renders a byte whose two nibbles are decimal digits.
func decimalNibbles(st *State, b *Term) (*Term, bool) {
	if r := rangeOf(b, st); r.lo < 0 || r.hi > 0x99 {
		return nil, false
	}
	hi, lo := shiftBits(b, -4, 8, st), andMask(b, 15, st)
	for _, n := range []*Term{hi, lo} {
		if r := rangeOf(n, st); r.lo < 0 || r.hi > 9 {
			return nil, false
		}
	}
	return Seq(SElem(AddC(hi, '0')), SElem(AddC(lo, '0'))), true
}

// modelDigits interprets hex and search functions on strings whose every
// character is known to be a decimal digit.
func modelDigits(st *State, name string, args []*Term) ([]callRes, bool) {
	digits := func(q *Term) ([]*Term, bool) {
		g, ok := elems(q)
		if !ok || len(g) == 0 {
			return nil, false
		}
		for _, x := range g {
			if r := rangeOf(x, st); r.lo < '0' || r.hi > '9' {
				return nil, false
			}
		}
		return g, true
	}
	switch name {
	case "encoding/hex.EncodeToString":
		g, ok := elems(st.seqOfSlice(args[0]))
		if !ok || len(g) == 0 {
			return nil, false
		}
		q := emptySeq
		for _, b := range g {
			d, ok := decimalNibbles(st, b)
			if !ok {
				return nil, false
			}
			q = Concat(q, d)
		}
		return ret1(st, strOf(q)), true
	case "encoding/hex.DecodeString":
		g, ok := digits(seqOfStr(args[0]))
		if !ok || len(g)%2 != 0 {
			return nil, false
		}
		var bs []*Term
		for i := 0; i < len(g); i += 2 {
			bs = append(bs, Add(Scale(AddC(g[i], -'0'), 16), AddC(g[i+1], -'0')))
		}
		return ret1(st, Tuple(st.newSlice(seqOfElems(bs)), Nil)), true
	case "strings.LastIndex", "strings.Index", "strings.IndexByte", "strings.LastIndexByte":
		if _, ok := digits(seqOfStr(args[0])); !ok {
			return nil, false
		}
		n := args[1]
		if n.K == KStr && len(n.S) > 0 && (n.S[0] < '0' || n.S[0] > '9') || n.K == KInt && (n.I < '0' || n.I > '9') {
			return ret1(st, Int(-1)), true
		}
	case "strings.ToUpper", "strings.ToLower":
		if _, ok := digits(seqOfStr(args[0])); ok {
			return ret1(st, args[0]), true
		}
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix":
		if _, ok := digits(seqOfStr(args[0])); ok && args[1].K == KStr && !strings.ContainsAny(args[1].S, "0123456789") {
			return ret1(st, args[0]), true
		}
	}
	return nil, false
}

// sortKnown sorts a slice of known elements by its comparison function;
// only when every comparison is decided.
func (e *Engine) sortKnown(st *State, fr *Frame, args []*Term, ci ssa.CallInstruction) bool {
	v := args[0]
	if v.K == KIface {
		v = v.A[0]
	}
	if v.K != KSlice {
		return false
	}
	q := st.seqOfSlice(v)
	for _, s := range q.A {
		if s.K != KSElem {
			return false
		}
	}
	n := len(q.A)
	if n > 64 {
		return false
	}
	less := func(i, j int) (bool, bool) {
		rs := e.invoke(st.clone(), fr, args[1], []*Term{Int(int64(i)), Int(int64(j))}, ci)
		if len(rs) != 1 || rs[0].kind != outRet || rs[0].val.K != KBool && rs[0].val != True && rs[0].val != False {
			return false, false
		}
		return rs[0].val == True, true
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			l, ok := less(j, j-1)
			if !ok {
				return false
			}
			if !l {
				break
			}
			q = st.seqOfSlice(v)
			el := append([]*Term(nil), q.A...)
			el[j], el[j-1] = el[j-1], el[j]
			st.setSlice(v, Int(0), Seq(el...))
		}
	}
	return true
}

// byteSearch decides searches for a constant pattern in a fully known
// sequence, splitting on every comparison the facts leave open.
func (e *Engine) byteSearch(st *State, name string, args []*Term) ([]callRes, bool) {
	seq := func(v *Term) ([]*Term, bool) {
		if strings.HasPrefix(name, "strings.") {
			return elems(seqOfStr(v))
		}
		return elems(st.seqOfSlice(v))
	}
	src, ok := seq(args[0])
	if !ok || len(src) > 4096 {
		return nil, false
	}
	var pat, rep []*Term
	if strings.HasSuffix(name, "IndexByte") {
		pat = []*Term{args[1]}
	} else if pat, ok = seq(args[1]); !ok {
		return nil, false
	}
	if len(pat) == 0 {
		return nil, false
	}
	for _, c := range pat {
		if c.K != KInt {
			return nil, false
		}
	}
	replace := strings.Contains(name, "Replace")
	limit := int64(-1)
	if replace {
		if rep, ok = seq(args[2]); !ok {
			return nil, false
		}
		if len(args) > 3 {
			if args[3].K != KInt {
				return nil, false
			}
			limit = args[3].I
		}
	}
	var out []callRes
	done := func(s *State, at int, acc []*Term) {
		switch {
		case replace && strings.HasPrefix(name, "strings."):
			out = append(out, callRes{st: s, val: strOf(seqOfElems(acc))})
		case replace:
			out = append(out, callRes{st: s, val: s.newSlice(seqOfElems(acc))})
		case strings.HasSuffix(name, "Contains"):
			out = append(out, callRes{st: s, val: Bool(at >= 0)})
		default:
			out = append(out, callRes{st: s, val: Int(int64(at))})
		}
	}
	var step func(s *State, i, k int, n int64, acc []*Term)
	// k pattern bytes matched at i, n replacements done
	step = func(s *State, i, k int, n int64, acc []*Term) {
		for {
			if k == len(pat) {
				if !replace {
					done(s, i, nil)
					return
				}
				acc = append(append([]*Term(nil), acc...), rep...)
				i, k, n = i+len(pat), 0, n+1
				continue
			}
			if i >= len(src) {
				done(s, -1, acc)
				return
			}
			miss := func(s *State) {
				step(s, i+1, 0, n, append(append([]*Term(nil), acc...), src[i]))
			}
			if n == limit || i+len(pat) > len(src) {
				miss(s)
				return
			}
			c := EqInt(src[i+k], pat[k], s)
			switch s.decide(c) {
			case 1:
				k++
				continue
			case -1:
				miss(s)
				return
			}
			s2 := s.clone()
			if s2.assume(Not(c)) {
				miss(s2)
			}
			if !s.assume(c) {
				return
			}
			k++
		}
	}
	step(st, 0, 0, 0, nil)
	return out, true
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// poolNew finds the New function a package-level sync.Pool is declared with.
func (e *Engine) poolNew(p *Term) *ssa.Function {
	b, _, _ := splitPtr(p)
	g, ok := b.P.(*ssa.Global)
	if b.K != KGlobal || !ok || g.Pkg == nil {
		return nil
	}
	var res *ssa.Function
	for _, f := range fnsOf(e, g.Pkg) {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(g) {
					continue
				}
				if fn, ok := s.Val.(*ssa.Function); ok {
					if res != nil && res != fn {
						return nil
					}
					res = fn
				}
			}
		}
	}
	return res
}

// constLen is the number of entries of a map built from constant keys only.
func (ms *MapState) constLen() (int64, bool) {
	if !ms.fresh {
		return 0, false
	}
	in := map[*Term]bool{}
	for _, w := range ms.writes {
		if w.key.K != KStr && w.key.K != KInt {
			return 0, false
		}
		if w.val == nil {
			delete(in, w.key)
		} else {
			in[w.key] = true
		}
	}
	return int64(len(in)), true
}
