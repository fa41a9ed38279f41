package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Path-sensitive analysis of the registry's operations from an arbitrary consistent state: both indexes are updated together, within one critical section, under the record's own keys; no message or job changes the keys of a stored record.", 20, checkC13)
	register("C14", "Lockset analysis over all program entry points (messages, supervision, connections, HTTP handlers, storage API, initialisers): every access to a shared map, shared record or package-level variable that is ever written at run time has a common lock, or is atomic; records handed out are private.", 30, checkC14)
	register("C15", "Lock typestate and lock-order analysis over all program entry points: locks are released on every outcome including panics, never acquired twice, acquired in an acyclic order, and not held across blocking network or timer waits.", 40, checkC15)
}

type access struct {
	write  bool
	locks  map[string]bool
	where  string
	entry  string
	how    string
	atomic bool
}

// sharedClass names the storage a pointer base belongs to; "" when private.
func (c *Check) sharedClass(st *State, r *registries, b *Term) string {
	switch b.K {
	case KGlobal:
		return "variable " + shortFn(b.S)
	case KGet:
		return "record in " + shortFn(b.A[0].String())
	case KInit:
		if k := c.sharedClass(st, r, b.A[0]); k != "" {
			return k + " -> " + b.S
		}
		return ""
	case KBack, KPtr, KField:
		if k := c.sharedClass(st, r, b.A[0]); k != "" {
			return k + " -> []"
		}
		return ""
	case KSym:
		switch b.S {
		case "session":
			return "record in " + shortFn(r.sess.String())
		case "recv":
			if strings.Contains(fmt.Sprint(b.T), "RingBuffer") {
				return "record in " + shortFn(r.geo.String())
			}
			return "receiver " + fmt.Sprint(b.T)
		case "serv":
			return "server"
		}
		return ""
	case KAlloc:
		for m, ms := range st.maps {
			if ms.fresh || privateMap(st, m) {
				continue
			}
			if ms.holds(b) {
				return "record in " + shortFn(m.String())
			}
		}
		if g := globalHolding(st, b); g != "" {
			return "object in variable " + shortFn(g)
		}
	}
	return ""
}

// globalHolding names the package variable through whose fields an object made
// on this path is reachable by other goroutines; "" when it is not.
func globalHolding(st *State, b *Term) string {
	var roots []*Term
	for k := range st.heap {
		if k.K == KGlobal {
			roots = append(roots, k)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].S < roots[j].S })
	for _, g := range roots {
		seen := map[*Term]bool{}
		var walk func(x *Term) bool
		walk = func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			o := st.heap[x]
			if o == nil {
				return false
			}
			for _, v := range o.cells {
				if v == nil {
					continue
				}
				if v.K == KIface {
					v = v.A[0]
				}
				if v.K != KAlloc && v.K != KPtr && v.K != KField {
					continue
				}
				r := rootOf(v)
				if r == b || r.K == KAlloc && walk(r) {
					return true
				}
			}
			return false
		}
		if walk(g) {
			return g.S
		}
	}
	return ""
}

// rootOf strips the steps that lead from a shared record to a part of it.
func rootOf(b *Term) *Term {
	for {
		switch b.K {
		case KInit, KBack, KPtr, KField, KMap:
			b = b.A[0]
			continue
		}
		return b
	}
}

// privateMap: the map was made on this path and has not been stored anywhere
// another goroutine can reach.
func privateMap(st *State, m *Term) bool {
	a := rootOf(m)
	if a.K != KAlloc {
		return a.K == KSym && !strings.HasPrefix(a.S, "recv") && a.S != "serv" && a.S != "session" || a.K == KCall
	}
	for b, o := range st.heap {
		if rootOf(b).K == KAlloc || rootOf(b).K == KSym {
			continue
		}
		for _, v := range o.cells {
			if v != nil && (v == m || rootOf(v) == a) {
				return false
			}
		}
	}
	for k, ms := range st.maps {
		if k == m || rootOf(k).K == KAlloc {
			continue
		}
		for _, w := range ms.writes {
			if w.val != nil && (w.val == m || rootOf(w.val) == a) {
				return false
			}
		}
	}
	return true
}

// onceGuarded: a variable that one-time initialisation assigns is not read, in
// a function that goes on to (or may) perform that initialisation, before it.
func (c *Check) onceGuarded() {
	e := c.e
	doers := map[*ssa.Function]map[*ssa.Global]bool{} // function -> variables its one-time initialisation assigns
	var assigned func(f *ssa.Function, d int, out map[*ssa.Global]bool)
	assigned = func(f *ssa.Function, d int, out map[*ssa.Global]bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						out[g] = true
					}
				case ssa.CallInstruction:
					if cal := x.Common().StaticCallee(); cal != nil && cal.Pkg == f.Pkg && d < 3 {
						assigned(cal, d+1, out)
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, pk := range e.sortedPkgs() {
		if e.isRepoPkg(pk.Pkg.Path()) {
			fns = append(fns, fnsOf(e, pk)...)
		}
	}
	isDo := func(in ssa.Instruction) (ssa.CallInstruction, bool) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil, false
		}
		cal := ci.Common().StaticCallee()
		return ci, cal != nil && cal.String() == "(*sync.Once).Do"
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := isDo(in); ok {
					body := ci.Common().Args[1]
					if mc, ok := body.(*ssa.MakeClosure); ok {
						body = mc.Fn
					}
					if g, ok := body.(*ssa.Function); ok {
						if doers[f] == nil {
							doers[f] = map[*ssa.Global]bool{}
						}
						assigned(g, 0, doers[f])
					}
				}
			}
		}
	}
	for _, f := range fns {
		// the initialising calls of f, direct or through a function that performs them
		inits := map[*ssa.Global][]ssa.Instruction{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := isDo(in); ok {
					for g := range doers[f] {
						inits[g] = append(inits[g], in)
					}
				} else if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil {
						for g := range doers[cal] {
							inits[g] = append(inits[g], in)
						}
					}
				}
			}
		}
		if len(inits) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || len(inits[g]) == 0 {
					continue
				}
				dom := false
				for _, d := range inits[g] {
					if d.Block() == b {
						for j, y := range b.Instrs {
							if y == d && j < i {
								dom = true
							}
						}
					} else if d.Block().Dominates(b) {
						dom = true
					}
				}
				c.must(dom, "once", shortFn(f.String()), c.at(u.Pos()), "%s reads %s before its one-time initialisation, unordered with the goroutine that performs it", shortFn(f.String()), g.Name())
			}
		}
	}
}

func checkC14(c *Check) {
	c.guard("once", "initialisation", "internal/", c.onceGuarded)
	c.noCapturedRace("captured", inPkgs("main", "internal/", "pkg/"))
	c.noSharedScratch("working-state", inPkgs("internal/codec/", pProto, pModel, "internal/util", "internal/util/", "internal/api", "pkg/"))
	c.eachProcess(fragNone, allIDs(), "own-message", func(d dispatch, p *procRun) {
		for _, o := range p.outs {
			c.ownObjects("own-message", idName(d.id), p, o)
		}
	})
	e := c.e
	acc := map[string][]access{}
	note := func(key string, a access) { acc[key] = append(acc[key], a) }
	var reg *registries
	c.guard("setup", "registries", "internal/storage", func() { reg = c.registries() })
	if reg == nil {
		return
	}
	nEntries := 0
	// maps that are part of shared state, by term
	isShared := func(s *State, m *Term) bool {
		ms := s.maps[m]
		return ms != nil && !ms.fresh && !privateMap(s, m)
	}
	for _, en := range c.entries() {
		c.guard("entry", en.name, en.where, func() {
			e.traceLoads = true
			on := false
			rec := func(s *State, ev *Event) {
				if !on || ev.Once {
					return
				}
				lk := func(b *Term, write bool) map[string]bool {
					out := map[string]bool{}
					add := func(l *Term) {
						lb, codes, _ := splitPtr(l)
						if b != nil && rootOf(lb) == rootOf(b) && rootOf(b).K != KGlobal {
							out[fmt.Sprint("self", codes)] = true
							return
						}
						out[shortFn(l.String())] = true
					}
					for _, l := range ev.Locks {
						add(l)
					}
					if !write {
						for _, l := range ev.RLock {
							add(l)
						}
					}
					return out
				}
				w := c.at(ev.Pos)
				switch ev.Kind {
				case "mapget", "maplen", "mapiter", "mapset", "mapdel":
					wr := ev.Kind == "mapset" || ev.Kind == "mapdel"
					k := "map " + shortFn(ev.Args[0].String())
					if privateMap(s, ev.Args[0]) {
						return
					}
					note(k, access{wr, lk(nil, wr), w, en.name, ev.Kind, false})
				case "load", "store", "appendto":
					b, codes, _ := splitPtr(ev.Args[0])
					k := c.sharedClass(s, reg, b)
					if k == "" {
						return
					}
					wr := ev.Kind != "load"
					p := fmt.Sprint(codes)
					if ev.Kind == "appendto" {
						p += " elements"
					}
					note(k+" field "+p, access{wr, lk(b, wr), w, en.name, ev.Kind, false})
				case "atomic":
					b, codes, _ := splitPtr(ev.Args[0])
					k := c.sharedClass(s, reg, b)
					if k == "" {
						return
					}
					l := lk(b, true)
					l["atomic"] = true
					note(k+" field "+fmt.Sprint(codes), access{ev.Name != "Load", l, w, en.name, "atomic", true})
				case "call":
					for _, a := range ev.Args {
						if a.K == KIface {
							a = a.A[0]
						}
						b, _, _ := splitPtr(a)
						if b.K == KGet {
							note(c.sharedClass(s, reg, b)+" escapes", access{false, lk(b, false), w, en.name, "passed to " + shortFn(ev.Name), false})
						}
						if _, ok := s.maps[a]; ok && isShared(s, a) {
							note("map "+shortFn(a.String()), access{false, lk(nil, false), w, en.name, "passed to " + shortFn(ev.Name), false})
						}
					}
				}
			}
			e.onEvent = rec
			on = true
			rs := en.run()
			on = false
			e.onEvent, e.traceLoads = nil, false
			nEntries++
			c.pass("entry", en.name, en.where)
			_ = rs
		})
	}
	var keys []string
	for k := range acc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	written := map[string]bool{} // record classes with a run-time write
	for _, k := range keys {
		as := acc[k]
		wr := false
		for _, a := range as {
			wr = wr || a.write
		}
		if !wr {
			continue
		}
		if i := strings.Index(k, " field "); i > 0 {
			written[k[:i]] = true
		}
		// a whole-object access covers all fields
		if i := strings.Index(k, " field "); i > 0 && k[i:] != " field []" {
			as = append(append([]access(nil), as...), acc[k[:i]+" field []"]...)
		}
		var common map[string]bool
		for _, a := range as {
			if common == nil {
				common = map[string]bool{}
				for l := range a.locks {
					common[l] = true
				}
				continue
			}
			for l := range common {
				if !a.locks[l] {
					delete(common, l)
				}
			}
		}
		if len(common) > 0 {
			c.pass("lockset", k, as[0].where)
			c.obl("lockset", k).Paths = len(as)
			continue
		}
		// find the odd ones out: accesses holding the fewest locks
		best := as[0]
		for _, a := range as {
			if len(a.locks) < len(best.locks) {
				best = a
			}
		}
		wrote := ""
		for _, a := range as {
			if a.write {
				wrote = a.where
			}
		}
		c.fail("lockset", k, best.where, "%s of %s (reached from %s) holds %v, which no other access shares; it is written at %s", best.how, k, best.entry, lockNames(best.locks), wrote)
	}
	for _, k := range keys {
		if strings.HasSuffix(k, " escapes") {
			cls := strings.TrimSuffix(k, " escapes")
			c.must(!written[cls], "escape", cls, acc[k][0].where, "%s is handed out (%s) although its fields are written", cls, acc[k][0].how)
		}
	}
	c.must(nEntries >= 40, "entry", "count", "", "only %d entry points analysed", nEntries)
	// records handed out by the registries are private copies, or never written
	for _, g := range []struct{ typ, m string }{{"DeviceCache", "GetDeviceByPhone"}, {"DeviceCache", "GetDeviceByPlate"}, {"DeviceParamsCache", "GetDeviceParamsByPhone"}} {
		c.guard("handed-out", g.typ+"."+g.m, "internal/storage", func() {
			st := e.newState()
			cache := c.single(st.clone(), pStore, "Get"+g.typ)
			f := e.needMethod(pStore, g.typ, g.m)
			n := 0
			for _, o := range c.run(st, f, cache, Sym("key", types.Typ[types.String])) {
				if o.kind != outRet || !isNil(o.vals[1]) {
					continue
				}
				n++
				cls := c.sharedClass(o.st, reg, o.vals[0])
				if cls == "" {
					c.pass("handed-out", g.typ+"."+g.m, c.fnAt(f))
					continue
				}
				c.must(!written[cls], "handed-out", g.typ+"."+g.m, c.fnAt(f), "the record handed out is the shared one, and its fields are written")
			}
			c.must(n > 0, "handed-out", g.typ+"."+g.m, c.fnAt(f), "no successful lookup")
		})
	}
	// and so are those of a listing, whatever the number of devices
	var lens []int
	c.guard("handed-out", "listing lengths", "internal/storage", func() {
		lens = append(c.mined(6, 1100, e.needMethod(pStore, "DeviceCache", "ListDevice")), 0, 1, 2, 3, 4, 5, 20)
	})
	for _, n := range lens {
		inst := fmt.Sprintf("DeviceCache.ListDevice of %d", n)
		c.guard("handed-out", inst, "internal/storage", func() {
			f := e.needMethod(pStore, "DeviceCache", "ListDevice")
			e.forceUnroll = n + 3
			e.sortAny = true // a map is listed in any order
			st := e.newState()
			cache := c.deviceCache(st)
			shared := map[*Term]bool{}
			m := &MapState{fresh: true}
			for i := 0; i < n; i++ {
				rec := Sym(fmt.Sprintf("dev%d", i), ptrTo(reg.devT))
				e.nonNil(st, rec)
				shared[rec] = true
				m.writes = append(m.writes, mapWrite{StrC(fmt.Sprintf("1330000%04d", i)), rec})
			}
			st.maps[reg.phone] = m
			wr := false
			for k := range written {
				wr = wr || strings.HasPrefix(k, "record in "+shortFn(reg.phone.String())) || strings.HasPrefix(k, "record in "+shortFn(reg.plate.String()))
			}
			outs := c.run(st, f, cache)
			c.must(len(outs) > 0, "handed-out", inst, c.fnAt(f), "no outcome")
			for _, o := range outs {
				if o.kind != outRet {
					continue
				}
				el, ok := listElems(o.st, o.vals[0])
				if !ok {
					giveUp("the listing is %s", o.vals[0])
				}
				for _, x := range el {
					c.must(!wr || !shared[x], "handed-out", inst, c.fnAt(f), "a listing of %d devices hands out the shared record %s itself, and fields of shared records are written", n, x)
				}
			}
		})
	}
}

func lockNames(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- C15 ----

var blocking = []string{"(io.Writer).Write", "(io.Reader).Read", "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(net.Listener).Accept",
	"io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "(io.ReadWriter).Read", "(io.ReadWriter).Write",
	"(io.ReadCloser).Read", "(io.WriteCloser).Write", "(io.ReadWriteCloser).Read", "(io.ReadWriteCloser).Write", "(io.ByteReader).ReadByte",
	"(*bufio.Reader).Peek", "(*bufio.Reader).Discard", "(*bufio.Writer).Flush"}

// mayWait: the call can wait for the network, a timer or another goroutine.
func mayWait(name string) bool {
	for _, b := range blocking {
		if strings.HasSuffix(name, b) {
			return true
		}
	}
	p := pkgOf(name)
	m := name[strings.LastIndex(name, ".")+1:]
	switch p {
	case "net", "crypto/tls":
		for _, q := range []string{"Read", "Write", "Accept", "Dial", "Lookup", "Handshake"} {
			if strings.HasPrefix(m, q) {
				return true
			}
		}
	case "bufio":
		return strings.HasPrefix(name, "(*bufio.Reader).Read") || strings.HasPrefix(name, "(*bufio.Reader).WriteTo") || strings.HasPrefix(name, "(*bufio.Scanner).Scan")
	case "net/http":
		return strings.HasPrefix(name, "net/http.Get") || strings.HasPrefix(name, "net/http.Post") || strings.HasPrefix(name, "(*net/http.Client).")
	case "os/exec":
		return m == "Run" || m == "Wait" || m == "Output" || m == "CombinedOutput"
	}
	return false
}

func lockClass(l *Term) string {
	b, codes, _ := splitPtr(l)
	switch b.K {
	case KGlobal:
		return shortFn(l.String())
	case KGet:
		return "record in " + shortFn(b.A[0].String()) + fmt.Sprint(codes)
	case KInit:
		return shortFn(l.String())
	}
	return shortFn(l.String())
}

func checkC15(c *Check) {
	e := c.e
	edges := map[string]map[string]string{}
	// same lock reached under two names: a type-based class for RingBuffer
	cls := func(l *Term) string {
		b, codes, _ := splitPtr(l)
		if b.K == KSym && b.S == "recv" {
			return fmt.Sprint(b.T, codes)
		}
		return lockClass(l)
	}
	nlocks := 0
	for _, en := range c.entries() {
		c.guard("entry", en.name, en.where, func() {
			on := true
			blocked := map[string]string{}
			bad := map[string]string{}
			e.onEvent = func(s *State, ev *Event) {
				if !on {
					return
				}
				held := append(append([]*Term(nil), ev.Locks...), ev.RLock...)
				switch ev.Kind {
				case "deadlock":
					bad[c.at(ev.Pos)] = fmt.Sprintf("%s is acquired while already held", cls(ev.Args[0]))
				case "badunlock":
					bad[c.at(ev.Pos)] = fmt.Sprintf("%s is released without being held", cls(ev.Args[0]))
				case "lock", "rlock":
					nlocks++
					for _, h := range held {
						a, b := cls(h), cls(ev.Args[0])
						if h == ev.Args[0] {
							continue
						}
						if edges[a] == nil {
							edges[a] = map[string]string{}
						}
						edges[a][b] = c.at(ev.Pos)
					}
				case "send", "recv", "select", "chanrecv":
					if len(held) > 0 {
						blocked[c.at(ev.Pos)] = fmt.Sprintf("waits on a channel while holding %s", cls(held[0]))
					}
				case "call", "read", "write":
					if len(held) == 0 {
						return
					}
					if mayWait(ev.Name) {
						blocked[c.at(ev.Pos)] = fmt.Sprintf("calls %s while holding %s", shortFn(ev.Name), cls(held[0]))
					}
				case stageKind:
					if len(held) > 0 && (ev.Name == "Send" || ev.Name == "Recv" || strings.HasPrefix(ev.Name, "ProcessConn")) {
						blocked[c.at(ev.Pos)] = fmt.Sprintf("does network I/O while holding %s", cls(held[0]))
					}
				}
			}
			rs := en.run()
			on = false
			e.onEvent = nil
			for _, o := range rs {
				if o.kind == outExit {
					if strings.Contains(o.why, "lock") {
						c.fail("released", en.name, c.at(o.pos), "%s", o.why)
					}
					continue
				}
				w, r := o.st.lockLists()
				held := append(w, r...)
				if len(held) > 0 {
					k := "returns"
					if o.kind == outPanic {
						k = "panics (" + o.why + ")"
					}
					c.fail("released", en.name, c.at(o.pos), "a path %s still holding %s", k, cls(held[0]))
				} else {
					c.pass("released", en.name, en.where)
				}
			}
			c.must(len(bad) == 0, "typestate", en.name, firstKey(bad, en.where), "%s", firstVal(bad))
			c.must(len(blocked) == 0, "blocking", en.name, firstKey(blocked, en.where), "%s", firstVal(blocked))
		})
	}
	c.must(nlocks > 20, "typestate", "locks", "", "only %d lock acquisitions analysed", nlocks)
	// acyclic order
	var nodes []string
	for a := range edges {
		nodes = append(nodes, a)
	}
	sort.Strings(nodes)
	for _, a := range nodes {
		var path []string
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			for y, w := range edges[x] {
				if y == a {
					path = append(path, y+" at "+w)
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						path = append(path, y+" at "+w)
						return true
					}
				}
			}
			return false
		}
		cyc := dfs(a)
		c.must(!cyc, "order", a, "", "locks are acquired in a cycle: %s", strings.Join(path, " <- "))
	}
	c.notes = append(c.notes, fmt.Sprintf("lock order edges: %v", edges))
}

func firstKey(m map[string]string, d string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return d
	}
	sort.Strings(ks)
	return ks[0]
}

func firstVal(m map[string]string) string { return m[firstKey(m, "")] }

// ---- C13 ----

func checkC13(c *Check) {
	e := c.e
	where := "internal/storage/device_cache.go"
	find := func(st *State, m string, key *Term) []devView { return c.lookupDevice(st, m, key) }
	// storing
	c.guard("store", "CacheDevice", where, func() {
		r := c.registries()
		st := e.newState()
		cache := c.deviceCache(st)
		d := Sym("dev", ptrTo(r.devT))
		e.nonNil(st, d)
		f := c.devFields(st, d, r.devT)
		fn := e.needMethod(pStore, "DeviceCache", "CacheDevice")
		n := 0
		for _, o := range c.run(st, fn, cache, d) {
			if !c.must(o.kind == outRet, "store", "CacheDevice", c.fnAt(fn), "storing ends by %s", o.why) {
				continue
			}
			n++
			var ep []int
			for _, ev := range c.regEvents(o.st, r, "mapset") {
				ep = append(ep, ev.Epoch)
				c.must(len(ev.Locks) > 0 && ev.Epoch == ep[0], "store", "one critical section", c.at(ev.Pos), "the two indexes are not updated in one critical section")
			}
			for _, q := range []struct {
				m   string
				key *Term
			}{{"GetDeviceByPhone", f["Phone"]}, {"GetDeviceByPlate", f["Plate"]}} {
				for _, v := range find(o.st, q.m, q.key) {
					if !c.must(v.found, "store", q.m, c.fnAt(fn), "a stored device is not found by %s", q.m) {
						continue
					}
					g := c.devFields(v.st, v.rec, r.devT)
					for k := range f {
						c.must(sameTerm(v.st, g[k], f[k]), "stored-record", k+" "+q.m, c.fnAt(fn), "the device found has %s = %s, stored %s", k, g[k], f[k])
					}
				}
			}
			// other keys are not disturbed
			for _, q := range []struct {
				m   string
				own *Term
				mp  *Term
			}{{"GetDeviceByPhone", f["Phone"], r.phone}, {"GetDeviceByPlate", f["Plate"], r.plate}} {
				k2 := Sym("otherkey", types.Typ[types.String])
				s2 := o.st.clone()
				s2.assume(Not(eqStr(q.own, k2, s2)))
				has := mk(Term{K: KHas, A: []*Term{q.mp, k2, Int(0)}})
				for _, v := range find(s2, q.m, k2) {
					d := v.st.decide(has)
					c.must(d != 0 && (d == 1) == v.found, "store-others", q.m, c.fnAt(fn), "storing one device changes the entry of another key")
				}
			}
			for _, ev := range c.regEvents(o.st, r, "mapdel") {
				c.fail("store-others", "CacheDevice", c.at(ev.Pos), "storing a device removes an entry")
			}
		}
		c.must(n > 0, "store", "CacheDevice", c.fnAt(fn), "no outcome")
	})
	// removal by either key
	for _, dl := range []struct{ m, key string }{{"DelDeviceByPhone", "phone"}, {"DelDeviceByCarPlate", "plate"}} {
		c.guard("remove", dl.m, where, func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			fn := e.needMethod(pStore, "DeviceCache", dl.m)
			st := e.newState()
			cache := c.deviceCache(st)
			key := Sym("key", types.Typ[types.String])
			mp, om, getOwn, getOther := r.phone, r.plate, "GetDeviceByPhone", "GetDeviceByPlate"
			if dl.key == "plate" {
				mp, om, getOwn, getOther = r.plate, r.phone, "GetDeviceByPlate", "GetDeviceByPhone"
			}
			rec := mk(Term{K: KGet, A: []*Term{mp, key, Int(0)}, T: ptrTo(r.devT)})
			of := map[string]string{"phone": "Plate", "plate": "Phone"}[dl.key]
			okey := st.get(rec, r.devT, of)
			pre := st.clone()
			_ = pre
			has := mk(Term{K: KHas, A: []*Term{mp, key, Int(0)}})
			n, m := 0, 0
			for _, o := range c.run(st, fn, cache, key) {
				if !c.must(o.kind == outRet, "remove", dl.m, c.fnAt(fn), "removal ends by %s", o.why) {
					continue
				}
				switch o.st.decide(has) {
				case -1:
					m++
					c.must(len(effectsOf(o.st.events, nil)) == 0, "remove-absent", dl.m, c.fnAt(fn), "removing an absent device changes the registry")
				case 1:
					n++
					for _, v := range find(o.st, getOwn, key) {
						c.must(!v.found, "remove", dl.m+" own index", c.fnAt(fn), "a removed device is still found by %s", dl.key)
					}
					for _, v := range find(o.st, getOther, okey) {
						c.must(!v.found, "remove", dl.m+" other index", c.fnAt(fn), "a device removed by %s is still found by %s", dl.key, of)
					}
					ep := -1
					for _, ev := range c.regEvents(o.st, r, "mapdel") {
						if ep < 0 {
							ep = ev.Epoch
						}
						c.must(len(ev.Locks) > 0 && ev.Epoch == ep, "remove", dl.m+" one critical section", c.at(ev.Pos), "the two indexes are not updated in one critical section")
						k := ev.Args[1]
						c.must(ev.Args[0] == mp && sameTerm(o.st, k, key) || ev.Args[0] == om && sameTerm(o.st, k, okey), "remove-others", dl.m, c.at(ev.Pos), "key %s of another device is removed", k)
					}
					c.must(len(c.regEvents(o.st, r, "mapset")) == 0, "remove-others", dl.m+" store", c.fnAt(fn), "removal stores an entry")
				default:
					c.fail("remove", dl.m, c.fnAt(fn), "removal does not look the device up by %s", dl.key)
				}
			}
			c.must(n > 0 && m > 0, "remove", dl.m, c.fnAt(fn), "no outcome for a present or an absent device")
		})
	}
	// membership tests agree with lookups
	for _, h := range []struct{ m, get string }{{"HasPhone", "phone"}, {"HasPlate", "plate"}} {
		c.guard("member", h.m, where, func() {
			r := c.registries()
			mp := r.phone
			if h.get == "plate" {
				mp = r.plate
			}
			fn := e.needMethod(pStore, "DeviceCache", h.m)
			st := e.newState()
			key := Sym("key", types.Typ[types.String])
			cache := c.deviceCache(st)
			// stored values are never nil (the only insertion dereferences the record)
			e.nonNil(st, mk(Term{K: KGet, A: []*Term{mp, key, Int(0)}, T: ptrTo(r.devT)}))
			has := mk(Term{K: KHas, A: []*Term{mp, key, Int(0)}})
			n := 0
			for _, o := range c.run(st, fn, cache, key) {
				n++
				d := o.st.decide(has)
				c.must(o.kind == outRet && d != 0 && o.st.decide(o.vals[0]) == d, "member", h.m, c.fnAt(fn), "%s disagrees with the index", h.m)
			}
			c.must(n > 0, "member", h.m, c.fnAt(fn), "no outcome")
		})
	}
	// lookups answer from their own index, with the not-found error otherwise
	for _, g := range []struct{ m, k string }{{"GetDeviceByPhone", "phone"}, {"GetDeviceByPlate", "plate"}} {
		c.guard("lookup", g.m, where, func() {
			r := c.registries()
			mp := r.phone
			if g.k == "plate" {
				mp = r.plate
			}
			fn := e.needMethod(pStore, "DeviceCache", g.m)
			st := e.newState()
			key := Sym("key", types.Typ[types.String])
			cache := c.deviceCache(st)
			has := mk(Term{K: KHas, A: []*Term{mp, key, Int(0)}})
			rec := mk(Term{K: KGet, A: []*Term{mp, key, Int(0)}, T: ptrTo(r.devT)})
			e.nonNil(st, rec)
			old := c.devFields(st, rec, r.devT)
			n := 0
			for _, o := range c.run(st, fn, cache, key) {
				n++
				switch o.st.decide(has) {
				case 1:
					if !c.must(o.kind == outRet && isNil(o.vals[1]), "lookup", g.m+" present", c.fnAt(fn), "a stored device is not returned") {
						continue
					}
					f := c.devFields(o.st, o.vals[0], r.devT)
					for k := range old {
						c.must(sameTerm(o.st, f[k], old[k]), "lookup", g.m+" "+k, c.fnAt(fn), "lookup returns %s = %s, stored %s", k, f[k], old[k])
					}
				case -1:
					c.must(o.kind == outRet && c.errIs(o.st, o.vals[1], pStore, "ErrDeviceNotFound"), "lookup", g.m+" absent", c.fnAt(fn), "an absent device does not yield the not-found error")
				default:
					c.fail("lookup", g.m, c.fnAt(fn), "the lookup does not consult its index")
				}
			}
			c.must(n > 1, "lookup", g.m, c.fnAt(fn), "no outcome")
		})
	}
	// every record a message or the supervision job stores for a registered
	// terminal keeps its keys
	check := func(inst string, outs []callRes, r *registries, pw string) {
		for _, o := range outs {
			if o.kind != outRet {
				continue
			}
			for _, ev := range c.regEvents(o.st, r, "mapset") {
				v, k := ev.Args[2], ev.Args[1]
				fk := "Phone"
				if ev.Args[0] == r.plate {
					fk = "Plate"
				}
				c.must(sameTerm(o.st, o.st.get(v, r.devT, fk), k), "own-key", inst, c.at(ev.Pos), "a record is stored under %s but its %s is %s afterwards", k, fk, o.st.get(v, r.devT, fk))
			}
			// both indexes name the same record
			var ph, pl []*Event
			for _, ev := range c.regEvents(o.st, r, "mapset") {
				if ev.Args[0] == r.phone {
					ph = append(ph, ev)
				} else {
					pl = append(pl, ev)
				}
			}
			if c.must(len(ph) == len(pl), "both-indexes", inst, pw, "%d phone and %d plate entries are written", len(ph), len(pl)) {
				for i := range ph {
					c.must(ph[i].Args[2] == pl[i].Args[2], "both-indexes", inst, c.at(ph[i].Pos), "the two indexes are given different records")
					// a record replacing a registered one keeps the plate it is indexed by
					rec := mk(Term{K: KGet, A: []*Term{r.phone, ph[i].Args[1], Int(0)}, T: ptrTo(r.devT)})
					if o.st.decide(mk(Term{K: KHas, A: []*Term{r.phone, ph[i].Args[1], Int(0)}})) == 1 {
						c.must(sameTerm(o.st, pl[i].Args[1], e.newState().get(rec, r.devT, "Plate")), "plate-kept", inst, c.at(pl[i].Pos), "the plate of a registered device changes to %s, leaving its old index entry behind", pl[i].Args[1])
					}
				}
			}
			for _, ev := range o.st.events {
				if ev.Kind == "store" {
					b, codes, _ := splitPtr(ev.Args[0])
					if b.K == KGet && (b.A[0] == r.phone || b.A[0] == r.plate) && len(codes) == 1 {
						fi := int(codes[0])
						c.must(fi != fieldIdx(r.devT, "Phone") && fi != fieldIdx(r.devT, "Plate"), "own-key", inst, c.at(ev.Pos), "a key field of a stored record is overwritten in place")
					}
				}
			}
		}
		c.pass("own-key", inst, pw)
	}
	for _, en := range c.entries() {
		if !strings.HasPrefix(en.name, "process ") && en.name != "supervision job" && en.name != "http handlers" {
			continue
		}
		c.guard("own-key", en.name, en.where, func() {
			r := c.registries()
			check(en.name, en.run(), r, en.where)
		})
	}
}
