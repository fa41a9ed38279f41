package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Path-sensitive analysis of every HTTP route the router registers: on each path the requests that cannot be served end in exactly one error response and send nothing, the others send exactly one message built from the addressed device or return the stored data.", 20, checkC23)
}

const ginCtx = "(*github.com/gin-gonic/gin.Context)."

// one path through a handler
type httpOut struct {
	callRes
	resp    []*Event // responses written: Args[0]=status, Args[1]=body
	sends   []*Event // TCPServer.Send: Args = serv, id, msg
	bindErr bool
	bound   *Term // target of a successful bind
}

type httpCase struct {
	name  string
	prep  func(st *State, phone *Term) // state before the request
	phone *Term
}

// httpHook models gin's context and the message sender.
func (c *Check) httpHook(phone *Term) func(*Engine, *State, string, []*Term, ssa.CallInstruction) ([]callRes, bool) {
	e := c.e
	send := e.needMethod(pServ, "TCPServer", "Send")
	respond := func(st *State, code, body *Term, ci ssa.CallInstruction) {
		st.emit(&Event{Kind: stageKind, Name: "respond", Args: []*Term{code, body}, Pos: ci.Pos()})
	}
	return func(_ *Engine, st *State, name string, args []*Term, ci ssa.CallInstruction) ([]callRes, bool) {
		if name == send.String() {
			st.emit(&Event{Kind: stageKind, Name: "Send", Args: args, Pos: ci.Pos()})
			return ret1(st, Nil), true
		}
		if !strings.HasPrefix(name, ginCtx) {
			return nil, false
		}
		m := strings.TrimPrefix(name, ginCtx)
		switch {
		case m == "Param":
			if args[1] == StrC("phone") {
				return ret1(st, phone), true
			}
			return ret1(st, StrC("")), true
		case strings.HasPrefix(m, "ShouldBind"), strings.HasPrefix(m, "Bind"), m == "MustBindWith":
			bad := st.clone()
			elsewhere := false // bound from something other than the body
			for _, k := range []string{"Query", "Uri", "Header"} {
				elsewhere = elsewhere || strings.HasSuffix(m, k) || len(args) > 2 && strings.Contains(args[2].String(), "binding."+k)
			}
			if args[1].K == KIface {
				p := args[1].A[0]
				if pt, ok := args[1].T.Underlying().(*types.Pointer); ok {
					from := "bound"
					if elsewhere {
						from = "bound-elsewhere"
					}
					c.havocField(st, p, pt.Elem(), from)
					c.havocField(bad, p, pt.Elem(), "badbound")
				}
				st.emit(&Event{Kind: stageKind, Name: "bind", Args: []*Term{p}, Pos: ci.Pos()})
			}
			bad.emit(&Event{Kind: stageKind, Name: "bind-err", Pos: ci.Pos()})
			if !strings.HasPrefix(m, "Should") {
				respond(bad, Int(400), Nil, ci)
			}
			er := Sym("err:bind", nil)
			e.nonNil(bad, er)
			return []callRes{{st: st, val: Nil}, {st: bad, val: er}}, true
		}
		// anything that writes a response takes the status first
		switch m {
		case "JSON", "IndentedJSON", "PureJSON", "SecureJSON", "AsciiJSON", "JSONP", "XML", "YAML", "String", "Data", "HTML", "Redirect",
			"AbortWithStatusJSON", "AbortWithStatus", "AbortWithError", "Status":
			body := Nil
			if len(args) > 2 {
				body = args[2]
			}
			respond(st, args[1], body, ci)
			if ci.Value() != nil && ci.Common().Signature().Results().Len() > 0 {
				return ret1(st, e.fresh(name, sigType(ci.Common().Signature()), args...)), true
			}
			return ret1(st, Nil), true
		case "Abort":
			return ret1(st, Nil), true
		}
		return nil, false
	}
}

func (c *Check) httpRun(h handler, r *registries, phone *Term, prep func(st *State)) []httpOut {
	e := c.e
	h.st = h.st.clone()
	if prep != nil {
		prep(h.st)
	}
	rs, _, _ := c.runHandler(h, c.httpHook(phone))
	var out []httpOut
	for _, x := range rs {
		o := httpOut{callRes: x}
		for _, ev := range x.st.events {
			if ev.Kind != stageKind {
				continue
			}
			switch ev.Name {
			case "respond":
				o.resp = append(o.resp, ev)
			case "Send":
				o.sends = append(o.sends, ev)
			case "bind-err":
				o.bindErr = true
			case "bind":
				o.bound = ev.Args[0]
			}
		}
		out = append(out, o)
	}
	_ = e
	return out
}

func (c *Check) has(m, k *Term) *Term { return mk(Term{K: KHas, A: []*Term{m, k, Int(0)}}) }

// routes maps "METHOD path" to the last handler registered for it.
func (c *Check) routes() (map[string]handler, []string) {
	m := map[string]handler{}
	var keys []string
	for _, h := range c.httpHandlers() {
		k := h.method + " " + h.path
		if _, ok := m[k]; !ok {
			keys = append(keys, k)
		}
		m[k] = h
	}
	sort.Strings(keys)
	return m, keys
}

var documentedRoutes = []string{"GET /device", "GET /device/:phone/geo", "GET /device/:phone/params", "PUT /device/:phone/params"}

type sentMsg struct {
	st        *State
	hdr, sess *Term
}

type sendingHandler struct {
	silent      []*State
	name, where string
	sends       []sentMsg
}

// sendingHandlers runs the HTTP requests that make the platform send a message.
func (c *Check) sendingHandlers() []sendingHandler {
	e := c.e
	r := c.registries()
	c.assumeIndexInvariant(r)
	ms, keys := c.routes()
	var out []sendingHandler
	phone := Sym("phone", types.Typ[types.String])
	for _, k := range keys {
		h := ms[k]
		sh := sendingHandler{name: k, where: h.pos}
		for _, o := range c.httpRun(h, r, phone, nil) {
			if len(o.sends) == 0 {
				sh.silent = append(sh.silent, o.st)
			}
			for _, s := range o.sends {
				_, msg, mt := c.dyn(o.st, s.Args[2])
				rec := mk(Term{K: KGet, A: []*Term{r.phone, phone, Int(0)}, T: ptrTo(r.devT)})
				sid := e.newState().get(rec, r.devT, "SessionID")
				sess := mk(Term{K: KGet, A: []*Term{r.sess, sid, Int(0)}, T: ptrTo(r.sessT)})
				sh.sends = append(sh.sends, sentMsg{o.st, o.st.get(msg, mt, "Header"), sess})
			}
		}
		if len(sh.sends)+len(sh.silent) > 0 {
			out = append(out, sh)
		}
	}
	return out
}

func checkC23(c *Check) {
	e := c.e
	var ms map[string]handler
	var keys []string
	c.guard("routes", "table", "internal/api/api.go", func() { ms, keys = c.routes() })
	for _, k := range documentedRoutes {
		h, ok := ms[k]
		c.must(ok, "routes", k, or2(h.pos, "internal/api/api.go"), "the route %s is not registered", k)
	}
	for _, k := range keys {
		if !strings.HasPrefix(k, "GET ") && !contains(documentedRoutes, k) {
			// a further route that changes something would need its own rule
			c.pass("routes", "extra "+k, ms[k].pos)
		}
	}
	phone := Sym("phone", types.Typ[types.String])
	// never panics; an error answers once and sends nothing
	failure := func(inst, why string, o httpOut, where string) {
		n := 0
		for _, x := range o.resp {
			if x.Args[0].K == KInt && x.Args[0].I >= 400 {
				n++
			}
		}
		c.must(n == 1 && len(o.resp) == 1, "error-answered", inst, where, "%s: %d error responses in %d responses", why, n, len(o.resp))
		c.must(len(o.sends) == 0, "error-silent", inst, where, "%s, and still a message is sent", why)
	}
	okOnly := func(o httpOut) bool {
		for _, x := range o.resp {
			if x.Args[0].K != KInt || x.Args[0].I >= 300 || x.Args[0].I < 200 {
				return false
			}
		}
		return len(o.resp) <= 1
	}

	// GET /device
	if h, ok := ms["GET /device"]; ok {
		var lens []int
		for n := 0; n <= depth(c, 3, 5); n++ {
			lens = append(lens, n)
		}
		c.guard("list", "lengths", h.pos, func() {
			fns := []*ssa.Function{e.needMethod(pStore, "DeviceCache", "ListDevice")}
			if g, ok := h.fn.P.(*ssa.Function); ok {
				fns = append(fns, g)
			}
			lens = append(lens, c.mined(6, 1100, fns...)...)
			lens = append(lens, 50)
		})
		for _, n := range lens {
			inst := fmt.Sprintf("list of %d", n)
			c.guard("list", inst, h.pos, func() {
				r := c.registries()
				e.forceUnroll = n + 3
				e.sortAny = true // a map is listed in any order
				var keys, recs []*Term
				outs := c.httpRun(h, r, phone, func(st *State) {
					m := &MapState{fresh: true}
					for i := 0; i < n; i++ {
						k := StrC(fmt.Sprintf("1330000%04d", i))
						rec := Sym(fmt.Sprintf("dev%d", i), ptrTo(r.devT))
						e.nonNil(st, rec)
						keys, recs = append(keys, k), append(recs, rec)
						m.writes = append(m.writes, mapWrite{k, rec})
					}
					st.maps[r.phone] = m
				})
				for _, o := range outs {
					if !c.must(o.kind == outRet, "list", inst, h.pos, "listing ends by %s", o.why) {
						continue
					}
					if !c.must(len(o.resp) == 1 && okOnly(o), "list", inst, h.pos, "%d responses", len(o.resp)) {
						continue
					}
					body := o.resp[0].Args[1]
					var elems []*Term
					good := false
					if body.K == KIface {
						elems, good = listElems(o.st, body.A[0])
					}
					if !c.must(good && len(elems) == n, "list", inst, h.pos, "%d devices are listed (%s)", len(elems), body) {
						continue
					}
					byPhone := map[*Term][]map[string]*Term{}
					for _, el := range elems {
						got := c.devFields(o.st, el, r.devT)
						byPhone[got["Phone"]] = append(byPhone[got["Phone"]], got)
					}
					for i, rec := range recs {
						cnt := 0
						want := c.devFields(o.st, rec, r.devT)
						for _, got := range byPhone[want["Phone"]] {
							same := true
							for f, v := range want {
								if !sameTerm(o.st, v, got[f]) {
									same = false
								}
							}
							if same {
								cnt++
							}
						}
						c.must(cnt == 1, "list", inst, h.pos, "device %d appears %d times in the listing", i, cnt)
					}
				}
				c.must(len(outs) > 0, "list", inst, h.pos, "no outcome")
			})
		}
	}

	// GET /device/:phone/geo
	if h, ok := ms["GET /device/:phone/geo"]; ok {
		geoT := e.needTyp(pModel, "DeviceGeo")
		for _, n := range []int{0, 1, 2, 3} {
			inst := fmt.Sprintf("position after %d reports", n)
			c.guard("position", inst, h.pos, func() {
				r := c.registries()
				c.assumeIndexInvariant(r)
				e.forceUnroll, e.seqAtomics = 120, true
				var last *Term
				outs := c.httpRun(h, r, phone, func(st *State) {
					st.maps[r.geo] = &MapState{fresh: true}
					for i := 0; i < n; i++ {
						last = Sym(fmt.Sprintf("geo%d", i), ptrTo(geoT))
						e.nonNil(st, last)
						c.writeGeo(st, phone, mk(Term{K: KIface, A: []*Term{last}, T: ptrTo(geoT)}))
					}
				})
				okPaths, errPaths := 0, 0
				for _, o := range outs {
					if !c.must(o.kind == outRet, "position", inst, h.pos, "the query ends by %s", o.why) {
						continue
					}
					known := o.st.decide(c.has(r.phone, phone))
					conv := false
					for _, ev := range callsNamed(o.st, "mapstructure.Decode") {
						_ = ev
						conv = true
					}
					isErr := len(o.resp) == 1 && o.resp[0].Args[0].K == KInt && o.resp[0].Args[0].I >= 400
					switch {
					case known == -1:
						errPaths++
						failure(inst, "the device is not registered", o, h.pos)
					case n == 0:
						errPaths++
						failure(inst, "there is no position", o, h.pos)
					case isErr && conv && c.decodeFailed(o.st):
						failure(inst, "the record cannot be converted", o, h.pos)
					default:
						okPaths++
						if !c.must(known == 1, "position", inst, h.pos, "answers without looking the device up") {
							continue
						}
						if !c.must(len(o.resp) == 1 && okOnly(o), "position", inst, h.pos, "%d responses (%s)", len(o.resp), respStr(o)) {
							continue
						}
						b := o.resp[0].Args[1]
						found := false
						if b.K == KIface {
							found = c.mentions(o.st, b.A[0], last)
						}
						c.must(found, "position", inst, h.pos, "the answer does not hold the newest position")
						c.must(len(o.sends) == 0, "position", inst, h.pos, "a position query sends a message")
					}
				}
				c.must(errPaths > 0, "position", inst, h.pos, "no refused path")
				c.must(n == 0 || okPaths > 0, "position", inst, h.pos, "no answered path")
			})
		}
	}

	// GET and PUT /device/:phone/params
	for _, q := range []struct {
		key, msg string
		id       int64
	}{{"GET /device/:phone/params", "Msg8104", 0x8104}, {"PUT /device/:phone/params", "Msg8103", 0x8103}} {
		h, ok := ms[q.key]
		if !ok {
			continue
		}
		put := strings.HasPrefix(q.key, "PUT")
		c.guard("command", q.key, h.pos, func() {
			r := c.registries()
			c.assumeIndexInvariant(r)
			hT := e.needTyp(pModel, "MsgHeader")
			rec := mk(Term{K: KGet, A: []*Term{r.phone, phone, Int(0)}, T: ptrTo(r.devT)})
			sid := e.newState().get(rec, r.devT, "SessionID")
			seen := map[string]int{}
			for _, o := range c.httpRun(h, r, phone, nil) {
				if !c.must(o.kind == outRet, "command", q.key, h.pos, "the request ends by %s", o.why) {
					continue
				}
				dev, ses := o.st.decide(c.has(r.phone, phone)), o.st.decide(c.has(r.sess, sid))
				switch {
				case put && o.bindErr:
					seen["bind"]++
					failure(q.key+" malformed", "the request cannot be parsed", o, h.pos)
				case dev == -1:
					seen["dev"]++
					failure(q.key+" unknown device", "the device is not registered", o, h.pos)
				case dev == 1 && ses == -1:
					seen["sess"]++
					failure(q.key+" no connection", "the device has no connection", o, h.pos)
				case dev != 1 || ses != 1:
					c.fail("command", q.key, h.pos, "a path serves the request without looking up the device and its connection")
				default:
					seen["ok"]++
					c.must(okOnly(o), "command", q.key, h.pos, "a served request is answered %s", respStr(o))
					if !c.must(len(o.sends) == 1, "command", q.key, h.pos, "%d messages are sent", len(o.sends)) {
						continue
					}
					s := o.sends[0]
					c.must(sameTerm(o.st, s.Args[1], sid), "command", q.key+" connection", c.at(s.Pos), "sent on connection %s, not the device's", s.Args[1])
					tn, msg, mt := c.dyn(o.st, s.Args[2])
					if !c.must(tn == q.msg, "command", q.key+" message", c.at(s.Pos), "sends %s, not %s", tn, q.msg) {
						continue
					}
					hdr := o.st.get(msg, mt, "Header")
					c.must(sameTerm(o.st, o.st.get(hdr, hT, "MsgID"), Int(q.id)), "command", q.key+" id", c.at(s.Pos), "the header carries message id %s", o.st.get(hdr, hT, "MsgID"))
					c.must(sameTerm(o.st, o.st.get(hdr, hT, "PhoneNumber"), phone), "command", q.key+" phone", c.at(s.Pos), "the header carries phone %s", o.st.get(hdr, hT, "PhoneNumber"))
					c.must(sameTerm(o.st, o.st.get(hdr, hT, "ProtocolVersion"), e.newState().get(rec, r.devT, "ProtocolVersion")), "command", q.key+" version", c.at(s.Pos), "the header carries version %s", o.st.get(hdr, hT, "ProtocolVersion"))
					if put {
						if c.must(o.bound != nil, "command", q.key+" parameters", c.at(s.Pos), "the request body is not read") {
							pT := e.needTyp(pModel, "DeviceParams")
							got := o.st.get(msg, mt, "Parameters")
							for f, v := range c.devFields(o.st, got, pT) {
								c.must(sameTerm(o.st, v, Sym("bound."+f, v.T)) || strings.HasPrefix(v.String(), "bound."+f), "command", q.key+" parameters", c.at(s.Pos), "field %s of the parameters sent is %s, not the requested one", f, v)
							}
						}
					}
				}
			}
			for _, k := range []string{"bind", "dev", "sess", "ok"} {
				if k == "bind" && !put {
					continue
				}
				c.must(seen[k] > 0, "command", q.key+" "+k, h.pos, "no path for this outcome")
			}
		})
	}
}

func or2(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func respStr(o httpOut) string {
	var s []string
	for _, r := range o.resp {
		s = append(s, r.Args[0].String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func listElems(st *State, v *Term) ([]*Term, bool) {
	if isNil(v) {
		return nil, true
	}
	q := st.seqOfSlice(v)
	var out []*Term
	for _, s := range q.A {
		if s.K != KSElem {
			return nil, false
		}
		out = append(out, s.A[0])
	}
	return out, true
}

// decodeFailed: the path on which converting the record reports an error.
func (c *Check) decodeFailed(st *State) bool {
	for _, ev := range callsNamed(st, "mapstructure.Decode") {
		if ev.Res != nil && st.isNilNow(ev.Res) {
			return false
		}
	}
	return true
}

// mentions: v, or a value stored in v (map or struct), is the wanted one.
func (c *Check) mentions(st *State, v, want *Term) bool {
	if v == want {
		return true
	}
	if v.K == KIface {
		return c.mentions(st, v.A[0], want)
	}
	if ms, ok := st.maps[v]; ok {
		for i := len(ms.writes) - 1; i >= 0; i-- {
			if w := ms.writes[i]; w.val != nil && c.mentions(st, w.val, want) {
				return true
			}
		}
	}
	if o := st.heap[v]; o != nil {
		for _, x := range o.cells {
			if x == want || x.K == KIface && x.A[0] == want {
				return true
			}
		}
	}
	return false
}

// writeGeo appends a position to the history of a phone through the storage API.
func (c *Check) writeGeo(st *State, phone, v *Term) {
	e := c.e
	cache := c.geoCache(st)
	outs := c.run(st, e.needMethod(pStore, "GeoCache", "GetGeoRingByPhone"), cache, phone)
	if len(outs) != 1 || outs[0].kind != outRet {
		giveUp("the position history of a phone is not found deterministically")
	}
	rb := outs[0].vals[0]
	e.nonNil(outs[0].st, rb)
	outs = c.run(outs[0].st, e.needMethod(pRing, "RingBuffer", "Write"), rb, v)
	if len(outs) != 1 || outs[0].kind != outRet {
		giveUp("writing a position ends by %s", outs[0].why)
	}
	*st = *outs[0].st
}
