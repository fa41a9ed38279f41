package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pModel = "internal/protocol/model"
	pProto = "internal/protocol"
	pStore = "internal/storage"
	pServ  = "internal/server"
	pAPI   = "internal/api"
	pHex   = "internal/codec/hex"
	pRing  = "pkg/container"
)

// field gives the index of a (possibly unique) field of struct t.
func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		giveUp("%s is not a struct", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	giveUp("anchor not found: field %s of %s", name, t)
	return -1
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// path resolves a dotted field path, following embedded fields by name.
func (s *State) fieldPtr(p *Term, t types.Type, dotted string) (*Term, types.Type) {
	parts := strings.Split(dotted, ".")
	cur := t
	if pp, ok := cur.Underlying().(*types.Pointer); ok {
		cur = pp.Elem()
	}
	for i, n := range parts {
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			giveUp("anchor not found: %s in %s", dotted, t)
		}
		k := -1
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == n {
				k = j
			}
		}
		if k < 0 {
			// promoted field
			obj, idx, _ := types.LookupFieldOrMethod(cur, true, s.e.byPath[modPath+"/"+pModel].Pkg, n)
			v, ok := obj.(*types.Var)
			if !ok {
				giveUp("anchor not found: field %s of %s", n, cur)
			}
			for _, j := range idx[:len(idx)-1] {
				p = FieldPtr(p, j)
				cur = structOf(cur).Field(j).Type()
				if pp, ok := cur.Underlying().(*types.Pointer); ok {
					p = s.load(p, cur)
					cur = pp.Elem()
				}
			}
			k = idx[len(idx)-1]
			st = structOf(cur)
			_ = v
		}
		p = FieldPtr(p, k)
		cur = st.Field(k).Type()
		if i < len(parts)-1 {
			if pp, ok := cur.Underlying().(*types.Pointer); ok {
				p = s.load(p, cur)
				cur = pp.Elem()
			}
		}
	}
	return p, cur
}

// get reads a dotted field path from the object p points to.
func (s *State) get(p *Term, t types.Type, dotted string) *Term {
	fp, ft := s.fieldPtr(p, t, dotted)
	return s.load(fp, ft)
}

func (s *State) set(p *Term, t types.Type, dotted string, v *Term) {
	fp, ft := s.fieldPtr(p, t, dotted)
	s.store(fp, v, ft)
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (e *Engine) needFn(rel, name string) *ssa.Function {
	f := e.fn(rel, name)
	if f == nil {
		giveUp("anchor not found: function %s.%s", rel, name)
	}
	return f
}

func (e *Engine) needMethod(rel, t, name string) *ssa.Function {
	f := e.method(rel, t, name)
	if f == nil {
		giveUp("anchor not found: method %s.%s.%s", rel, t, name)
	}
	return f
}

func (e *Engine) needTyp(rel, name string) types.Type {
	t := e.typ(rel, name)
	if t == nil {
		giveUp("anchor not found: type %s.%s", rel, name)
	}
	return t
}

// processor interprets the exported constructor of the message processor with
// one-time initialisation taken.
func (e *Engine) processor() (*State, *Term) {
	st := e.newState()
	e.execOnce = true
	outs := e.call(st, e.needFn(pProto, "NewJT808MsgProcessor"), nil, nil, nil)
	e.execOnce = false
	for _, o := range outs {
		if o.kind == outRet && len(o.vals) == 1 {
			return o.st, o.vals[0]
		}
	}
	giveUp("processor constructor yields no value")
	return nil, nil
}

func (e *Engine) nonNil(st *State, t *Term) { st.assume(Not(mkEqNil(t))) }

type packet struct {
	pkt, hdr, attr *Term
	phone          *Term
	body           *Term
	serial         *Term
	id             int64
}

// newPacket makes a symbolic decoded packet with a given message id.
func (e *Engine) newPacket(st *State, id int64) packet {
	pdT := e.needTyp(pModel, "PacketData")
	hT := e.needTyp(pModel, "MsgHeader")
	var p packet
	p.id = id
	p.pkt = Sym("packet", ptrTo(pdT))
	e.nonNil(st, p.pkt)
	p.hdr = st.get(p.pkt, ptrTo(pdT), "Header")
	e.nonNil(st, p.hdr)
	p.attr = st.get(p.hdr, ptrTo(hT), "Attr")
	e.nonNil(st, p.attr)
	p.phone = st.get(p.hdr, ptrTo(hT), "PhoneNumber")
	p.serial = st.get(p.hdr, ptrTo(hT), "SerialNumber")
	p.body = st.get(p.pkt, ptrTo(pdT), "Body")
	if id >= 0 {
		st.set(p.hdr, ptrTo(hT), "MsgID", Int(id))
	}
	return p
}

// ctxWithSession makes a context carrying a symbolic session.
func (e *Engine) ctxWithSession(st *State) (ctx, sess *Term) {
	sT := e.needTyp(pModel, "Session")
	kT := e.needTyp(pModel, "SessionCtxKey")
	sess = Sym("session", ptrTo(sT))
	e.nonNil(st, sess)
	ctx = mk(Term{K: KCtx, A: []*Term{Sym("background", nil), mk(Term{K: KIface, T: kT, A: []*Term{Struct(kT, nil)}}), mk(Term{K: KIface, T: ptrTo(sT), A: []*Term{sess}})}})
	return
}

func dumpOuts(e *Engine, outs []Out) {
	for _, o := range outs {
		fmt.Printf(" kind=%d why=%s vals=%v\n   facts: %s\n", o.kind, o.why, o.vals, o.st.factsString())
		for _, ev := range o.st.events {
			fmt.Println("   ev:", ev, "locks", ev.Locks, "ep", ev.Epoch, e.pos(ev.Pos))
		}
	}
}
