package main

// Model of golang/protobuf v1.3.1 Marshal/Unmarshal for generated proto2
// message structs. The message layout is read from the struct tags of the
// tree under test; the wire format is the real one.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type pfield struct {
	tag  int
	kind string // varint, fixed64, bytes, msg
	off  int
	t    types.Type
	rep  bool
	sub  types.Type // struct type of a message field
}

type pdesc struct {
	fields  []pfield
	unrec   int // slot of XXX_unrecognized or -1
	n       int
	st      types.Type
	badness string
}

var (
	pdMu sync.Mutex
	pds  = map[types.Type]*pdesc{}
)

func protoDesc(st types.Type) *pdesc {
	pdMu.Lock()
	defer pdMu.Unlock()
	if d := pds[st]; d != nil {
		return d
	}
	u := st.Underlying().(*types.Struct)
	l := layout(st)
	d := &pdesc{unrec: -1, n: l.n, st: st}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Name() == "XXX_unrecognized" {
			d.unrec = l.offs[i]
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		p := strings.Split(tag, ",")
		n, _ := strconv.Atoi(p[1])
		pf := pfield{tag: n, kind: p[0], off: l.offs[i], t: f.Type(), rep: p[2] == "rep"}
		if strings.Contains(tag, "proto3") || p[2] == "req" {
			d.badness = "unsupported field " + tag
		}
		ft := f.Type()
		if pf.rep {
			ft = ft.Underlying().(*types.Slice).Elem()
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				pf.kind = "msg"
				pf.sub = pt.Elem()
			}
		}
		if pf.rep && pf.kind != "msg" {
			d.badness = "unsupported repeated field " + tag
		}
		d.fields = append(d.fields, pf)
	}
	sort.Slice(d.fields, func(i, j int) bool { return d.fields[i].tag < d.fields[j].tag })
	pds[st] = d
	return d
}

func initProto(I map[string]Intrinsic) {
	const P = "github.com/golang/protobuf/proto."
	I[P+"Marshal"] = func(w *Worker, a []Value, fn *ssa.Function) Value {
		m := a[0].(Iface)
		nilb := Slice{esz: 1}
		if m.t == nil {
			return Tuple{nilb, w.mkErr("proto: Marshal called with nil")}
		}
		p := m.v.(Ptr)
		if p.obj == 0 {
			return Tuple{nilb, w.mkErr("proto: Marshal called with nil")}
		}
		st := m.t.Underlying().(*types.Pointer).Elem()
		out, err := w.pmarshal(p, st)
		if err != "" {
			return Tuple{nilb, w.mkErr(err)}
		}
		return Tuple{w.cur.newBytes(out), Iface{}}
	}
	I[P+"Unmarshal"] = func(w *Worker, a []Value, fn *ssa.Function) Value {
		b := w.argBytes(a[0])
		m := a[1].(Iface)
		if m.t == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		p := w.ptr(m.v)
		st := m.t.Underlying().(*types.Pointer).Elem()
		v, err := w.punmarshal(b, st, 0)
		// only now write (parsing may have forked)
		w.cur.store(p, st, v)
		if err != "" {
			return w.mkErr(err)
		}
		return Iface{}
	}
}

func (w *Worker) varint(x *Term) []*Term {
	T := w.T
	x = T.ZExt(x, 64)
	var out []*Term
	mx := T.umax(x)
	for i := 0; i < 10; i++ {
		sh := uint(7 * i)
		rest := T.LShr(x, T.Const(64, uint64(sh)))
		lo := T.Extract(rest, 6, 0)
		last := i == 9 || mx>>(sh) < 128
		if !last {
			last = w.decide(T.Ult(rest, T.Const(64, 128)))
		}
		if last {
			return append(out, T.Concat(T.Const(1, 0), lo))
		}
		out = append(out, T.Concat(T.Const(1, 1), lo))
	}
	return out
}

func (w *Worker) pmarshal(p Ptr, st types.Type) ([]*Term, string) {
	d := protoDesc(st)
	if d.badness != "" {
		panic(pathEnd{"unsupported", d.badness})
	}
	T := w.T
	s := w.cur
	slots := s.loadN(p, d.n)
	var out []*Term
	key := func(tag, wire int) {
		out = append(out, w.varint(T.Const(64, uint64(tag<<3|wire)))...)
	}
	for _, f := range d.fields {
		v := slots[f.off]
		switch {
		case f.kind == "msg" && f.rep:
			sl := v.(Slice)
			for i := 0; i < int(sl.len); i++ {
				q := s.obj(sl.obj).slots[int(sl.off)+i].(Ptr)
				if q.obj == 0 {
					return nil, "proto: repeated field has nil element"
				}
				b, err := w.pmarshal(q, f.sub)
				if err != "" {
					return nil, err
				}
				key(f.tag, 2)
				out = append(out, w.varint(T.Const(64, uint64(len(b))))...)
				out = append(out, b...)
			}
		case f.kind == "msg":
			q := v.(Ptr)
			if q.obj == 0 {
				continue
			}
			b, err := w.pmarshal(q, f.sub)
			if err != "" {
				return nil, err
			}
			key(f.tag, 2)
			out = append(out, w.varint(T.Const(64, uint64(len(b))))...)
			out = append(out, b...)
		case f.kind == "bytes":
			sl, ok := v.(Slice)
			if !ok {
				panic(pathEnd{"unsupported", "proto string field"})
			}
			if sl.obj == 0 {
				continue
			}
			b := s.bytesOf(sl)
			key(f.tag, 2)
			out = append(out, w.varint(T.Const(64, uint64(len(b))))...)
			out = append(out, b...)
		case f.kind == "varint":
			q := v.(Ptr)
			if q.obj == 0 {
				continue
			}
			et := f.t.Underlying().(*types.Pointer).Elem()
			x := s.loadN(q, 1)[0].(*Term)
			key(f.tag, 0)
			if x.w == 0 {
				out = append(out, T.Ite(x, T.bytes[1], T.bytes[0]))
			} else {
				if isSigned(et) {
					x = T.SExt(x, 64)
				}
				out = append(out, w.varint(x)...)
			}
		case f.kind == "fixed64" || f.kind == "fixed32":
			q := v.(Ptr)
			if q.obj == 0 {
				continue
			}
			x := s.loadN(q, 1)[0].(*Term)
			n := 8
			wire := 1
			if f.kind == "fixed32" {
				n, wire = 4, 5
			}
			key(f.tag, wire)
			for i := 0; i < n; i++ {
				out = append(out, T.Extract(x, 8*i+7, 8*i))
			}
		default:
			panic(pathEnd{"unsupported", "proto kind " + f.kind})
		}
	}
	if d.unrec >= 0 {
		out = append(out, s.bytesOf(slots[d.unrec].(Slice))...)
	}
	return out, ""
}

const eofErr = "unexpected EOF"

// pvarint decodes a varint; n==0 on malformed input.
func (w *Worker) pvarint(b []*Term) (*Term, int) {
	T := w.T
	x := T.Const(64, 0)
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return nil, 0
		}
		y := T.ZExt(b[i], 64)
		if i == 9 {
			// the tenth byte may only carry the topmost bit
			if !w.decide(T.Ult(b[i], T.bytes[2])) {
				return nil, 0
			}
			return T.BOr(x, T.Shl(y, T.Const(64, 63))), 10
		}
		lo := T.Concat(T.Const(57, 0), T.Extract(b[i], 6, 0))
		x = T.BOr(x, T.Shl(lo, T.Const(64, uint64(7*i))))
		if w.decide(T.Ult(b[i], T.bytes[128])) {
			return x, i + 1
		}
	}
	return nil, 0
}

func (w *Worker) pskip(b []*Term, wire int) ([]*Term, string) {
	switch wire {
	case 0:
		_, k := w.pvarint(b)
		if k == 0 {
			return b, eofErr
		}
		return b[k:], ""
	case 5:
		if len(b) < 4 {
			return b, eofErr
		}
		return b[4:], ""
	case 1:
		if len(b) < 8 {
			return b, eofErr
		}
		return b[8:], ""
	case 2:
		m, k := w.pvarint(b)
		if k == 0 {
			return b, eofErr
		}
		if w.decide(w.T.Ult(w.T.Const(64, uint64(len(b)-k)), m)) {
			return b, eofErr
		}
		n := int(w.concretize(m, "length", 400))
		return b[k+n:], ""
	case 3:
		depth := 1
		i := 0
		for {
			x, n := w.pvarint(b[i:])
			if n == 0 {
				return b, eofErr
			}
			i += n
			wt := int(w.concretize(w.T.Extract(x, 2, 0), "wire", 8))
			switch wt {
			case 4:
				depth--
				if depth == 0 {
					return b[i:], ""
				}
			case 3:
				depth++
			default:
				r, err := w.pskip(b[i:], wt)
				if err != "" {
					return b, eofErr
				}
				i = len(b) - len(r)
			}
			if i > len(b) {
				return b, eofErr
			}
		}
	}
	return b, fmt.Sprintf("proto: can't skip unknown wire type %d", wire)
}

func (w *Worker) punmarshal(b []*Term, st types.Type, depth int) (Agg, string) {
	d := protoDesc(st)
	if d.badness != "" {
		panic(pathEnd{"unsupported", d.badness})
	}
	T := w.T
	s := w.cur
	v := Agg(w.appendZero(nil, st))
	var unrec []*Term
	fin := func() {
		if d.unrec >= 0 && len(unrec) > 0 {
			v[d.unrec] = s.newBytes(unrec)
		}
	}
	reps := map[int][]Value{}
	finReps := func() {
		for off, vs := range reps {
			v[off] = s.newSlice(vs, 1)
		}
	}
	defer finReps()
	defer fin()
	for len(b) > 0 {
		b0 := b
		x, n := w.pvarint(b)
		if n == 0 {
			return v, eofErr
		}
		b = b[n:]
		wire := int(w.concretize(T.Extract(x, 2, 0), "wire type", 8))
		tag := T.LShr(x, T.Const(64, 3))
		known := false
		for _, f := range d.fields {
			if !w.decide(T.Eq(tag, T.Const(64, uint64(f.tag)))) {
				continue
			}
			want := map[string]int{"varint": 0, "fixed64": 1, "bytes": 2, "msg": 2, "fixed32": 5}[f.kind]
			if wire != want {
				break // treated as unknown
			}
			known = true
			switch f.kind {
			case "varint":
				y, k := w.pvarint(b)
				if k == 0 {
					return v, eofErr
				}
				b = b[k:]
				et := f.t.Underlying().(*types.Pointer).Elem()
				bt := et.Underlying().(*types.Basic)
				var val Value
				if bt.Kind() == types.Bool {
					val = T.Not(T.Eq(y, T.Const(64, 0)))
				} else {
					val = T.Extract(y, int(intWidth(bt))-1, 0)
				}
				v[f.off] = Ptr{obj: s.alloc([]Value{val}, et)}
			case "fixed64", "fixed32":
				m := 8
				if f.kind == "fixed32" {
					m = 4
				}
				if len(b) < m {
					return v, eofErr
				}
				var r *Term
				for i := m - 1; i >= 0; i-- {
					if r == nil {
						r = b[i]
					} else {
						r = T.Concat(r, b[i])
					}
				}
				b = b[m:]
				v[f.off] = Ptr{obj: s.alloc([]Value{r}, nil)}
			default:
				y, k := w.pvarint(b)
				if k == 0 {
					return v, eofErr
				}
				b = b[k:]
				if w.decide(T.Ult(T.Const(64, uint64(len(b))), y)) {
					return v, eofErr
				}
				m := int(w.concretize(y, "length", 400))
				body := b[:m]
				b = b[m:]
				if f.kind == "bytes" {
					v[f.off] = s.newBytes(body)
					break
				}
				sv, err := w.punmarshal(body, f.sub, depth+1)
				if err != "" {
					return v, err
				}
				// singular message fields merge in protobuf; a repeated
				// occurrence of a singular submessage is merged field-wise
				q := Ptr{obj: s.alloc(sv, f.sub)}
				if f.rep {
					reps[f.off] = append(reps[f.off], q)
				} else {
					if old, ok := v[f.off].(Ptr); ok && old.obj != 0 {
						o := s.wobj(old.obj)
						for i, nv := range sv {
							if !isZeroSlot(nv) {
								o.slots[i] = nv
							}
						}
						break
					}
					v[f.off] = q
				}
			}
			break
		}
		if known {
			continue
		}
		if d.unrec < 0 {
			r, err := w.pskip(b, wire)
			if err != "" {
				return v, err
			}
			b = r
			continue
		}
		r, err := w.pskip(b, wire)
		if err != "" {
			return v, err
		}
		unrec = append(unrec, b0[:len(b0)-len(r)]...)
		b = r
	}
	return v, ""
}

func isZeroSlot(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj == 0
	case Slice:
		return x.obj == 0
	case *Term:
		return x.isConst() && x.k == 0
	}
	return false
}
