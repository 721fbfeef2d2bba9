package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program.
type Value interface{}

type ObjID int32

type Ptr struct {
	obj ObjID
	off int32
}
type Slice struct {
	obj      ObjID
	off      int32
	len, cap int32
	esz      int32 // slots per element
}

// strings are Go strings (concrete) or *SymStr
type SymStr struct{ b []*Term }

type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}
type MapRef struct{ obj ObjID }
type ChanRef struct{ obj ObjID }
type Agg []Value // flattened struct/array in a register
type Tuple []Value

type mapEntry struct{ k, v Value }

type Object struct {
	owner int64
	slots []Value
	m     []mapEntry // for maps
	typ   types.Type // element description (debugging)
}

const chunkSz = 256

type chunk struct {
	owner int64
	o     [chunkSz]*Object
}

type Heap struct {
	chunks []*chunk
	n      int32
}

// ---------- layout ----------

type layoutInfo struct {
	n     int
	offs  []int // struct field offsets
	kinds []types.Type
}

var (
	layMu  sync.RWMutex
	layTab = map[types.Type]*layoutInfo{}
)

func layout(t types.Type) *layoutInfo {
	layMu.RLock()
	l := layTab[t]
	layMu.RUnlock()
	if l != nil {
		return l
	}
	l = &layoutInfo{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.offs = append(l.offs, l.n)
			l.n += layout(u.Field(i).Type()).n
		}
	case *types.Array:
		l.n = int(u.Len()) * layout(u.Elem()).n
	case *types.Tuple:
		l.n = 1
	default:
		l.n = 1
	}
	layMu.Lock()
	layTab[t] = l
	layMu.Unlock()
	return l
}

func slotsOf(t types.Type) int { return layout(t).n }

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// appendZero appends the flattened zero value of t.
func (w *Worker) appendZero(out []Value, t types.Type) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = w.appendZero(out, u.Field(i).Type())
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		s := len(out)
		out = w.appendZero(out, u.Elem())
		es := len(out) - s
		if es == 0 {
			return out
		}
		for i := 1; i < n; i++ {
			out = append(out, out[s:s+es]...)
		}
		return out
	}
	return append(out, w.zero(t))
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return w.T.False
		}
		if u.Info()&types.IsInteger != 0 {
			return w.T.Const(intWidth(u), 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{esz: int32(slotsOf(u.Elem()))}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Struct, *types.Array:
		return Agg(w.appendZero(nil, t))
	case *types.Tuple:
		return Tuple(nil)
	}
	panic(fmt.Sprintf("zero of %v", t))
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

// ---------- heap ----------

func (s *State) obj(id ObjID) *Object {
	return s.heap.chunks[id/chunkSz].o[id%chunkSz]
}

func (s *State) wobj(id ObjID) *Object {
	ci := id / chunkSz
	c := s.heap.chunks[ci]
	if c.owner != s.token {
		n := *c
		n.owner = s.token
		c = &n
		s.heap.chunks[ci] = c
	}
	o := c.o[id%chunkSz]
	if o.owner != s.token {
		n := &Object{owner: s.token, typ: o.typ}
		n.slots = append([]Value(nil), o.slots...)
		n.m = append([]mapEntry(nil), o.m...)
		c.o[id%chunkSz] = n
		o = n
	}
	return o
}

func (s *State) alloc(slots []Value, t types.Type) ObjID {
	id := s.heap.n
	if id == 0 {
		id = 1
	}
	s.heap.n = id + 1
	ci := int(id / chunkSz)
	if ci >= len(s.heap.chunks) {
		s.heap.chunks = append(s.heap.chunks, &chunk{owner: s.token})
	}
	c := s.heap.chunks[ci]
	if c.owner != s.token {
		n := *c
		n.owner = s.token
		c = &n
		s.heap.chunks[ci] = c
	}
	c.o[id%chunkSz] = &Object{owner: s.token, slots: slots, typ: t}
	return ObjID(id)
}

func (s *State) loadN(p Ptr, n int) []Value {
	return s.obj(p.obj).slots[p.off : int(p.off)+n]
}

func (s *State) load(p Ptr, t types.Type) Value {
	if isAgg(t) {
		n := slotsOf(t)
		return Agg(append([]Value(nil), s.loadN(p, n)...))
	}
	return s.obj(p.obj).slots[p.off]
}

func (s *State) store(p Ptr, t types.Type, v Value) {
	if isAgg(t) {
		a := v.(Agg)
		if len(a) == 0 {
			return
		}
		copy(s.wobj(p.obj).slots[p.off:], a)
		return
	}
	s.wobj(p.obj).slots[p.off] = v
}

// bytesOf returns the byte terms of a []byte value.
func (s *State) bytesOf(sl Slice) []*Term {
	out := make([]*Term, sl.len)
	if sl.len == 0 {
		return out
	}
	o := s.obj(sl.obj)
	for i := range out {
		out[i] = o.slots[int(sl.off)+i].(*Term)
	}
	return out
}

func (s *State) newBytes(b []*Term) Slice {
	v := make([]Value, len(b))
	for i, x := range b {
		v[i] = x
	}
	id := s.alloc(v, types.Typ[types.Byte])
	return Slice{obj: id, len: int32(len(b)), cap: int32(len(b)), esz: 1}
}

func (s *State) newSlice(v []Value, esz int) Slice {
	id := s.alloc(v, nil)
	n := len(v)
	if esz > 0 {
		n /= esz
	}
	return Slice{obj: id, len: int32(n), cap: int32(n), esz: int32(esz)}
}

func (w *Worker) strBytes(v Value) []*Term {
	switch x := v.(type) {
	case string:
		out := make([]*Term, len(x))
		for i := range out {
			out[i] = w.T.bytes[x[i]]
		}
		return out
	case *SymStr:
		return x.b
	}
	panic(fmt.Sprintf("not a string: %T", v))
}

func (w *Worker) mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.k)
	}
	return string(r)
}

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic("strLen")
}
