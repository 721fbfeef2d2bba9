package main

// Model of encoding/json for the library's structures: an injective,
// type-directed canonical encoding. Text-level syntax is not modelled.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func initJSON(I map[string]Intrinsic) {
	marshal := func(w *Worker, a []Value, fn *ssa.Function) Value {
		x := a[0].(Iface)
		e := &jenc{w: w}
		e.value(x)
		if e.err != "" {
			return Tuple{Slice{esz: 1}, w.mkErr(e.err)}
		}
		return Tuple{w.cur.newBytes(e.out), Iface{}}
	}
	I["encoding/json.Marshal"] = marshal
	I["encoding/json.MarshalIndent"] = marshal
	I["encoding/json.Unmarshal"] = func(w *Worker, a []Value, fn *ssa.Function) Value {
		b := w.argBytes(a[0])
		dst := a[1].(Iface)
		if dst.t == nil {
			return w.mkErr("json: Unmarshal(nil)")
		}
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok || dst.v.(Ptr).obj == 0 {
			return w.mkErr("json: Unmarshal(non-pointer)")
		}
		p := dst.v.(Ptr)
		d := &jdec{w: w, b: b}
		old := w.cur.load(p, pt.Elem())
		v := d.value(pt.Elem(), old)
		if d.err == "" && len(d.b) != 0 {
			d.err = "trailing data"
		}
		if d.err != "" {
			if text, ok := concrete(b); ok && json.Valid(text) {
				return w.jsonText(text, pt.Elem(), dst, d.err)
			}
			return w.mkErr("json: " + d.err)
		}
		w.cur.store(p, pt.Elem(), v)
		return Iface{}
	}
}

// jsonText handles a JSON text that was not made by Marshal: the ones that say
// nothing about a struct, and the ones that are none.
func (w *Worker) jsonText(text []byte, t types.Type, dst Iface, err string) Value {
	var v interface{}
	json.Unmarshal(text, &v)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		panic(pathEnd{"unsupported", "json text into " + t.String()})
	}
	switch m := v.(type) {
	case nil:
		return Iface{}
	case map[string]interface{}:
		if len(m) == 0 {
			return Iface{}
		}
		panic(pathEnd{"unsupported", "json text " + string(text)})
	}
	return w.mkErr("json: " + err)
}

func concrete(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return nil, false
		}
		r[i] = byte(t.k)
	}
	return r, true
}

type jenc struct {
	w   *Worker
	out []*Term
	err string
}

func (e *jenc) c(b byte) { e.out = append(e.out, e.w.T.bytes[b]) }
func (e *jenc) n(n int) {
	for i := 3; i >= 0; i-- {
		e.c(byte(n >> uint(8*i)))
	}
}

func (e *jenc) value(x Iface) {
	if x.t == nil {
		e.c('n')
		return
	}
	e.typed(x.v, x.t)
}

func jsonName(f *types.Var, tag string) (string, bool) {
	if !f.Exported() {
		return "", false
	}
	t := reflect.StructTag(tag).Get("json")
	n := strings.Split(t, ",")[0]
	if t == "-" {
		return "", false
	}
	if n == "" {
		n = f.Name()
	}
	return n, true
}

func (e *jenc) typed(v Value, t types.Type) {
	T := e.w.T
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			e.c('n')
			return
		}
		e.typed(e.w.cur.load(p, u.Elem()), u.Elem())
	case *types.Interface:
		e.value(v.(Iface))
	case *types.Struct:
		a := v.(Agg)
		l := layout(t)
		var idx []int
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := jsonName(u.Field(i), u.Tag(i)); ok {
				if u.Field(i).Anonymous() {
					panic(pathEnd{"unsupported", "json of embedded field"})
				}
				if strings.Contains(reflect.StructTag(u.Tag(i)).Get("json"), "omitempty") {
					panic(pathEnd{"unsupported", "json omitempty"})
				}
				idx = append(idx, i)
			}
		}
		e.c('{')
		e.n(len(idx))
		for _, i := range idx {
			n, _ := jsonName(u.Field(i), u.Tag(i))
			e.c(byte(len(n)))
			e.out = append(e.out, e.w.strBytes(n)...)
			e.typed(sub(a, l.offs[i], u.Field(i).Type()), u.Field(i).Type())
		}
	case *types.Slice:
		sl := v.(Slice)
		if sl.obj == 0 {
			e.c('n')
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			e.c('b')
			e.n(int(sl.len))
			e.out = append(e.out, e.w.cur.bytesOf(sl)...)
			return
		}
		e.c('[')
		e.n(int(sl.len))
		for i := 0; i < int(sl.len); i++ {
			p := Ptr{obj: sl.obj, off: sl.off + int32(i)*sl.esz}
			e.typed(e.w.cur.load(p, u.Elem()), u.Elem())
		}
	case *types.Array:
		a := v.(Agg)
		es := slotsOf(u.Elem())
		e.c('[')
		e.n(int(u.Len()))
		for i := 0; i < int(u.Len()); i++ {
			e.typed(sub(a, i*es, u.Elem()), u.Elem())
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			b := e.w.strBytes(v)
			e.c('s')
			e.n(len(b))
			e.out = append(e.out, b...)
		case u.Info()&types.IsBoolean != 0:
			e.c('t')
			e.out = append(e.out, T.Ite(v.(*Term), T.bytes[1], T.bytes[0]))
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			if isSigned(t) {
				x = T.SExt(x, 64)
			} else {
				x = T.ZExt(x, 64)
			}
			e.c('i')
			for i := 7; i >= 0; i-- {
				e.out = append(e.out, T.Extract(x, 8*i+7, 8*i))
			}
		default:
			panic(pathEnd{"unsupported", fmt.Sprintf("json of %v", t)})
		}
	default:
		panic(pathEnd{"unsupported", fmt.Sprintf("json of %v", t)})
	}
}

type jdec struct {
	w   *Worker
	b   []*Term
	err string
}

func (d *jdec) c() byte {
	if d.err != "" {
		return 0
	}
	if len(d.b) == 0 {
		d.err = "unexpected end"
		return 0
	}
	t := d.b[0]
	d.b = d.b[1:]
	if !t.isConst() {
		panic(pathEnd{"unsupported", "json decoding of symbolic text at " + d.w.where()})
	}
	return byte(t.k)
}

func (d *jdec) n() int {
	n := 0
	for i := 0; i < 4; i++ {
		n = n<<8 | int(d.c())
	}
	return n
}

func (d *jdec) take(n int) []*Term {
	if d.err != "" || n < 0 || n > len(d.b) {
		if d.err == "" {
			d.err = "unexpected end"
		}
		return nil
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *jdec) skip() {
	switch k := d.c(); k {
	case 'n':
	case 'b', 's':
		d.take(d.n())
	case 't':
		d.take(1)
	case 'i':
		d.take(8)
	case '[':
		for n := d.n(); n > 0 && d.err == ""; n-- {
			d.skip()
		}
	case '{':
		for n := d.n(); n > 0 && d.err == ""; n-- {
			d.take(int(d.c()))
			d.skip()
		}
	default:
		d.err = "invalid character"
	}
}

func (d *jdec) value(t types.Type, old Value) Value {
	T := d.w.T
	s := d.w.cur
	if d.err != "" {
		return old
	}
	if len(d.b) == 0 {
		d.err = "unexpected end of JSON input"
		return old
	}
	if d.b[0] == T.bytes['n'] {
		d.b = d.b[1:]
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
			return d.w.zero(t)
		}
		return old
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := old.(Ptr)
		if p.obj == 0 {
			v := d.value(u.Elem(), d.zeroOf(u.Elem()))
			id := s.alloc(flat(v), u.Elem())
			return Ptr{obj: id}
		}
		v := d.value(u.Elem(), s.load(p, u.Elem()))
		if d.err == "" {
			s.store(p, u.Elem(), v)
		}
		return p
	case *types.Struct:
		if d.c() != '{' {
			d.err = "cannot unmarshal into struct"
			return old
		}
		a := append(Agg(nil), old.(Agg)...)
		l := layout(t)
		for n := d.n(); n > 0 && d.err == ""; n-- {
			nm := ""
			for _, b := range d.take(int(d.c())) {
				nm += string(rune(b.k))
			}
			fi := -1
			for i := 0; i < u.NumFields(); i++ {
				if jn, ok := jsonName(u.Field(i), u.Tag(i)); ok && strings.EqualFold(jn, nm) {
					fi = i
				}
			}
			if fi < 0 {
				d.skip()
				continue
			}
			ft := u.Field(fi).Type()
			v := d.value(ft, sub(a, l.offs[fi], ft))
			if isAgg(ft) {
				copy(a[l.offs[fi]:], v.(Agg))
			} else {
				a[l.offs[fi]] = v
			}
		}
		return a
	case *types.Slice:
		k := d.c()
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && k == 'b' {
			return s.newBytes(d.take(d.n()))
		}
		if k != '[' {
			d.err = "cannot unmarshal into slice"
			return old
		}
		n := d.n()
		var vs []Value
		for i := 0; i < n && d.err == ""; i++ {
			vs = append(vs, flat(d.value(u.Elem(), d.zeroOf(u.Elem())))...)
		}
		return s.newSlice(vs, slotsOf(u.Elem()))
	case *types.Array:
		if d.c() != '[' {
			d.err = "cannot unmarshal into array"
			return old
		}
		n := d.n()
		a := append(Agg(nil), old.(Agg)...)
		es := slotsOf(u.Elem())
		for i := 0; i < n && d.err == ""; i++ {
			v := d.value(u.Elem(), d.zeroOf(u.Elem()))
			if i < int(u.Len()) {
				copy(a[i*es:], flat(v))
			}
		}
		return a
	case *types.Basic:
		k := d.c()
		switch {
		case u.Info()&types.IsString != 0 && k == 's':
			return d.w.mkStr(d.take(d.n()))
		case u.Info()&types.IsBoolean != 0 && k == 't':
			b := d.take(1)
			if b == nil {
				return old
			}
			return T.Eq(b[0], T.bytes[1])
		case u.Info()&types.IsInteger != 0 && k == 'i':
			b := d.take(8)
			if b == nil {
				return old
			}
			x := T.Concat(b...)
			wd := intWidth(u)
			r := T.Extract(x, int(wd)-1, 0)
			var back *Term
			if isSigned(t) {
				back = T.SExt(r, 64)
			} else {
				back = T.ZExt(r, 64)
			}
			if !d.w.decide(T.Eq(back, x)) {
				d.err = "number out of range"
				return old
			}
			return r
		}
		d.err = "cannot unmarshal into " + t.String()
		return old
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("json into %v", t)})
}

func (d *jdec) zeroOf(t types.Type) Value { return d.w.zero(t) }

func flat(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return append([]Value(nil), a...)
	}
	return []Value{v}
}
