package main

import (
	"golang.org/x/tools/go/ssa"
)

// Text shown to users (errors, log lines) carries the values it was made from;
// sym.Hidden asserts that text carries none of the given secrets.

// leaves collects the inputs and the results of cryptographic functions from
// which t is computed by ordinary operations.
func (w *Worker) leaves(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar || t.app != nil {
		out[t] = true
		return
	}
	for _, x := range t.a {
		w.leaves(x, out, seen)
	}
}

// shown is every byte reachable from v.
func (w *Worker) shown(v Value, depth int, seen map[ObjID]bool) []*Term {
	var out []*Term
	all := func(vs []Value) {
		for _, x := range vs {
			out = append(out, w.shown(x, depth, seen)...)
		}
	}
	switch x := v.(type) {
	case *Term:
		switch {
		case x.w == 0:
			out = append(out, w.T.Ite(x, w.T.bytes[1], w.T.bytes[0]))
		case x.w <= 8:
			out = append(out, w.T.ZExt(x, 8))
		default:
			for i := int(x.w); i >= 8; i -= 8 {
				out = append(out, w.T.Extract(x, i-1, i-8))
			}
		}
	case string:
		return w.strBytes(x)
	case *SymStr:
		return x.b
	case Agg:
		all(x)
	case Tuple:
		all(x)
	case Iface:
		if x.t != nil {
			return w.shown(x.v, depth, seen)
		}
	case Slice:
		if x.len > 0 && x.len < 4096 {
			all(w.cur.obj(x.obj).slots[int(x.off) : int(x.off)+int(x.len*x.esz)])
		}
	case Ptr:
		if x.obj != 0 && depth > 0 && !seen[x.obj] {
			seen[x.obj] = true
			for _, y := range w.cur.obj(x.obj).slots {
				out = append(out, w.shown(y, depth-1, seen)...)
			}
		}
	}
	return out
}

func init() {
	I := intrinsics
	I["vh/sym.Shown"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.mkStr(w.shown(a[0], 3, map[ObjID]bool{}))
	}
	I["vh/sym.Hidden"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		secret := map[*Term]bool{}
		seen := map[*Term]bool{}
		sl := a[2].(Slice)
		for i := 0; i < int(sl.len); i++ {
			x := w.cur.obj(sl.obj).slots[int(sl.off)+i]
			for _, t := range w.argBytes(x) {
				w.leaves(w.subst(t), secret, seen)
			}
		}
		found := map[*Term]bool{}
		seen = map[*Term]bool{}
		for _, t := range w.substVec(w.strBytes(a[0])) {
			w.leaves(w.subst(t), found, seen)
		}
		n := 0
		for t := range found {
			if secret[t] {
				n++
			}
		}
		// a length or a byte of padding in an error is no secret
		if n >= 6 {
			w.assert(w.T.False, w.strArg(a[1]))
			return nil
		}
		w.assert(w.T.True, w.strArg(a[1]))
		return nil
	}
}
