package main

// Equalities learned about attacker-chosen values are used as rewrite rules:
// once the path implies d = e for an attacker variable d, later terms are
// built with e in place of d.

func (s *State) addSub(T *Terms, v, e *Term, w *Worker) {
	n := make(map[*Term]*Term, len(s.sub)+1)
	old := s.sub
	s.sub = map[*Term]*Term{v: e}
	w.tok++
	s.subVer = w.tok
	for k, x := range old {
		n[k] = w.subst(x)
	}
	n[v] = e
	s.sub = n
	w.tok++
	s.subVer = w.tok
}

func (w *Worker) occurs(v, t *Term, seen map[*Term]bool) bool {
	if t == v {
		return true
	}
	if !t.taint || seen[t] {
		return false
	}
	seen[t] = true
	for _, x := range t.a {
		if w.occurs(v, x, seen) {
			return true
		}
	}
	if t.app != nil {
		for _, a := range t.app.args {
			for _, x := range a {
				if w.occurs(v, x, seen) {
					return true
				}
			}
		}
	}
	return false
}

// solve turns a learned equality into a rewrite rule when it isolates an
// attacker variable.
func (w *Worker) solve(s *State, c *Term) {
	a, b := w.subst(c.a[0]), w.subst(c.a[1])
	if a.w == 0 || a.w > 64 || !(a.taint || b.taint) {
		return
	}
	x := w.T.Xor(a, b)
	var parts []*Term
	switch x.op {
	case OpVar, OpExtract:
		parts = []*Term{x}
	case OpXor:
		parts = x.a
	default:
		return
	}
	for _, p := range parts {
		// part of a variable: the rest of it stays free
		if p.op != OpExtract || p.a[0].op != OpVar || !p.taint {
			continue
		}
		v, hi, lo := p.a[0], int(p.k>>8), int(p.k&255)
		e := w.T.Xor(x, p)
		if w.occurs(v, e, map[*Term]bool{}) {
			continue
		}
		cur := v
		if y, ok := s.sub[v]; ok {
			cur = y
		}
		ps := []*Term{}
		if hi < int(v.w)-1 {
			ps = append(ps, w.T.Extract(cur, int(v.w)-1, hi+1))
		}
		ps = append(ps, e)
		if lo > 0 {
			ps = append(ps, w.T.Extract(cur, lo-1, 0))
		}
		s.addSub(w.T, v, w.T.Concat(ps...), w)
		return
	}
	for _, v := range parts {
		if v.op != OpVar || !v.taint {
			continue
		}
		e := w.T.Xor(x, v)
		if e != v && !w.occurs(v, e, map[*Term]bool{}) {
			s.addSub(w.T, v, e, w)
			return
		}
	}
}

// subst rewrites a term with the equalities known on the current path.
func (w *Worker) subst(t *Term) *Term {
	s := w.cur
	if !t.taint || s == nil || len(s.sub) == 0 {
		return t
	}
	if w.subVer != s.subVer {
		w.subVer = s.subVer
		w.subMemo = map[*Term]*Term{}
		w.subApp = map[*App][]*Term{}
	}
	return w.subst1(t)
}

func (w *Worker) substVec(v []*Term) []*Term {
	s := w.cur
	if s == nil || len(s.sub) == 0 {
		return v
	}
	var out []*Term
	for i, t := range v {
		if !t.taint {
			continue
		}
		if x := w.subst(t); x != t {
			if out == nil {
				out = append([]*Term(nil), v...)
			}
			out[i] = x
		}
	}
	if out == nil {
		return v
	}
	return out
}

func (w *Worker) subst1(t *Term) *Term {
	if !t.taint {
		return t
	}
	if r, ok := w.subMemo[t]; ok {
		return r
	}
	T := w.T
	var r *Term
	switch t.op {
	case OpVar:
		r = t
		if e, ok := w.cur.sub[t]; ok {
			r = e
		}
	case OpAppB:
		r = w.substApp(t.app)[t.k]
	default:
		a := make([]*Term, len(t.a))
		same := true
		for i, x := range t.a {
			a[i] = w.subst1(x)
			if a[i] != x {
				same = false
			}
		}
		if same {
			r = t
			break
		}
		switch t.op {
		case OpNot:
			r = T.Not(a[0])
		case OpAnd:
			r = T.And(a...)
		case OpOr:
			r = T.Or(a...)
		case OpEq:
			r = T.Eq(a[0], a[1])
		case OpIte:
			r = T.Ite(a[0], a[1], a[2])
		case OpAdd:
			r = a[0]
			for _, x := range a[1:] {
				r = T.Add(r, x)
			}
		case OpMul:
			r = a[0]
			for _, x := range a[1:] {
				r = T.Mul(r, x)
			}
		case OpXor:
			r = a[0]
			for _, x := range a[1:] {
				r = T.Xor(r, x)
			}
		case OpUDiv:
			r = T.UDiv(a[0], a[1])
		case OpURem:
			r = T.URem(a[0], a[1])
		case OpSDiv:
			r = T.SDiv(a[0], a[1])
		case OpSRem:
			r = T.SRem(a[0], a[1])
		case OpShl:
			r = T.Shl(a[0], a[1])
		case OpLShr:
			r = T.LShr(a[0], a[1])
		case OpAShr:
			r = T.AShr(a[0], a[1])
		case OpBAnd:
			r = a[0]
			for _, x := range a[1:] {
				r = T.BAnd(r, x)
			}
		case OpBOr:
			r = a[0]
			for _, x := range a[1:] {
				r = T.BOr(r, x)
			}
		case OpConcat:
			r = T.Concat(a...)
		case OpExtract:
			r = T.Extract(a[0], int(t.k>>8), int(t.k&255))
		case OpSExt:
			r = T.SExt(a[0], t.w)
		case OpUlt:
			r = T.Ult(a[0], a[1])
		case OpUle:
			r = T.Ule(a[0], a[1])
		case OpSlt:
			r = T.Slt(a[0], a[1])
		case OpSle:
			r = T.Sle(a[0], a[1])
		default:
			r = t
		}
	}
	w.subMemo[t] = r
	return r
}

// substApp rebuilds an application over rewritten arguments and gives its raw
// output bytes.
func (w *Worker) substApp(a *App) []*Term {
	if r, ok := w.subApp[a]; ok {
		return r
	}
	T := w.T
	raw := func(x *App) []*Term {
		out := make([]*Term, x.n)
		for i := range out {
			out[i] = T.mk(&Term{op: OpAppB, w: 8, k: uint64(i), app: x})
		}
		return out
	}
	args := make([][]*Term, len(a.args))
	same := true
	for i, v := range a.args {
		args[i] = v
		for j, t := range v {
			if x := w.subst1(t); x != t {
				if same || &args[i][0] == &v[0] {
					args[i] = append([]*Term(nil), v...)
				}
				args[i][j] = x
				same = false
			}
		}
	}
	var r []*Term
	switch {
	case same:
		r = raw(a)
	case a.fn == "dh", a.fn == "smult":
		b := args
		var out []*Term
		if a.fn == "dh" {
			out = w.dh(b[0], b[1])
		} else {
			out = w.pointMult(b[0], b[1])
		}
		x, _ := appAt(out[31])
		r = raw(x)
	case (a.fn == "aesenc" || a.fn == "aesdec"):
		r = w.aes(a.fn, args[0], args[1])
	default:
		x := T.App(a.fn, a.n, args...)
		if old := a.bytes[a.n-1]; old.op == OpConcat && x.bytes[a.n-1].op == OpAppB {
			x = w.feApp(a.fn, int(old.a[0].w), args...)
		}
		r = raw(x)
	}
	w.subApp[a] = r
	return r
}

// collisions finds byte-wise equalities on the path that together equate two
// outputs of primitives or two random draws, and draws the consequences.
func (w *Worker) collisions(s *State) {
	type pair struct{ x, y *App }
	apps := map[pair]map[int]bool{}
	draws := map[int]int{}
	var order []pair
	var scan func(t *Term)
	scan = func(t *Term) {
		if t.op == OpAnd {
			for _, x := range t.a {
				scan(x)
			}
			return
		}
		if t.op != OpEq || t.a[0].w == 0 {
			return
		}
		a, b := t.a[0], t.a[1]
		if d := w.randOf[a]; d != 0 && w.freshPair(a, b) {
			draws[d]++
		} else if d := w.randOf[b]; d != 0 && w.freshPair(b, a) {
			draws[d]++
		}
		x, i := appByte(a)
		y, j := appByte(b)
		if x == nil || y == nil || x == y || i != j || x.n != y.n {
			return
		}
		if x.id > y.id {
			x, y = y, x
		}
		p := pair{x, y}
		if apps[p] == nil {
			apps[p] = map[int]bool{}
			order = append(order, p)
		}
		apps[p][i] = true
	}
	for _, t := range s.pc {
		scan(t)
	}
	for _, n := range draws {
		if n >= 16 {
			s.dead = true
			return
		}
	}
	for _, p := range order {
		n := 0
		for n < p.x.n && apps[p][n] {
			n++
		}
		if n < 8 {
			continue
		}
		c := w.eqApp(p.x, p.y, 0, n)
		if c == w.T.False {
			s.dead = true
			return
		}
		if !c.isConst() && !s.facts[c] {
			s.pc = append(s.pc, c)
			s.learn(w, c)
		}
	}
}

// appByte recognises a byte of an application's output, or the free bits of
// its masked last byte.
func appByte(t *Term) (*App, int) {
	if a, i := appAt(t); a != nil {
		return a, i
	}
	if t.op == OpExtract && t.a[0].op == OpAppB && t.w >= 5 {
		return t.a[0].app, int(t.a[0].k)
	}
	return nil, 0
}
