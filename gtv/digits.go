package main

// Nested loops that visit the cells of a grid write position
// J = c0 + sum c_i k_i. When the coefficients form a mixed radix (1, w0, w0*w1,
// ...) and every k_i stays inside its digit, the k_i are the digits of J: each
// quantifier over the loop counters has one solution, whatever the order or
// direction of the loops.

import (
	"math/big"
	"sort"
)

type dvar struct {
	k, n *T
}

// cubeZero splits a diagram that is zero (or false) except on one path.
func cubeZero(t, zero *T) (lits []literal, leaf *T, ok bool) {
	for t.k == KIte {
		switch {
		case t.args[1] == zero:
			lits = append(lits, literal{t.v, true})
			t = t.args[0]
		case t.args[0] == zero:
			lits = append(lits, literal{t.v, false})
			t = t.args[1]
		default:
			return nil, nil, false
		}
	}
	return lits, t, true
}

func depVars(t *T, vars []dvar) bool {
	for _, v := range vars {
		if hasSym(t, symID(v.k)) {
			return true
		}
	}
	return false
}

// flattenLits opens the EXISTS literals of a conjunction.
func flattenLits(lits []literal, vars []dvar) ([]literal, []dvar, bool) {
	var out []literal
	for i := 0; i < len(lits); i++ {
		l := lits[i]
		if l.v.kind == bOP && l.v.base.k == KAtom && l.v.base.op == "EXISTS" && depVars(l.v.base, vars) {
			if !l.val || len(vars) >= 4 {
				return nil, nil, false
			}
			a := l.v.base
			n := a.args[0]
			if depVars(n, vars) {
				return nil, nil, false
			}
			k2 := freshSym(true, true, "k")
			body := openBinder(a, k2)
			more, leaf, ok := cubeZero(body, tFalse)
			if !ok || leaf != tTrue {
				return nil, nil, false
			}
			vars = append(vars, dvar{k2, n})
			lits = append(append([]literal{}, lits...), more...)
			continue
		}
		out = append(out, l)
	}
	return out, vars, true
}

func openBinder(a *T, k *T) *T {
	h := binderHeight(a)
	return substBV(a.args[1], h, anum(k))
}

// isPos: the polynomial mentions an array position.
func monoHasPos(m mono) bool {
	for _, f := range m.f {
		for _, s := range f.a.fs {
			if posSyms[s] {
				return true
			}
		}
	}
	return false
}

// coefOf returns the coefficient of the linear occurrences of k in p.
func coefOf(p, k *T) (c, rest *T, ok bool) {
	if p.k != KPoly {
		return nil, nil, false
	}
	return affineP(p, k)
}

type drange struct {
	p1, p2 *T // p1 >= 0 and p2 >= 0
}

// litPolys writes literals over integers as polynomials that are >= 0.
func litPoly(l literal) *T {
	if l.v.kind != bLE || !atomsInt(l.v.base) {
		return nil
	}
	if l.val {
		return sub(rat(l.v.thr), l.v.base)
	}
	return addc(sub(l.v.base, rat(l.v.thr)), -1)
}

// digitSolve finds the unique counters that satisfy the literals. Under guard,
// the quantified conjunction is equivalent to conds, with the counters at sol.
func digitSolve(vars []dvar, lits []literal) (guard, conds *T, sol map[int]*T, ok bool) {
	type pl struct {
		p *T
		i int
	}
	var cand []pl
	for i, l := range lits {
		p := litPoly(l)
		if p == nil {
			continue
		}
		if depVars(p, vars) {
			cand = append(cand, pl{p, i})
		}
	}
	for a := 0; a < len(cand); a++ {
		for b := 0; b < len(cand); b++ {
			if a == b {
				continue
			}
			p1, p2 := cand[a].p, cand[b].p
			if p1.k != KPoly || p2.k != KPoly {
				continue
			}
			w := add(p1, p2)
			if w.k != KPoly || depVars(w, vars) || hasPosPoly(w) || !hasPosPoly(p1) {
				continue
			}
			// every counter has to occur, with a negative coefficient
			neg := true
			for _, v := range vars {
				c, _, ok := coefOf(p1, v.k)
				if !ok || len(c.ms) == 0 || leadSign(c) > 0 {
					neg = false
				}
			}
			if !neg {
				continue
			}
			var extra []literal
			for i, l := range lits {
				if i != cand[a].i && i != cand[b].i {
					extra = append(extra, l)
				}
			}
			if g, c, s, ok := digitChain(vars, p1, w, extra); ok {
				return g, c, s, true
			}
		}
	}
	return nil, nil, nil, false
}

func hasPosPoly(p *T) bool {
	for _, m := range p.ms {
		if monoHasPos(m) {
			return true
		}
	}
	return false
}

func leadSign(p *T) int {
	if len(p.ms) == 0 {
		return 0
	}
	best := 0
	for i := range p.ms {
		if len(p.ms[i].f) > len(p.ms[best].f) {
			best = i
		}
	}
	return p.ms[best].c.Sign()
}

func degree(p *T) int {
	d := 0
	for _, m := range p.ms {
		n := 0
		for _, f := range m.f {
			if f.e > 0 {
				n += f.e
			} else {
				n -= 100
			}
		}
		if n > d {
			d = n
		}
	}
	return d
}

// digitChain eliminates the counters from 0 <= p1 <= w, least coefficient first.
func digitChain(vars []dvar, p1, w *T, extra []literal) (guard, conds *T, sol map[int]*T, ok bool) {
	guard, conds = tTrue, tTrue
	left := append([]dvar(nil), vars...)
	type eq struct {
		k *T
		v *T
	}
	var eqs []eq
	for len(left) > 0 {
		sort.SliceStable(left, func(i, j int) bool {
			ci, _, _ := coefOf(p1, left[i].k)
			cj, _, _ := coefOf(p1, left[j].k)
			if ci == nil || cj == nil {
				return false
			}
			return degree(ci) < degree(cj)
		})
		v := left[0]
		left = left[1:]
		c, rest, okc := coefOf(p1, v.k)
		if !okc || len(c.ms) == 0 {
			return nil, nil, nil, false
		}
		c = neg(c)
		if c.k != KPoly || depVars(c, vars) || hasPosPoly(c) {
			return nil, nil, nil, false
		}
		if v.n.k != KPoly {
			return nil, nil, nil, false
		}
		if c == pOne {
			if w != pZero {
				return nil, nil, nil, false
			}
			eqs = append(eqs, eq{v.k, rest})
			p1, w = rest, addc(v.n, -1)
			continue
		}
		// p1 = P - c k - lo
		if len(c.ms) != 1 {
			return nil, nil, nil, false
		}
		var pm, lm []mono
		for _, m := range rest.ms {
			switch {
			case monoHasPos(m):
				pm = append(pm, m)
			case divides(c.ms[0], m):
				pm = append(pm, m)
			default:
				lm = append(lm, m)
			}
		}
		lo := neg(mkPoly(normMonos(lm)))
		P := mkPoly(normMonos(pm))
		for _, m := range lo.ms {
			if len(m.f) > 1 || len(m.f) == 1 && m.f[0].e != 1 {
				return nil, nil, nil, false // another digit is still in there
			}
		}
		if cst, isC := constOf(lo); isC && cst.Sign() < 0 || !isC && leadSign(lo) < 0 {
			lo = add(lo, c)
			P = add(P, c)
		}
		// an intermediate digit g keeps the digits of J nested the same way
		// whichever counters a path happens to have
		if g, lg, l0, okg := innerDigit(c, lo, w); okg {
			cg := div(c, g)
			guard = and(guard, and(less(pZero, g), and(not(less(l0, pZero)), less(add(l0, w), g))))
			if guard == tFalse {
				return nil, nil, nil, false
			}
			f := floorT(div(P, g))
			if f.k != KPoly {
				return nil, nil, nil, false
			}
			r := sub(P, mul(g, f))
			if depVars(r, left) {
				return nil, nil, nil, false
			}
			conds = and(conds, and(not(less(r, l0)), lessEq(r, add(l0, w))))
			P, lo, w, c = f, lg, pZero, cg
		}
		guard = and(guard, and(not(less(lo, pZero)), less(add(lo, w), c)))
		if guard == tFalse {
			return nil, nil, nil, false
		}
		q := floorT(div(P, c))
		if q.k != KPoly {
			return nil, nil, nil, false
		}
		r := sub(P, mul(c, q))
		if depVars(r, left) {
			return nil, nil, nil, false
		}
		conds = and(conds, and(not(less(r, lo)), lessEq(r, add(lo, w))))
		eqs = append(eqs, eq{v.k, q})
		p1, w = q, addc(v.n, -1)
	}
	conds = and(conds, and(not(less(p1, pZero)), lessEq(p1, w)))
	sol = map[int]*T{}
	for i := len(eqs) - 1; i >= 0; i-- {
		x := eqs[i].v
		for j := i + 1; j < len(eqs); j++ {
			x = subst(x, eqs[j].k, sol[symID(eqs[j].k)])
		}
		sol[symID(eqs[i].k)] = x
	}
	for _, l := range extra {
		b := varT(l.v)
		if !l.val {
			b = not(b)
		}
		for _, v := range vars {
			b = subst(b, v.k, sol[symID(v.k)])
		}
		conds = and(conds, b)
	}
	return guard, conds, sol, true
}

// innerDigit finds g dividing c = g*c' with lo = g*lg + l0.
func innerDigit(c, lo, w *T) (g, lg, l0 *T, ok bool) {
	cm := c.ms[0]
	if len(cm.f) < 2 {
		return
	}
	pick := func(m mono) *T {
		for _, f := range cm.f {
			for _, h := range m.f {
				if h.a == f.a && f.e == 1 && h.e >= 1 {
					return anum(f.a)
				}
			}
		}
		return nil
	}
	for _, m := range lo.ms {
		if len(m.f) == 1 && g == nil {
			g = pick(m)
		}
	}
	for _, m := range w.ms {
		if len(m.f) == 1 && g == nil {
			g = pick(m)
		}
	}
	if g == nil {
		for _, f := range cm.f {
			if f.e == 1 && (g == nil || f.a.id < g.ms[0].f[0].a.id) {
				g = anum(f.a)
			}
		}
	}
	if g == nil {
		return
	}
	var in, out []mono
	for _, m := range lo.ms {
		if divides(g.ms[0], m) {
			in = append(in, m)
		} else {
			out = append(out, m)
		}
	}
	return g, div(mkPoly(normMonos(in)), g), mkPoly(normMonos(out)), true
}

func divides(c, m mono) bool {
	for _, f := range c.f {
		found := false
		for _, g := range m.f {
			if g.a == f.a && g.e >= f.e {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return len(c.f) > 0
}

// eqRewrite uses an equality J = E(k) among the literals to write t without k.
func eqRewrite(t, k *T, lits []literal) (*T, bool) {
	ks := symID(k)
	if !hasSym(t, ks) {
		return t, true
	}
	for i, l := range lits {
		p := litPoly(l)
		if p == nil || p.k != KPoly || !hasSym(p, ks) || !hasPosPoly(p) {
			continue
		}
		for j, o := range lits {
			if i == j {
				continue
			}
			q := litPoly(o)
			if q == nil || add(p, q) != pZero {
				continue
			}
			// p == 0
			c, rest, ok := coefOf(p, k)
			if !ok || len(c.ms) != 1 {
				continue
			}
			// c*k = -rest
			cm := c.ms[0]
			pat := mulFacs(append([]fac(nil), cm.f...), []fac{{k, 1}})
			repl := scale(neg(rest), new(big.Rat).Inv(cm.c))
			r := rewriteMono(t, pat, repl, ks)
			if !hasSym(r, ks) {
				return r, true
			}
		}
	}
	return t, false
}

// rewriteMono replaces the monomial pat by repl in every polynomial of t.
func rewriteMono(t *T, pat []fac, repl *T, ks int) *T {
	memo := map[int]*T{}
	var f func(x *T) *T
	touched := func(a *T) bool { return hasSym(a, ks) }
	f = func(x *T) *T {
		if !hasSym(x, ks) {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		var r *T
		if x.k == KPoly {
			acc := pZero
			for _, m := range x.ms {
				mt := mkPoly([]mono{m})
				if !hasSym(mt, ks) {
					acc = add(acc, mt)
					continue
				}
				if divides(mono{ratOne, pat}, m) {
					rest := mulFacs(append([]fac(nil), m.f...), invFacs(pat))
					acc = add(acc, mul(f(mkPoly([]mono{{m.c, rest}})), repl))
					continue
				}
				// inside the atoms
				direct := false
				for _, fc := range m.f {
					if fc.a.op == "sym" {
						if symID(fc.a) == ks {
							direct = true
						}
					}
				}
				if direct {
					acc = add(acc, mt)
					continue
				}
				acc = add(acc, rebuild(mt, f, touched))
			}
			r = acc
		} else {
			r = rebuild(x, f, touched)
		}
		memo[x.id] = r
		return r
	}
	return f(t)
}

// pathsTo lists the paths of a truth diagram that end in true.
func pathsTo(t *T, lits []literal, out *[][]literal) bool {
	switch {
	case t == tFalse:
		return true
	case t == tTrue:
		*out = append(*out, lits)
		return len(*out) <= 32
	case t.k != KIte:
		return false
	}
	n := len(lits)
	return pathsTo(t.args[0], append(lits[:n:n], literal{t.v, true}), out) &&
		pathsTo(t.args[1], append(lits[:n:n], literal{t.v, false}), out)
}

// digitExists decides existsT by digits.
func digitExists(n, k, body *T) (*T, bool) {
	var paths [][]literal
	if !pathsTo(body, nil, &paths) || len(paths) == 0 {
		return nil, false
	}
	acc, guard := tFalse, tTrue
	for _, lits := range paths {
		lits, vars, ok := flattenLits(lits, []dvar{{k, n}})
		if !ok {
			return nil, false
		}
		g, c, _, ok := digitSolve(vars, lits)
		if !ok {
			return nil, false
		}
		guard = and(guard, g)
		acc = or(acc, c)
	}
	if guard == tTrue {
		return acc, true
	}
	return ite(guard, acc, existsRaw(n, k, body)), true
}

type dpath struct {
	lits []literal
	vars []dvar
	leaf *T // one monomial
}

// digitPaths splits a (possibly nested) sum into one term per path.
func digitPaths(body *T, lits []literal, vars []dvar, coef *T, out *[]dpath) bool {
	if body.k == KIte {
		n := len(lits)
		if !digitPaths(body.args[0], append(lits[:n:n], literal{body.v, true}), vars, coef, out) {
			return false
		}
		return digitPaths(body.args[1], append(lits[:n:n], literal{body.v, false}), vars, coef, out)
	}
	if body.k != KPoly {
		return false
	}
	for _, m := range body.ms {
		var s *T
		for _, f := range m.f {
			if f.a.op == "SUM" && f.e == 1 && depVars(f.a, vars) {
				s = f.a
			}
		}
		if s == nil {
			t := mul(coef, mkPoly([]mono{m}))
			if len(*out) >= 64 {
				return false
			}
			*out = append(*out, dpath{lits, vars, t})
			continue
		}
		if len(vars) >= 4 || depVars(s.args[0], vars) {
			return false
		}
		k2 := freshSym(true, true, "k")
		rest := mulFacs(append([]fac(nil), m.f...), []fac{{s, -1}})
		nv := append(vars[:len(vars):len(vars)], dvar{k2, s.args[0]})
		if !digitPaths(openBinder(s, k2), lits, nv, mul(coef, mkPoly([]mono{{m.c, rest}})), out) {
			return false
		}
	}
	return true
}

// digitSum decides sumT by digits.
func digitSum(n, k, body *T) (*T, bool) {
	var paths []dpath
	if !digitPaths(body, nil, []dvar{{k, n}}, pOne, &paths) || len(paths) == 0 {
		return nil, false
	}
	acc, guard := pZero, tTrue
	for _, p := range paths {
		g, c, sol, ok := digitSolve(p.vars, p.lits)
		if !ok {
			return nil, false
		}
		leaf := p.leaf
		for _, v := range p.vars {
			leaf = subst(leaf, v.k, sol[symID(v.k)])
		}
		guard = and(guard, g)
		acc = add(acc, ite(c, leaf, pZero))
	}
	if guard == tTrue {
		return acc, true
	}
	return ite(guard, acc, sumRaw(n, k, body)), true
}

// digitLast decides lastT by digits.
func digitLast(n, k *T, lits []literal, cond, v, dflt *T) (*T, bool) {
	lits, vars, ok := flattenLits(lits, []dvar{{k, n}})
	if !ok {
		return nil, false
	}
	g, c, sol, ok := digitSolve(vars, lits)
	if !ok {
		return nil, false
	}
	for _, w := range vars {
		v = subst(v, w.k, sol[symID(w.k)])
	}
	r := ite(c, v, dflt)
	if g == tTrue {
		return r, true
	}
	return ite(g, r, lastRaw(n, k, cond, v, dflt)), true
}

func binderHeight(a *T) int {
	s := a.aux
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			s = s[:i]
			break
		}
	}
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// rewriteLeaves applies eqRewrite to the leaves of a diagram under their paths.
func rewriteLeaves(t, k *T) *T {
	ks := symID(k)
	if t.k != KIte || !hasSym(t, ks) {
		return t
	}
	var lits []literal
	n := 0
	var rec func(x *T) *T
	rec = func(x *T) *T {
		if x.k == KIte {
			v := x.v
			m := len(lits)
			lits = append(lits, literal{v, true})
			hi := rec(x.args[0])
			lits = append(lits[:m], literal{v, false})
			lo := rec(x.args[1])
			lits = lits[:m]
			return iteVar(v, hi, lo)
		}
		n++
		if n > 4000 || !hasSym(x, ks) {
			return x
		}
		if r, ok := eqRewrite(x, k, lits); ok {
			return r
		}
		return x
	}
	return rec(t)
}
