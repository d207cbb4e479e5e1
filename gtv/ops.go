package main

// Smart constructors: arithmetic, comparison, arrays, binders, substitution.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- arithmetic

func needPoly(t *T) *T {
	if t.k != KPoly {
		if t.k == KAtom && t.num {
			return anum(t)
		}
		fail("not a number: %s", show(t))
	}
	return t
}

type pair struct{ a, b int }

var addMemo = map[pair]*T{}
var mulMemo = map[pair]*T{}

func add(a, b *T) *T {
	if a.k == KPoly && b.k == KPoly {
		return polyAdd(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := pair{a.id, b.id}
	if r, ok := addMemo[k]; ok {
		return r
	}
	r := lift(func(l []*T) *T { return polyAdd(needPoly(l[0]), needPoly(l[1])) }, a, b)
	addMemo[k] = r
	return r
}

func scale(a *T, c *big.Rat) *T {
	if a.k == KPoly {
		return polyScale(a, c)
	}
	if a.k == KBot {
		return a
	}
	return lift(func(l []*T) *T { return polyScale(needPoly(l[0]), c) }, a)
}

func neg(a *T) *T    { return scale(a, ratNegOne) }
func sub(a, b *T) *T { return add(a, neg(b)) }
func addc(a *T, n int64) *T {
	return add(a, num(n))
}

func mul(a, b *T) *T {
	if a.k == KPoly && b.k == KPoly {
		return polyMul(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := pair{a.id, b.id}
	if r, ok := mulMemo[k]; ok {
		return r
	}
	r := lift(func(l []*T) *T { return polyMul(needPoly(l[0]), needPoly(l[1])) }, a, b)
	mulMemo[k] = r
	return r
}

func powInt(a *T, n int) *T {
	if n < 0 {
		return inv(powInt(a, -n))
	}
	r := pOne
	for i := 0; i < n; i++ {
		r = mul(r, a)
	}
	return r
}

// content factors the largest monomial and rational out of a polynomial.
func content(p *T) (m *T, q *T) {
	if len(p.ms) == 0 {
		return pOne, p
	}
	lc := p.ms[0].c
	common := append([]fac(nil), p.ms[0].f...)
	for _, m := range p.ms[1:] {
		var nc []fac
		for _, f := range common {
			for _, g := range m.f {
				if g.a == f.a {
					e := f.e
					if g.e < e {
						e = g.e
					}
					if (f.e > 0) == (g.e > 0) {
						if f.e < 0 {
							e = f.e
							if g.e > e {
								e = g.e
							}
						}
						nc = append(nc, fac{f.a, e})
					}
				}
			}
		}
		common = nc
	}
	// negative exponents: pull them out completely so the rest has none
	negs := map[int]fac{}
	for _, m := range p.ms {
		for _, f := range m.f {
			if f.e < 0 {
				if o, ok := negs[f.a.id]; !ok || f.e < o.e {
					negs[f.a.id] = f
				}
			}
		}
	}
	var keep []fac
	for _, f := range common {
		if _, ok := negs[f.a.id]; !ok {
			keep = append(keep, f)
		}
	}
	for _, f := range negs {
		keep = mulFacs(keep, []fac{f})
	}
	m = mkPoly([]mono{{new(big.Rat).Set(lc), keep}})
	var ik []fac
	for _, f := range keep {
		ik = append(ik, fac{f.a, -f.e})
	}
	im := mkPoly([]mono{{new(big.Rat).Inv(lc), ik}})
	ms := make([]mono, 0, len(p.ms))
	for _, x := range p.ms {
		ms = append(ms, mono{new(big.Rat).Mul(x.c, im.ms[0].c), mulFacs(x.f, ik)})
	}
	return m, mkPoly(normMonos(ms))
}

func inv(a *T) *T {
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		if len(p.ms) == 0 {
			return anum(atom("INV0", "", true, false, false))
		}
		if len(p.ms) == 1 {
			var f []fac
			extra := pOne
			for _, x := range p.ms[0].f {
				switch x.a.op {
				case "INV":
					extra = mul(extra, powInt(x.a.args[0], x.e))
				default:
					f = append(f, fac{x.a, -x.e})
				}
			}
			r := mkPoly([]mono{{new(big.Rat).Inv(p.ms[0].c), f}})
			return mul(r, extra)
		}
		m, q := content(p)
		return mul(inv(m), anum(atom("INV", "", true, false, nonNeg(q), q)))
	}, a)
}

func div(a, b *T) *T { return mul(a, inv(b)) }

func sqrtT(a *T) *T {
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		if c, ok := constOf(p); ok && c.Sign() >= 0 {
			n := new(big.Int).Sqrt(c.Num())
			d := new(big.Int).Sqrt(c.Denom())
			if new(big.Int).Mul(n, n).Cmp(c.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(c.Denom()) == 0 {
				return rat(new(big.Rat).SetFrac(n, d))
			}
		}
		return anum(atom("sqrt", "", true, false, true, p))
	}, a)
}

func floorT(a *T) *T {
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		ip, rest := intParts(p)
		if len(rest.ms) == 0 {
			return ip
		}
		if c, ok := constOf(rest); ok {
			f := ratFloor(c)
			return polyAdd(ip, rat(f))
		}
		return polyAdd(ip, anum(atom("floor", "", true, true, nonNeg(rest), rest)))
	}, a)
}

func ratFloor(c *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(c.Num(), c.Denom(), m)
	return new(big.Rat).SetInt(q)
}

// intParts separates the monomials that are integer valued (and the integer
// part of the constant) from the rest.
func intParts(p *T) (ip, rest *T) {
	var a, b []mono
	for _, m := range p.ms {
		if len(m.f) == 0 {
			f := ratFloor(m.c)
			if f.Sign() != 0 {
				a = append(a, mono{f, nil})
			}
			r := new(big.Rat).Sub(m.c, f)
			if r.Sign() != 0 {
				b = append(b, mono{r, nil})
			}
			continue
		}
		if polyIsInt(&T{ms: []mono{m}}) {
			a = append(a, m)
		} else {
			b = append(b, m)
		}
	}
	return mkPoly(a), mkPoly(b)
}

func ceilT(a *T) *T { return neg(floorT(neg(a))) }

func truncT(a *T) *T {
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		if polyIsInt(p) {
			return p
		}
		if c, ok := constOf(p); ok {
			q := new(big.Int).Quo(c.Num(), c.Denom())
			return rat(new(big.Rat).SetInt(q))
		}
		if nonNeg(p) {
			return floorT(p)
		}
		return anum(atom("trunc", "", true, true, false, p))
	}, a)
}

// idiv is Go's truncated integer division.
func idiv(a, b *T) *T {
	return lift(func(l []*T) *T {
		x, y := needPoly(l[0]), needPoly(l[1])
		if c, ok := constOf(y); ok {
			if c.Cmp(ratOne) == 0 {
				return x
			}
			if c.Cmp(ratNegOne) == 0 {
				return neg(x)
			}
			if d, ok := constOf(x); ok && c.Sign() != 0 {
				q := new(big.Int).Quo(d.Num(), c.Num())
				return rat(new(big.Rat).SetInt(q))
			}
		}
		if len(x.ms) == 0 {
			return x
		}
		if x == y {
			return pOne
		}
		// exact division of every monomial by a monomial divisor
		if len(y.ms) == 1 {
			q := polyMul(x, mkPoly([]mono{{new(big.Rat).Inv(y.ms[0].c), invFacs(y.ms[0].f)}}))
			if polyIsInt(q) {
				return q
			}
			// (a - m*(a/m)) / y with y dividing m:  a/y - (m/y)*(a/m)
			for _, m := range x.ms {
				for _, f := range m.f {
					if f.a.op == "idiv" && f.e == 1 {
						aa, mm := f.a.args[0], f.a.args[1]
						if polyAdd(aa, polyScale(polyMul(mm, anum(f.a)), ratNegOne)) == x {
							k := polyMul(mm, mkPoly([]mono{{new(big.Rat).Inv(y.ms[0].c), invFacs(y.ms[0].f)}}))
							if polyIsInt(k) {
								return sub(idiv(aa, y), mul(k, anum(f.a)))
							}
						}
					}
				}
			}
		}
		// (a/m)/y = a/(m*y)
		if len(x.ms) == 1 && len(x.ms[0].f) == 1 && x.ms[0].f[0].e == 1 &&
			x.ms[0].f[0].a.op == "idiv" && x.ms[0].c.Cmp(ratOne) == 0 {
			in := x.ms[0].f[0].a
			return idiv(in.args[0], mul(in.args[1], y))
		}
		return anum(atom("idiv", "", true, true, nonNeg(x) && nonNeg(y), x, y))
	}, a, b)
}

func invFacs(f []fac) []fac {
	var o []fac
	for _, x := range f {
		o = append(o, fac{x.a, -x.e})
	}
	return o
}

func irem(a, b *T) *T {
	return lift(func(l []*T) *T {
		return sub(l[0], mul(l[1], idiv(l[0], l[1])))
	}, a, b)
}

func absT(a *T) *T { return ite(less(a, pZero), neg(a), a) }
func maxT(a, b *T) *T {
	return ite(less(a, b), b, a)
}
func minT(a, b *T) *T {
	return ite(less(b, a), b, a)
}

// fn1 is an uninterpreted numeric function.
func fnN(name string, isInt, nonneg bool, args ...*T) *T {
	return lift(func(l []*T) *T {
		return anum(atom("fn", name, true, isInt, nonneg, l...))
	}, args...)
}

func powT(a, b *T) *T {
	return lift(func(l []*T) *T {
		if c, ok := constOf(l[1]); ok {
			if c.IsInt() {
				n := c.Num().Int64()
				if n >= -12 && n <= 12 {
					return powInt(l[0], int(n))
				}
			}
			if d := new(big.Rat).Mul(c, big.NewRat(2, 1)); d.IsInt() {
				n := d.Num().Int64()
				if n >= -12 && n <= 12 {
					return powInt(sqrtT(l[0]), int(n))
				}
			}
		}
		return anum(atom("fn", "pow", true, false, nonNeg(l[0]), l...))
	}, a, b)
}

// wrap is reduction modulo 2^bits for unsigned arithmetic.
func wrapT(bits int, a *T) *T {
	return lift(func(l []*T) *T {
		p := needPoly(l[0])
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		// strip inner wraps and reduce coefficients
		acc := pZero
		for _, x := range p.ms {
			c := new(big.Rat).Set(x.c)
			if c.IsInt() {
				r := new(big.Int).Mod(c.Num(), m)
				c = new(big.Rat).SetInt(r)
			}
			t := rat(c)
			for _, f := range x.f {
				if f.a.op == "wrap" && f.e == 1 && f.a.aux == strconv.Itoa(bits) {
					t = mul(t, f.a.args[0])
				} else {
					t = mul(t, mkPoly([]mono{{ratOne, []fac{f}}}))
				}
			}
			acc = add(acc, t)
		}
		// reduce again
		var ms []mono
		for _, x := range acc.ms {
			c := x.c
			if c.IsInt() {
				c = new(big.Rat).SetInt(new(big.Int).Mod(c.Num(), m))
			}
			if c.Sign() != 0 {
				ms = append(ms, mono{c, x.f})
			}
		}
		acc = mkPoly(ms)
		if _, ok := constOf(acc); ok {
			return acc
		}
		if len(acc.ms) == 1 && acc.ms[0].c.Cmp(ratOne) == 0 && len(acc.ms[0].f) == 1 &&
			acc.ms[0].f[0].e == 1 && ubits(acc.ms[0].f[0].a) != 0 && ubits(acc.ms[0].f[0].a) <= bits {
			return acc
		}
		return anum(atom("wrap", strconv.Itoa(bits), true, true, true, acc))
	}, a)
}

// ubits: number of bits of an atom known to be an unsigned machine value.
func ubits(a *T) int {
	switch a.op {
	case "wrap":
		n, _ := strconv.Atoi(a.aux)
		return n
	case "ubit":
		n, _ := strconv.Atoi(strings.SplitN(a.aux, ":", 2)[0])
		return n
	case "LEN", "CAP":
		return 62
	}
	aux := a.aux
	if k, ok := strings.CutPrefix(aux, "compose:u"); ok && a.op == "uf" {
		n, _ := strconv.Atoi(k)
		return 8 * n
	}
	if a.op == "REC" {
		aux = aux[strings.LastIndexByte(aux, ':')+1:]
	}
	if i := strings.LastIndex(aux, "#u"); i >= 0 {
		n, _ := strconv.Atoi(aux[i+2:])
		return n
	}
	return 0
}

// ---------------------------------------------------------------- comparison

func cmpLeaf(p *T, strict bool) *T {
	// p < 0 or p <= 0
	if c, ok := constOf(p); ok {
		if strict {
			return boolT(c.Sign() < 0)
		}
		return boolT(c.Sign() <= 0)
	}
	base, c := split(p)
	thr := new(big.Rat).Neg(c)
	lc := new(big.Rat).Set(base.ms[0].c)
	flip := lc.Sign() < 0
	isInt := atomsInt(base)
	var k *big.Rat
	if isInt {
		// divide by the content
		k = ratContent(base)
	} else {
		k = new(big.Rat).Abs(lc)
	}
	s := new(big.Rat).Inv(k)
	if flip {
		s.Neg(s)
	}
	b := polyScale(base, s)
	thr = new(big.Rat).Mul(thr, s)
	// not flipped: b < thr / b <= thr.  flipped: b > thr / b >= thr.
	nn := nonNeg(b)
	mk := func(strict bool, thr *big.Rat) *T { // b < thr / b <= thr
		if isInt {
			if strict {
				// b <= ceil(thr)-1
				f := ratFloor(new(big.Rat).Neg(thr))
				thr = new(big.Rat).Sub(f.Neg(f), ratOne)
			} else {
				thr = ratFloor(thr)
			}
			if nn && thr.Sign() < 0 {
				return tFalse
			}
			return varT(internVar(bLE, b, thr, ""))
		}
		if nn && (thr.Sign() < 0 || (thr.Sign() == 0 && strict)) {
			return tFalse
		}
		if strict {
			return varT(internVar(bLT, b, thr, ""))
		}
		return varT(internVar(bLE, b, thr, ""))
	}
	if !flip {
		return mk(strict, thr)
	}
	return not(mk(!strict, thr))
}

func ratContent(p *T) *big.Rat {
	g := new(big.Int)
	l := big.NewInt(1)
	for _, m := range p.ms {
		l = lcm(l, m.c.Denom())
	}
	for _, m := range p.ms {
		n := new(big.Int).Mul(m.c.Num(), new(big.Int).Quo(l, m.c.Denom()))
		g = new(big.Int).GCD(nil, nil, g, n.Abs(n))
	}
	return new(big.Rat).SetFrac(g, l)
}

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	return new(big.Int).Quo(new(big.Int).Mul(a, b), g)
}

var lessMemo = map[[3]int]*T{}

func compare(a, b *T, strict bool) *T {
	s := 0
	if strict {
		s = 1
	}
	k := [3]int{a.id, b.id, s}
	if r, ok := lessMemo[k]; ok {
		return r
	}
	r := lift(func(l []*T) *T {
		return cmpLeaf(polyAdd(needPoly(l[0]), polyScale(needPoly(l[1]), ratNegOne)), strict)
	}, a, b)
	lessMemo[k] = r
	return r
}

func less(a, b *T) *T   { return compare(a, b, true) }
func lessEq(a, b *T) *T { return compare(a, b, false) }

func numEq(a, b *T) *T {
	return and(lessEq(a, b), not(less(a, b)))
}

// opaqueBool is a boolean unknown.
func opaqueBool(a *T) *T {
	return varT(internVar(bOP, a, nil, ""))
}

func eqConst(a *T, s string) *T {
	return varT(internVar(bEQ, a, nil, s))
}

// equalT: Go's == on two values.
func equalT(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if isBoolT(a) && isBoolT(b) {
		return xnor(a, b)
	}
	return lift(func(l []*T) *T {
		x, y := l[0], l[1]
		if x == y {
			return tTrue
		}
		if x.k == KPoly || y.k == KPoly {
			return numEq(needPoly(x), needPoly(y))
		}
		if x.k == KBool && y.k == KBool {
			return boolT(x == y)
		}
		if x.k == KStr && y.k == KStr {
			return tFalse
		}
		if x.k == KTuple && y.k == KTuple {
			r := tTrue
			for i := range x.args {
				r = and(r, equalT(x.args[i], y.args[i]))
			}
			return r
		}
		if x.k == KStr {
			x, y = y, x
		}
		if y.k == KStr {
			return eqConst(x, y.aux)
		}
		if x.k == KNil {
			x, y = y, x
		}
		if y.k == KNil {
			switch x.k {
			case KNil:
				return tTrue
			case KIface, KClo:
				return tFalse
			case KPtr:
				if x.args[0].op != "sym" || x.aux != "" {
					return tFalse
				}
				return opaqueBool(atom("isnil", "", false, false, false, x.args[0].args[0]))
			case KSlice:
				if x.args[0].op == "sym" {
					return opaqueBool(atom("isnil", "", false, false, false, x.args[0].args[0]))
				}
				return tFalse
			case KAtom:
				if strings.HasPrefix(x.op, "nonnil") {
					return tFalse
				}
				return opaqueBool(atom("isnil", "", false, false, false, x))
			}
		}
		if x.k == KPtr && y.k == KPtr {
			if x.args[0] != y.args[0] && (x.args[0].op == "alloc" || y.args[0].op == "alloc" || x.args[0].op == "glob" && y.args[0].op == "glob") {
				return tFalse
			}
		}
		if x.k == KIface && y.k == KIface {
			if x.aux != y.aux {
				return tFalse
			}
			return equalT(x.args[0], y.args[0])
		}
		if x.id > y.id {
			x, y = y, x
		}
		return opaqueBool(atom("eq", "", false, false, false, x, y))
	}, a, b)
}

func isBoolT(t *T) bool {
	for t.k == KIte {
		t = t.args[0]
	}
	return t.k == KBool
}

// ---------------------------------------------------------------- arrays

func isArr(t *T) bool {
	if t.k == KArr {
		return true
	}
	return t.k == KAtom && (t.op == "AINIT" || t.op == "asym" || t.op == "AREC" || t.op == "AFN" || t.op == "bva")
}

// arrays made of an element kind: f real, i integer, u<bits>, b bool, o other
func arrKind(t *T) string {
	i := strings.LastIndex(t.aux, "@")
	return t.aux[i+1:]
}

func mkLam(j *T, body *T) *T {
	// eta
	if body.k == KPoly && len(body.ms) == 1 && body.ms[0].c.Cmp(ratOne) == 0 && len(body.ms[0].f) == 1 {
		f := body.ms[0].f[0]
		if f.e == 1 && f.a.op == "SEL" && f.a.args[1] == anum(j) && !hasSym(f.a.args[0], symID(j)) {
			return f.a.args[0]
		}
	}
	h, b := bindSym(j, body)
	return intern("lam:"+strconv.Itoa(h)+":"+strconv.Itoa(b.id), func() *T {
		return &T{k: KArr, op: "lam", aux: strconv.Itoa(h), args: []*T{b}}
	})
}

func mkLamF(f func(j *T) *T) *T {
	j := freshSym(true, true, "J")
	return mkLam(j, f(anum(j)))
}

func bindSym(s *T, body ...*T) (int, *T) {
	h := 1
	for _, b := range body {
		if b.h+1 > h {
			h = b.h + 1
		}
	}
	bv := atom("bv", strconv.Itoa(h), s.num, s.isInt, s.nonneg)
	var v *T = bv
	if s.num {
		v = anum(bv)
	}
	return h, subst(body[0], s, v)
}

type selKey struct{ a, i int }

var selMemo = map[selKey]*T{}

func sel(a, i *T) *T {
	k := selKey{a.id, i.id}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := lift(func(l []*T) *T {
		a, i := l[0], l[1]
		switch {
		case a.k == KArr:
			return openBV(a, i)
		case a.k == KAtom:
			switch kd := arrKind(a); {
			case kd == "f":
				return anum(atom("SEL", "", true, false, false, a, i))
			case kd == "i":
				return anum(atom("SEL", "", true, true, false, a, i))
			case kd[0] == 'u':
				return anum(atom("SEL", "#"+kd, true, true, true, a, i))
			case kd == "b":
				return opaqueBool(atom("SEL", "", false, false, false, a, i))
			case kd == "S":
				return symSlice(atom("SEL", "", false, false, false, a, i))
			case kd == "P":
				return symPtr(atom("SEL", "", false, false, false, a, i))
			}
			return atom("SEL", "", false, false, false, a, i)
		case a == tBot:
			return tBot
		}
		fail("select on a non-array %s", show(a))
		return nil
	}, a, i)
	selMemo[k] = r
	return r
}

// openBV instantiates the binder of a lambda.
func openBV(lam *T, v *T) *T {
	h, _ := strconv.Atoi(lam.aux)
	return substBV(lam.args[0], h, v)
}

func store(a, i, v *T) *T {
	return mkLamF(func(j *T) *T { return ite(numEq(j, i), v, sel(a, j)) })
}

func iteArr(c, a, b *T) *T {
	if a == b {
		return a
	}
	return mkLamF(func(j *T) *T { return ite(c, sel(a, j), sel(b, j)) })
}

// ---------------------------------------------------------------- symbolic references

func objSym(a *T) *T {
	if a.k != KAtom {
		return a // resolved reference: handled by mkPtr / mkSlice
	}
	return intern("objsym:"+strconv.Itoa(a.id), func() *T {
		return &T{k: KObj, op: "sym", args: []*T{a}}
	})
}

func lenOf(a *T) *T {
	return lift(func(l []*T) *T {
		switch x := l[0]; x.k {
		case KSlice:
			return x.args[2]
		case KStr:
			return num(int64(len(x.aux)))
		case KNil:
			return pZero
		case KAtom:
			return anum(atom("LEN", "", true, true, true, x))
		default:
			fail("len of %s", show(x))
		}
		return nil
	}, a)
}

func capOf(a *T) *T {
	return lift(func(l []*T) *T {
		switch x := l[0]; x.k {
		case KSlice:
			return x.args[3]
		case KNil:
			return pZero
		case KAtom:
			return anum(atom("CAP", "", true, true, true, x))
		default:
			fail("cap of %s", show(x))
		}
		return nil
	}, a)
}

func symSlice(a *T) *T {
	return mkSlice(objSym(a), "", pZero, lenOf(a), capOf(a))
}

func symPtr(a *T) *T { return mkPtr(objSym(a), "") }

func mkSlice(obj *T, path string, off, ln, cp *T) *T {
	return lift(func(l []*T) *T {
		obj, off, ln, cp := l[0], l[1], l[2], l[3]
		if obj.k == KSlice {
			return mkSlice(obj.args[0], obj.aux, add(obj.args[1], off), ln, cp)
		}
		if obj.k == KNil {
			return tNil
		}
		return intern("slice:"+path+":"+ids([]*T{obj, off, ln, cp}), func() *T {
			return &T{k: KSlice, aux: path, args: []*T{obj, off, ln, cp}}
		})
	}, obj, off, ln, cp)
}

func mkPtr(obj *T, path string, idx ...*T) *T {
	return lift(func(l []*T) *T {
		obj := l[0]
		idx := l[1:]
		if obj.k == KPtr {
			ni := append(append([]*T(nil), obj.args[1:]...), idx...)
			return mkPtr(obj.args[0], obj.aux+path, ni...)
		}
		if obj.k == KNil {
			return tBot
		}
		return intern("ptr:"+path+":"+ids(append([]*T{obj}, idx...)), func() *T {
			return &T{k: KPtr, aux: path, args: append([]*T{obj}, idx...)}
		})
	}, append([]*T{obj}, idx...)...)
}

func mkIface(typ string, ref interface{}, v *T) *T {
	return lift(func(l []*T) *T {
		return intern("iface:"+typ+":"+strconv.Itoa(l[0].id), func() *T {
			return &T{k: KIface, aux: typ, ref: ref, args: []*T{l[0]}}
		})
	}, v)
}

// ---------------------------------------------------------------- binders

// domain literals for 0 <= k < n (raw n)
func domainLits(k, n *T) []literal {
	c := not(less(k, pZero))
	if n != nil {
		c = and(c, less(k, n))
	}
	return cubeOf(c)
}

// sumT is the sum of body(k) for 0 <= k < n; empty when n <= 0.
func sumT(n *T, k *T, body *T) *T {
	ks := symID(k)
	if n.k == KIte {
		v := n.v
		return iteVar(v, sumT(n.args[0], k, assumeV(body, v, true)), sumT(n.args[1], k, assumeV(body, v, false)))
	}
	body = assume(body, domainLits(anum(k), n))
	// hoist conditions that do not depend on k
	if v := invariantVar(body, ks); v != nil {
		return iteVar(v, sumT(n, k, assumeV(body, v, true)), sumT(n, k, assumeV(body, v, false)))
	}
	if c, ok := constOf(n); ok && c.Sign() <= 0 {
		return pZero
	}
	if body.k == KPoly {
		acc := pZero
		for _, m := range body.ms {
			inv := []fac{}
			var dep []fac
			for _, f := range m.f {
				if hasSym(f.a, ks) {
					dep = append(dep, f)
				} else {
					inv = append(inv, f)
				}
			}
			coef := mkPoly([]mono{{m.c, inv}})
			var s *T
			if len(dep) == 0 {
				s = posPart(n)
			} else if r, ok := digitSum(n, k, mkPoly([]mono{{ratOne, dep}})); ok {
				s = r
			} else {
				s = sumAtom(n, k, mkPoly([]mono{{ratOne, dep}}))
			}
			acc = add(acc, mul(coef, s))
		}
		return acc
	}
	// a single point: ite(k == c, v, 0)
	if pt, rest, ok := singlePoint(body, k); ok {
		val := subst(rest, k, pt)
		in := and(not(less(pt, pZero)), less(pt, n))
		return ite(in, val, pZero)
	}
	if lits, leaf, ok := cubeZero(body, pZero); ok && len(lits) > 0 && leaf.k == KPoly && leaf != pOne {
		if l2, ok := eqRewrite(leaf, k, lits); ok {
			one := pOne
			for i := len(lits) - 1; i >= 0; i-- {
				if lits[i].val {
					one = iteVar(lits[i].v, one, pZero)
				} else {
					one = iteVar(lits[i].v, pZero, one)
				}
			}
			return mul(l2, sumT(n, k, one))
		}
	}
	if r, ok := digitSum(n, k, body); ok {
		return r
	}
	return sumRaw(n, k, body)
}

func sumRaw(n, k, body *T) *T {
	return sumAtom(n, k, body)
}

func posPart(n *T) *T {
	if nonNeg(n) {
		return n
	}
	return ite(lessEq(n, pZero), pZero, n)
}

func sumAtom(n, k, body *T) *T {
	// closed forms of small powers of k are left symbolic: both sides agree
	if n.k == KPoly {
		// canonical direction: choose the smaller of body(k) and body(n-1-k)
		h, b := bindSym(k, body)
		rev := subst(body, k, sub(addc(n, -1), anum(k)))
		rev = assume(rev, domainLits(anum(k), n))
		h2, b2 := bindSym(k, rev)
		if h2 < h || h2 == h && (b2.size < b.size || b2.size == b.size && b2.id < b.id) {
			h, b = h2, b2
		}
		nn := nonNeg(body)
		return anum(atom("SUM", strconv.Itoa(h), true, bodyInt(body), nn, n, b))
	}
	fail("sum bound is conditional")
	return nil
}

func bodyInt(t *T) bool {
	if t.k == KIte {
		return bodyInt(t.args[0]) && bodyInt(t.args[1])
	}
	return t.k == KPoly && polyIsInt(t)
}

func assumeV(t *T, v *bvar, val bool) *T {
	return assume(t, []literal{{v, val}})
}

// invariantVar finds a decision variable of t that does not depend on symbol s.
func invariantVar(t *T, s int) *bvar {
	seen := map[int]bool{}
	var rec func(t *T) *bvar
	rec = func(t *T) *bvar {
		if t.k != KIte || seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if !hasSym(t.v.base, s) {
			return t.v
		}
		if v := rec(t.args[0]); v != nil {
			return v
		}
		return rec(t.args[1])
	}
	return rec(t)
}

// singlePoint recognises a diagram that is zero except where k equals one
// value: conditions  k <= c  and not k <= c-1 (affine with unit coefficient).
func singlePoint(body, k *T) (pt, rest *T, ok bool) {
	ks := symID(k)
	// find a base containing k affinely with coefficient +-1
	var cand []*bvar
	seen := map[int]bool{}
	var rec func(t *T)
	rec = func(t *T) {
		if t.k != KIte || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.v.kind == bLE && hasSym(t.v.base, ks) {
			cand = append(cand, t.v)
		}
		rec(t.args[0])
		rec(t.args[1])
	}
	rec(body)
	done := map[int]bool{}
	for _, v := range cand {
		key := v.base.id
		if done[key] {
			continue
		}
		c, r, aff := affine(v.base, k)
		if !aff || c == 0 || !atomsInt(v.base) {
			continue
		}
		if c != 1 && c != -1 {
			// a window as wide as the stride: exactly one k reaches it
			done[key] = true
			m := c
			if m < 0 {
				m = -m
			}
			if !v.base.isIntPoly() {
				continue
			}
			for _, w := range cand {
				if w.base != v.base {
					continue
				}
				hi := new(big.Rat).Add(w.thr, big.NewRat(m, 1))
				in := and(not(lessEq(v.base, rat(w.thr))), lessEq(v.base, rat(hi)))
				if ite(in, pZero, body) != pZero {
					continue
				}
				lo := new(big.Rat).Add(w.thr, ratOne)
				if c < 0 {
					return floorT(scale(sub(r, rat(lo)), big.NewRat(1, m))), body, true
				}
				return floorT(scale(sub(rat(hi), r), big.NewRat(1, m))), body, true
			}
			continue
		}
		// the point is base == thr for some thr among the candidates
		thrs := map[string]*big.Rat{}
		for _, w := range cand {
			if w.base == v.base {
				thrs[w.thr.RatString()] = w.thr
			}
		}
		for _, th := range thrs {
			eq := numEq(v.base, rat(th))
			// body outside eq must be zero
			if ite(eq, pZero, body) == pZero {
				// c*k + r == th  =>  k = (th - r)/c
				p := scale(sub(rat(th), r), big.NewRat(c, 1))
				return p, body, true
			}
		}
		done[key] = true
	}
	return nil, nil, false
}

// affine decomposes p = c*k + r.
func affine(p, k *T) (c int64, r *T, ok bool) {
	ks := symID(k)
	var rest []mono
	c = 0
	for _, m := range p.ms {
		dep := false
		for _, f := range m.f {
			if hasSym(f.a, ks) {
				dep = true
			}
		}
		if !dep {
			rest = append(rest, m)
			continue
		}
		if len(m.f) == 1 && m.f[0].a == k && m.f[0].e == 1 && m.c.IsInt() && m.c.Num().IsInt64() {
			c = m.c.Num().Int64()
			continue
		}
		return 0, nil, false
	}
	return c, mkPoly(rest), true
}

// affineP allows a polynomial coefficient free of k.
func affineP(p, k *T) (c, r *T, ok bool) {
	ks := symID(k)
	var rest, co []mono
	for _, m := range p.ms {
		dep := 0
		var others []fac
		for _, f := range m.f {
			if hasSym(f.a, ks) {
				if f.a == k && f.e == 1 {
					dep++
				} else {
					return nil, nil, false
				}
			} else {
				others = append(others, f)
			}
		}
		if dep == 0 {
			rest = append(rest, m)
		} else {
			co = append(co, mono{m.c, others})
		}
	}
	return mkPoly(normMonos(co)), mkPoly(rest), true
}

// existsT: there is k in [0,n) with body(k).
func existsT(n, k, body *T) *T {
	ks := symID(k)
	if n.k == KIte {
		v := n.v
		return iteVar(v, existsT(n.args[0], k, assumeV(body, v, true)), existsT(n.args[1], k, assumeV(body, v, false)))
	}
	body = assume(body, domainLits(anum(k), n))
	if v := invariantVar(body, ks); v != nil {
		return iteVar(v, existsT(n, k, assumeV(body, v, true)), existsT(n, k, assumeV(body, v, false)))
	}
	if body == tFalse {
		return tFalse
	}
	if c, ok := constOf(n); ok && c.Sign() <= 0 {
		return tFalse
	}
	if body == tTrue {
		return not(lessEq(n, pZero))
	}
	if r, ok := digitExists(n, k, body); ok {
		return r
	}
	return existsRaw(n, k, body)
}

func existsRaw(n, k, body *T) *T {
	h, b := bindSym(k, body)
	rev := assume(subst(body, k, sub(addc(n, -1), anum(k))), domainLits(anum(k), n))
	h2, b2 := bindSym(k, rev)
	if h2 < h || h2 == h && (b2.size < b.size || b2.size == b.size && b2.id < b.id) {
		h, b = h2, b2
	}
	return opaqueBool(atom("EXISTS", strconv.Itoa(h), false, false, false, n, b))
}

// firstT: the least k >= 0 with body(k) (assumed to exist).
func firstT(k, body *T) *T {
	body = assume(body, domainLits(anum(k), nil))
	ks := symID(k)
	if v := invariantVar(body, ks); v != nil {
		return iteVar(v, firstT(k, assumeV(body, v, true)), firstT(k, assumeV(body, v, false)))
	}
	if body == tTrue {
		return pZero
	}
	if body == tFalse {
		return anum(atom("NEVER", "", true, true, true))
	}
	// a single threshold on k
	if body.k == KIte && body.args[0].k == KBool && body.args[1].k == KBool && body.v.kind == bLE {
		if c, r, ok := affine(body.v.base, k); ok && c != 0 {
			// body.v : c*k + r <= thr
			pos := body.args[0] == tTrue
			lim := sub(rat(body.v.thr), r)
			if c < 0 && pos {
				// k >= -lim/|c| : ceil
				f := ceilT(scale(lim, big.NewRat(1, c)))
				return maxT(pZero, f)
			}
			if c > 0 && !pos {
				// c*k > lim : k >= floor(lim/c)+1
				f := addc(floorT(scale(lim, big.NewRat(1, c))), 1)
				return maxT(pZero, f)
			}
		}
	}
	h, b := bindSym(k, body)
	return anum(atom("FIRST", strconv.Itoa(h), true, true, true, b))
}

// lastT: v(k) at the greatest k in [0,n) with cond(k), or dflt.
func lastT(n, k, cond, v, dflt *T) *T {
	ks := symID(k)
	if n.k == KIte {
		w := n.v
		return iteVar(w, lastT(n.args[0], k, assumeV(cond, w, true), assumeV(v, w, true), assumeV(dflt, w, true)),
			lastT(n.args[1], k, assumeV(cond, w, false), assumeV(v, w, false), assumeV(dflt, w, false)))
	}
	cond = assume(cond, domainLits(anum(k), n))
	if cond == tFalse {
		return dflt
	}
	if w := invariantVar(cond, ks); w != nil {
		return iteVar(w, lastT(n, k, assumeV(cond, w, true), assumeV(v, w, true), assumeV(dflt, w, true)),
			lastT(n, k, assumeV(cond, w, false), assumeV(v, w, false), assumeV(dflt, w, false)))
	}
	if cond == tTrue {
		return ite(lessEq(n, pZero), dflt, subst(v, k, addc(n, -1)))
	}
	one := ite(cond, pOne, pZero)
	if pt, _, ok := singlePoint(one, k); ok {
		in := and(and(not(less(pt, pZero)), less(pt, n)), subst(cond, k, pt))
		return ite(in, subst(v, k, pt), dflt)
	}
	if lits, leaf, ok := cubeZero(cond, tFalse); ok && leaf == tTrue {
		v = assume(v, lits)
		if r, ok := eqRewrite(v, k, lits); ok {
			return ite(existsT(n, k, cond), r, dflt)
		}
		if r, ok := digitLast(n, k, lits, cond, v, dflt); ok {
			return r
		}
	}
	return lastRaw(n, k, cond, v, dflt)
}

func lastRaw(n, k, cond, v, dflt *T) *T {
	ks := symID(k)
	// the index of the last k with the condition
	v = ite(cond, v, tBot)
	if !hasSym(v, ks) {
		return ite(existsT(n, k, cond), v, dflt)
	}
	h, b := bindSym(k, cond)
	last := anum(atom("LAST", strconv.Itoa(h), true, true, true, n, b))
	return ite(existsT(n, k, cond), subst(v, k, last), dflt)
}

// ---------------------------------------------------------------- substitution

type substKey struct {
	t, s, v int
}

var substMemo = map[substKey]*T{}

// subst replaces the fresh symbol s by v (re-normalising).
func subst(t, s, v *T) *T {
	sid := symID(s)
	if !hasSym(t, sid) {
		return t
	}
	if t == s || (t.k == KPoly && len(t.ms) == 1 && t == anum(s)) {
		return v
	}
	k := substKey{t.id, s.id, v.id}
	if r, ok := substMemo[k]; ok {
		return r
	}
	r := rebuild(t, func(x *T) *T { return subst(x, s, v) }, func(a *T) bool { return hasSym(a, sid) })
	substMemo[k] = r
	return r
}

type bvKey struct {
	t, h, v int
}

var bvMemo = map[bvKey]*T{}

// substBV replaces the bound variable of height h by v.
func substBV(t *T, h int, v *T) *T {
	if !t.dang {
		return t
	}
	k := bvKey{t.id, h, v.id}
	if r, ok := bvMemo[k]; ok {
		return r
	}
	var r *T
	if t.k == KAtom && t.op == "bv" && t.aux == strconv.Itoa(h) {
		r = v
	} else {
		r = rebuild(t, func(x *T) *T { return substBV(x, h, v) }, func(a *T) bool { return a.dang })
	}
	bvMemo[k] = r
	return r
}

// rebuild applies f to the immediate subterms and re-normalises.
func rebuild(t *T, f func(*T) *T, touched func(*T) bool) *T {
	switch t.k {
	case KPoly:
		acc := pZero
		for _, m := range t.ms {
			ch := false
			for _, x := range m.f {
				if touched(x.a) {
					ch = true
				}
			}
			if !ch {
				acc = add(acc, mkPoly([]mono{m}))
				continue
			}
			p := rat(m.c)
			for _, x := range m.f {
				if !touched(x.a) {
					p = mul(p, mkPoly([]mono{{ratOne, []fac{x}}}))
					continue
				}
				na := f(x.a)
				if na.k == KAtom {
					na = anum(na)
				}
				p = mul(p, powInt(na, x.e))
			}
			acc = add(acc, p)
		}
		return acc
	case KIte:
		if !touched(t.v.base) {
			return iteVar(t.v, f(t.args[0]), f(t.args[1]))
		}
		// the guard first: variables are ordered by age, and a guard that is
		// younger than what it guards multiplies the cases
		b := varOn(t.v, f(t.v.base))
		return ite(b, f(t.args[0]), f(t.args[1]))
	case KTuple:
		return tuple(mapT(t.args, f)...)
	case KSlice:
		a := mapT(t.args, f)
		return mkSlice(a[0], t.aux, a[1], a[2], a[3])
	case KPtr:
		a := mapT(t.args, f)
		return mkPtr(a[0], t.aux, a[1:]...)
	case KClo:
		return mkClo(t.ref, t.aux, mapT(t.args, f))
	case KIface:
		return mkIface(t.aux, t.ref, f(t.args[0]))
	case KObj:
		if t.op == "sym" {
			return lift(func(l []*T) *T { return objSym(l[0]) }, f(t.args[0]))
		}
		return mkObj(t.op, t.aux, t.ref, mapT(t.args, f)...)
	case KArr:
		h, _ := strconv.Atoi(t.aux)
		j := freshSym(true, true, "J")
		body := substBV(t.args[0], h, anum(j))
		return mkLam(j, f(body))
	case KAtom:
		return rebuildAtom(t, f)
	}
	return t
}

func mapT(ts []*T, f func(*T) *T) []*T {
	out := make([]*T, len(ts))
	for i, t := range ts {
		out[i] = f(t)
	}
	return out
}

func varOn(v *bvar, b *T) *T {
	switch v.kind {
	case bLT:
		return less(b, rat(v.thr))
	case bLE:
		return lessEq(b, rat(v.thr))
	case bEQ:
		return lift(func(l []*T) *T { return equalT(l[0], str(v.str)) }, b)
	}
	// opaque
	return lift(func(l []*T) *T {
		if l[0].k == KBool {
			return l[0]
		}
		return opaqueBool(l[0])
	}, b)
}

func mkClo(ref interface{}, aux string, args []*T) *T {
	return lift(func(l []*T) *T {
		return intern("clo:"+aux+":"+ids(l), func() *T {
			return &T{k: KClo, ref: ref, aux: aux, args: append([]*T(nil), l...)}
		})
	}, args...)
}

func mkObj(op, aux string, ref interface{}, args ...*T) *T {
	return intern("obj:"+op+":"+aux+":"+ids(args), func() *T {
		return &T{k: KObj, op: op, aux: aux, ref: ref, args: append([]*T(nil), args...)}
	})
}

func rebuildAtom(t *T, f func(*T) *T) *T {
	if isBinder(t.op) {
		return rebuildBinder(t, f)
	}
	a := mapT(t.args, f)
	switch t.op {
	case "sqrt":
		return sqrtT(a[0])
	case "INV":
		return inv(a[0])
	case "floor":
		return floorT(a[0])
	case "trunc":
		return truncT(a[0])
	case "idiv":
		return idiv(a[0], a[1])
	case "wrap":
		n, _ := strconv.Atoi(t.aux)
		return wrapT(n, a[0])
	case "SEL":
		return sel(a[0], a[1])
	case "LEN":
		return lenOf(a[0])
	case "CAP":
		return capOf(a[0])
	case "isnil":
		return lift(func(l []*T) *T { return equalT(l[0], tNil) }, a[0])
	case "eq":
		return equalT(a[0], a[1])
	case "fn":
		if t.aux == "pow" {
			return powT(a[0], a[1])
		}
		return fnN(t.aux, t.isInt, t.nonneg, a...)
	case "nfn", "lamfn":
	case "concat":
		return refold(t, a)
	}
	if t.op == "uf" && !t.num && (t.aux == "path.Join" || strings.HasPrefix(t.aux, "fmt%")) {
		return refold(t, a)
	}
	if t.op == "uf" && t.num {
		if k, ok := strings.CutPrefix(t.aux, "byte:"); ok {
			return byteOf(strings.TrimSuffix(k, "#u8"), a[0], a[1])
		}
		if k, ok := strings.CutPrefix(t.aux, "compose:"); ok {
			return compose(k, a)
		}
	}
	if t.op == "uf" || t.op == "INIT" || t.op == "AINIT" || t.op == "nonnil" || t.op == "EFF" || t.op == "res" || t.op == "ubit" {
		return mkUF(t, a)
	}
	if len(a) == 0 {
		return t
	}
	return mkUF(t, a)
}

// mkUF rebuilds an uninterpreted atom like t with new arguments, lifting
// conditionals out of its arguments.
func mkUF(t *T, a []*T) *T {
	return lift(func(l []*T) *T {
		n := atom(t.op, t.aux, t.num, t.isInt, t.nonneg, l...)
		return n
	}, a...)
}

func rebuildBinder(t *T, f func(*T) *T) *T {
	parts := strings.SplitN(t.aux, ":", 2)
	h, _ := strconv.Atoi(parts[0])
	switch t.op {
	case "SUM", "EXISTS", "LAST":
		k := freshSym(true, true, "k")
		n := f(t.args[0])
		body := f(substBV(t.args[1], h, anum(k)))
		if t.op == "SUM" {
			return sumT(n, k, body)
		}
		if t.op == "EXISTS" {
			return existsT(n, k, body)
		}
		h2, b := bindSym(k, assume(body, domainLits(anum(k), n)))
		return lift(func(l []*T) *T {
			return anum(atom("LAST", strconv.Itoa(h2), true, true, true, l[0], b))
		}, n)
	case "FIRST":
		k := freshSym(true, true, "k")
		return firstT(k, f(substBV(t.args[0], h, anum(k))))
	case "REC", "AREC":
		return rebuildRec(t, f)
	}
	fail("binder %s", t.op)
	return nil
}

// ---------------------------------------------------------------- printing

func show(t *T) string {
	s := showD(t, 0)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func showVar(v *bvar, d int) string {
	switch v.kind {
	case bLT:
		return showD(v.base, d+1) + " < " + v.thr.RatString()
	case bLE:
		return showD(v.base, d+1) + " <= " + v.thr.RatString()
	case bEQ:
		return showD(v.base, d+1) + " == " + strconv.Quote(v.str)
	}
	return showD(v.base, d+1)
}

func showD(t *T, d int) string {
	if d > 14 {
		return "…"
	}
	sub := func(ts []*T) string {
		var ss []string
		n := 0
		for _, a := range ts {
			s := showD(a, d+1)
			n += len(s)
			ss = append(ss, s)
			if n > 3000 {
				ss = append(ss, "…")
				break
			}
		}
		return strings.Join(ss, ", ")
	}
	switch t.k {
	case KPoly:
		if len(t.ms) == 0 {
			return "0"
		}
		var ss []string
		n := 0
		for _, m := range t.ms {
			var fs []string
			if m.c.Cmp(ratOne) != 0 || len(m.f) == 0 {
				fs = append(fs, ratStr(m.c))
			}
			for _, f := range m.f {
				s := showD(f.a, d+1)
				if f.e != 1 {
					s += "^" + strconv.Itoa(f.e)
				}
				fs = append(fs, s)
			}
			s := strings.Join(fs, "*")
			n += len(s)
			ss = append(ss, s)
			if n > 3000 {
				ss = append(ss, "…")
				break
			}
		}
		if len(ss) == 1 {
			return ss[0]
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case KIte:
		return "[" + showVar(t.v, d) + " ? " + showD(t.args[0], d+1) + " : " + showD(t.args[1], d+1) + "]"
	case KBool:
		return t.aux
	case KStr:
		return strconv.Quote(t.aux)
	case KNil:
		return "nil"
	case KBot:
		return "⊥"
	case KTuple:
		return "{" + sub(t.args) + "}"
	case KPtr:
		return "&" + showD(t.args[0], d+1) + t.aux + idxs(t.args[1:], d)
	case KSlice:
		return "slice(" + showD(t.args[0], d+1) + t.aux + " " + sub(t.args[1:3]) + ")"
	case KClo:
		return "func " + t.aux + "(" + sub(t.args) + ")"
	case KIface:
		return "iface<" + t.aux + ">(" + showD(t.args[0], d+1) + ")"
	case KObj:
		if t.op == "sym" {
			return "*" + showD(t.args[0], d+1)
		}
		return t.op + ":" + t.aux
	case KArr:
		return "λ" + t.aux + ". " + showD(t.args[0], d+1)
	case KAtom:
		switch t.op {
		case "sym":
			return "s" + t.aux
		case "bv":
			return "#" + t.aux
		case "param":
			return t.aux
		case "SEL":
			return showD(t.args[0], d+1) + "[" + showD(t.args[1], d+1) + "]"
		case "INIT", "AINIT":
			return showD(t.args[0], d+1) + t.aux
		}
		if len(t.args) == 0 {
			return t.op + ":" + t.aux
		}
		return t.op + ":" + t.aux + "(" + sub(t.args) + ")"
	}
	return fmt.Sprintf("?%d", t.k)
}

func idxs(ts []*T, d int) string {
	if len(ts) == 0 {
		return ""
	}
	var ss []string
	for _, t := range ts {
		ss = append(ss, showD(t, d+1))
	}
	return "[" + strings.Join(ss, "][") + "]"
}

// isIntPoly: integer coefficients on integer atoms.
func (t *T) isIntPoly() bool { return t.k == KPoly && polyIsInt(t) }
