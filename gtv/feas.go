package main

// Guard pruning: a conjunction of linear guards on a path of the decision diagram
// is an abstract polyhedron; paths whose polyhedron is empty are dropped. This is
// the usual polyhedral abstract domain's emptiness test (projection of one
// variable after another), with the bounds of floor, division and remainder terms
// added as facts.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
)

type lin struct {
	c      map[string]*big.Rat
	k      *big.Rat // sum + k <= 0 (or < 0)
	strict bool
}

func facsKey(f []fac) string {
	s := ""
	for _, x := range f {
		s += strconv.Itoa(x.a.id) + "^" + strconv.Itoa(x.e) + ";"
	}
	return s
}

func linOf(p *T, sign int64, k *big.Rat, strict bool) (lin, bool) {
	if p.k != KPoly {
		return lin{}, false
	}
	l := lin{c: map[string]*big.Rat{}, k: new(big.Rat), strict: strict}
	s := big.NewRat(sign, 1)
	for _, m := range p.ms {
		v := new(big.Rat).Mul(m.c, s)
		if len(m.f) == 0 {
			l.k.Add(l.k, v)
		} else {
			l.c[facsKey(m.f)] = v
		}
	}
	if k != nil {
		l.k.Add(l.k, k)
	}
	return l, true
}

// guardLins translates one literal.
func guardLins(l literal) (out []lin) {
	v := l.v
	if v.base == nil || v.base.k != KPoly {
		return nil
	}
	isInt := atomsInt(v.base)
	one := big.NewRat(1, 1)
	add := func(x lin, ok bool) {
		if ok {
			out = append(out, x)
		}
	}
	neg := func(r *big.Rat) *big.Rat { return new(big.Rat).Neg(r) }
	switch v.kind {
	case bLT:
		if l.val {
			add(linOf(v.base, 1, neg(v.thr), true))
		} else {
			add(linOf(v.base, -1, v.thr, false))
		}
	case bLE:
		if l.val {
			add(linOf(v.base, 1, neg(v.thr), false))
		} else if isInt {
			add(linOf(v.base, -1, new(big.Rat).Add(v.thr, one), false))
		} else {
			add(linOf(v.base, -1, v.thr, true))
		}
	case bEQ:
		if l.val && v.thr != nil {
			add(linOf(v.base, 1, neg(v.thr), false))
			add(linOf(v.base, -1, v.thr, false))
		}
	}
	return
}

// facts about the atoms of p.
func atomFacts(p *T, seen map[int]bool, out *[]lin, depth int) {
	if p.k != KPoly || depth > 4 {
		return
	}
	put := func(x lin, ok bool) {
		if ok {
			*out = append(*out, x)
		}
	}
	one := big.NewRat(1, 1)
	for _, m := range p.ms {
		if len(m.f) > 0 {
			// the sign of a product of nonnegative or even powers
			nn := true
			for _, f := range m.f {
				if f.e%2 != 0 && !f.a.nonneg {
					nn = false
				}
			}
			if nn {
				q := mkPoly([]mono{{one, m.f}})
				if !seen[-q.id] {
					seen[-q.id] = true
					put(linOf(q, -1, nil, false))
				}
			}
		}
		for _, f := range m.f {
			a := f.a
			if seen[a.id] {
				continue
			}
			seen[a.id] = true
			t := anum(a)
			switch a.op {
			case "floor":
				x := a.args[0]
				if x.k == KPoly {
					put(linOf(sub(t, x), 1, nil, false))
					put(linOf(sub(x, t), 1, big.NewRat(-1, 1), true))
					atomFacts(x, seen, out, depth+1)
				}
			case "irem":
				x, y := a.args[0], a.args[1]
				if y.k == KPoly && nonNeg(y) {
					put(linOf(sub(t, y), 1, one, false))
					if x.k == KPoly && nonNeg(x) {
						put(linOf(t, -1, nil, false))
						put(linOf(sub(t, x), 1, nil, false))
					}
				}
			case "idiv":
				x, y := a.args[0], a.args[1]
				if c, ok := constOf(y); ok && c.Sign() > 0 && x.k == KPoly && nonNeg(x) {
					put(linOf(sub(mul(t, y), x), 1, nil, false))
					put(linOf(sub(x, mul(t, y)), 1, new(big.Rat).Sub(one, c), false))
					atomFacts(x, seen, out, depth+1)
				}
			}
			if a.nonneg {
				put(linOf(t, -1, nil, false))
			}
		}
	}
}

// infeasible reports that no real (integer-tightened) point satisfies all guards.
func infeasible(lits []literal, extra ...lin) bool {
	cs := append([]lin(nil), extra...)
	seen := map[int]bool{}
	for _, l := range lits {
		cs = append(cs, guardLins(l)...)
	}
	var facts []lin
	for _, l := range lits {
		if l.v.base != nil {
			atomFacts(l.v.base, seen, &facts, 0)
		}
	}
	// products of an atom with known sign: p > 0 and x > 0 give p*x > 0
	pos := map[string]bool{}
	for _, c := range cs {
		if len(c.c) == 1 && c.k.Sign() >= 0 {
			for k, v := range c.c {
				if v.Sign() < 0 {
					pos[k] = true
				}
			}
		}
	}
	prod := map[string]bool{}
	for _, l := range lits {
		if l.v.base == nil || l.v.base.k != KPoly {
			continue
		}
		for _, m := range l.v.base.ms {
			if len(m.f) < 2 || prod[facsKey(m.f)] {
				continue
			}
			ok := true
			for _, f := range m.f {
				if f.e%2 != 0 && !f.a.nonneg && !pos[facsKey([]fac{{f.a, 1}})] {
					ok = false
				}
			}
			if ok {
				prod[facsKey(m.f)] = true
				facts = append(facts, lin{c: map[string]*big.Rat{facsKey(m.f): big.NewRat(-1, 1)}, k: new(big.Rat)})
			}
		}
	}
	facts = append(facts, productFacts(cs, lits)...)
	strict := map[string]bool{}
	for _, c := range cs {
		if len(c.c) == 1 && (c.k.Sign() > 0 || c.k.Sign() == 0 && c.strict) {
			for k, v := range c.c {
				if v.Sign() < 0 {
					strict[k] = true
				}
			}
		}
	}
	facts = append(facts, floorFacts(lits, strict)...)
	facts = append(facts, divFacts(lits, pos, strict)...)
	cs = append(cs, facts...)
	return emptyPoly(cs)
}

func emptyPoly(cs []lin) bool {
	for {
		// contradictions among constants
		var rest []lin
		dedup := map[string]int{}
		for _, c := range cs {
			for k, v := range c.c {
				if v.Sign() == 0 {
					delete(c.c, k)
				}
			}
			if len(c.c) == 0 {
				if c.k.Sign() > 0 || c.k.Sign() == 0 && c.strict {
					return true
				}
				continue
			}
			norm(&c)
			k := linKey(c)
			if j, ok := dedup[k]; ok {
				// same direction: keep the tighter
				d := rest[j].k.Cmp(c.k)
				if d < 0 || d == 0 && c.strict {
					rest[j] = c
				}
				continue
			}
			dedup[k] = len(rest)
			rest = append(rest, c)
		}
		cs = rest
		if len(cs) == 0 || len(cs) > 600 {
			return false
		}
		// the variable whose elimination is cheapest
		up, dn := map[string]int{}, map[string]int{}
		for _, c := range cs {
			for k, v := range c.c {
				if v.Sign() > 0 {
					up[k]++
				} else {
					dn[k]++
				}
			}
		}
		var names []string
		for k := range up {
			names = append(names, k)
		}
		for k := range dn {
			if up[k] == 0 {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		best, cost := "", 0
		for _, k := range names {
			w := up[k]*dn[k] - up[k] - dn[k]
			if best == "" || w < cost {
				best, cost = k, w
			}
		}
		var next []lin
		var ups, dns []lin
		for _, c := range cs {
			v := c.c[best]
			switch {
			case v == nil || v.Sign() == 0:
				next = append(next, c)
			case v.Sign() > 0:
				ups = append(ups, c)
			default:
				dns = append(dns, c)
			}
		}
		for _, a := range ups {
			for _, b := range dns {
				fa := new(big.Rat).Neg(b.c[best])
				fb := a.c[best]
				n := lin{c: map[string]*big.Rat{}, k: new(big.Rat), strict: a.strict || b.strict}
				for k, v := range a.c {
					n.c[k] = new(big.Rat).Mul(v, fa)
				}
				for k, v := range b.c {
					x := new(big.Rat).Mul(v, fb)
					if o, ok := n.c[k]; ok {
						x.Add(x, o)
					}
					n.c[k] = x
				}
				delete(n.c, best)
				n.k.Add(new(big.Rat).Mul(a.k, fa), new(big.Rat).Mul(b.k, fb))
				next = append(next, n)
			}
		}
		cs = next
	}
}

func norm(c *lin) {
	var ks []string
	for k := range c.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	f := new(big.Rat).Abs(c.c[ks[0]])
	if f.Cmp(ratOne) == 0 {
		return
	}
	f.Inv(f)
	n := lin{c: map[string]*big.Rat{}, k: new(big.Rat).Mul(c.k, f), strict: c.strict}
	for k, v := range c.c {
		n.c[k] = new(big.Rat).Mul(v, f)
	}
	*c = n
}

func linKey(c lin) string {
	var ks []string
	for k := range c.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + "*" + c.c[k].RatString() + "+"
	}
	return s
}

// impliedEqualities lists polynomials that the guards force to zero.
func impliedEqualities(lits []literal) []*T {
	var out []*T
	seen := map[int]bool{}
	for _, l := range lits {
		v := l.v
		if v.base == nil || v.base.k != KPoly || v.thr == nil {
			continue
		}
		p := sub(v.base, rat(v.thr))
		if seen[p.id] {
			continue
		}
		if v.kind == bEQ {
			if l.val {
				seen[p.id] = true
				out = append(out, p)
			}
			continue
		}
		// the guard bounds p from one side; is it tight?
		sign := int64(1)
		switch {
		case v.kind == bLE && l.val, v.kind == bLT && !l.val:
			if !l.val {
				sign = -1
			}
			q, ok := linOf(p, sign, nil, true)
			if ok && infeasible(lits, q) {
				seen[p.id] = true
				out = append(out, p)
			}
		case v.kind == bLE && !l.val && atomsInt(v.base):
			p = addc(p, -1)
			q, ok := linOf(p, -1, nil, true)
			if ok && infeasible(lits, q) {
				seen[p.id] = true
				out = append(out, p)
			}
		}
	}
	return out
}

// applyEqualities rewrites terms with polynomials known to be zero.
func applyEqualities(eqs []*T, ts []*T) []*T {
	ts = append([]*T(nil), ts...)
	eqs = append([]*T(nil), eqs...)
	for i := range eqs {
		p := eqs[i]
		if p.k != KPoly {
			continue
		}
		// an atom that occurs once, linearly
		var at *T
		var c *big.Rat
		for _, m := range p.ms {
			if len(m.f) != 1 || m.f[0].e != 1 {
				continue
			}
			a := m.f[0].a
			n := 0
			for _, o := range p.ms {
				for _, f := range o.f {
					if f.a == a || dependsOn(f.a, a) {
						n++
					}
				}
			}
			if n == 1 && (at == nil || a.size < at.size || a.size == at.size && a.id > at.id) {
				at, c = a, m.c
			}
		}
		if at == nil {
			continue
		}
		// at = at - p/c
		v := sub(anum(at), mul(rat(new(big.Rat).Inv(c)), p))
		memo := map[int]*T{}
		for j := range ts {
			ts[j] = replaceAtom(ts[j], at, v, memo)
		}
		for j := i + 1; j < len(eqs); j++ {
			eqs[j] = replaceAtom(eqs[j], at, v, memo)
		}
	}
	return ts
}

func dependsOn(t, a *T) bool {
	seen := map[int]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if t == a {
			return true
		}
		if t.size < a.size || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, x := range t.args {
			if rec(x) {
				return true
			}
		}
		for _, m := range t.ms {
			for _, f := range m.f {
				if rec(f.a) {
					return true
				}
			}
		}
		return t.v != nil && t.v.base != nil && rec(t.v.base)
	}
	return rec(t)
}

func replaceAtom(t, a, v *T, memo map[int]*T) *T {
	if t == a {
		return v
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	if !dependsOn(t, a) {
		memo[t.id] = t
		return t
	}
	r := rebuild(t, func(x *T) *T { return replaceAtom(x, a, v, memo) }, func(x *T) bool { return dependsOn(x, a) })
	memo[t.id] = r
	return r
}

// productFacts bounds products x*y of atoms with known constant bounds:
// (x - a)(y - b) has the sign of its factors.
func productFacts(cs []lin, lits []literal) []lin {
	type bnd struct {
		v     *big.Rat
		lower bool
	}
	bounds := map[string][]bnd{}
	for _, c := range cs {
		if len(c.c) != 1 {
			continue
		}
		for k, v := range c.c {
			// v*x + c.k <= 0
			b := new(big.Rat).Quo(new(big.Rat).Neg(c.k), v)
			bounds[k] = append(bounds[k], bnd{b, v.Sign() < 0})
		}
	}
	best := func(k string) (out []bnd) {
		var lo, hi *big.Rat
		for _, b := range bounds[k] {
			if b.lower && (lo == nil || b.v.Cmp(lo) > 0) {
				lo = b.v
			}
			if !b.lower && (hi == nil || b.v.Cmp(hi) < 0) {
				hi = b.v
			}
		}
		if lo != nil {
			out = append(out, bnd{lo, true})
		}
		if hi != nil {
			out = append(out, bnd{hi, false})
		}
		return
	}
	var out []lin
	done := map[string]bool{}
	for _, l := range lits {
		if l.v.base == nil || l.v.base.k != KPoly {
			continue
		}
		for _, m := range l.v.base.ms {
			if len(m.f) != 2 || m.f[0].e != 1 || m.f[1].e != 1 {
				continue
			}
			key := facsKey(m.f)
			if done[key] {
				continue
			}
			done[key] = true
			kx, ky := facsKey(m.f[:1]), facsKey(m.f[1:])
			for _, a := range best(kx) {
				for _, b := range best(ky) {
					// s*(x-a)(y-b) >= 0 with s = +1 if both bounds have the same direction
					s := int64(-1)
					if a.lower != b.lower {
						s = 1
					}
					// s*(xy - b x - a y + a b) <= 0
					r := func(v *big.Rat) *big.Rat { return new(big.Rat).Mul(big.NewRat(s, 1), v) }
					n := lin{c: map[string]*big.Rat{}, k: r(new(big.Rat).Mul(a.v, b.v))}
					n.c[key] = r(big.NewRat(1, 1))
					addTo := func(k string, v *big.Rat) {
						if o, ok := n.c[k]; ok {
							v = new(big.Rat).Add(o, v)
						}
						if v.Sign() == 0 {
							delete(n.c, k)
						} else {
							n.c[k] = v
						}
					}
					addTo(kx, r(new(big.Rat).Neg(b.v)))
					addTo(ky, r(new(big.Rat).Neg(a.v)))
					out = append(out, n)
				}
			}
		}
	}
	return out
}

// floorFacts carries bounds of X over to floor(X/y): with y > 0 and an integer
// polynomial P, X < y*P gives floor(X/y) <= P-1 and X >= y*P gives
// floor(X/y) >= P.
func floorFacts(lits []literal, pos map[string]bool) []lin {
	type fl struct {
		t, x *T // floor atom, X
		y    *T
	}
	var fls []fl
	var atoms []*T
	seen := map[int]bool{}
	var scan func(p *T, depth int)
	scan = func(p *T, depth int) {
		if p == nil || p.k != KPoly || depth > 4 {
			return
		}
		for _, m := range p.ms {
			for _, f := range m.f {
				if seen[f.a.id] || f.a.op != "floor" {
					continue
				}
				seen[f.a.id] = true
				atoms = append(atoms, f.a)
				x := f.a.args[0]
				scan(x, depth+1)
				if x.k != KPoly || len(x.ms) == 0 {
					continue
				}
				for _, g := range x.ms[0].f {
					if g.e != -1 {
						continue
					}
					all := true
					for _, mm := range x.ms {
						has := false
						for _, h := range mm.f {
							has = has || h.a == g.a && h.e == -1
						}
						all = all && has
					}
					if all && pos[facsKey([]fac{{g.a, 1}})] {
						fls = append(fls, fl{anum(f.a), mul(x, anum(g.a)), g.a})
					}
				}
			}
		}
	}
	for _, l := range lits {
		scan(l.v.base, 0)
	}
	var out []lin
	one := big.NewRat(1, 1)
	// floor(floor(X/a)/b) = floor(X/(a*b)) for positive integers a, b
	flat := map[string]*T{}
	for _, a := range atoms {
		x, ds := anum(a), []int(nil)
		ok := true
		for ok && len(x.ms) == 1 && x.ms[0].c.Cmp(one) == 0 && len(x.ms[0].f) == 1 && x.ms[0].f[0].e == 1 && x.ms[0].f[0].a.op == "floor" {
			y := x.ms[0].f[0].a.args[0]
			if y.k != KPoly || len(y.ms) == 0 {
				break
			}
			n := y
			var here []int
			for _, g := range y.ms[0].f {
				if g.e != -1 {
					continue
				}
				if !pos[facsKey([]fac{{g.a, 1}})] || !g.a.isInt {
					ok = false
					break
				}
				n = mul(n, anum(g.a))
				here = append(here, g.a.id)
			}
			if !ok || len(here) == 0 {
				break
			}
			x = n
			ds = append(ds, here...)
		}
		if len(ds) == 0 {
			continue
		}
		sort.Ints(ds)
		key := fmt.Sprint(x.id, ds)
		if o, have := flat[key]; have {
			d := sub(anum(a), o)
			if l, ok := linOf(d, 1, nil, false); ok {
				out = append(out, l)
			}
			if l, ok := linOf(d, -1, nil, false); ok {
				out = append(out, l)
			}
		} else {
			flat[key] = anum(a)
		}
	}
	for _, f := range fls {
		if len(f.x.ms) == 0 {
			continue
		}
		k0 := facsKey(f.x.ms[0].f)
		yinv := inv(anum(f.y))
		for _, l := range lits {
			if l.v.base == nil || l.v.base.k != KPoly || l.v.kind != bLT && l.v.kind != bLE {
				continue
			}
			if !atomsInt(l.v.base) {
				continue
			}
			var c *big.Rat
			for _, m := range l.v.base.ms {
				if facsKey(m.f) == k0 {
					c = new(big.Rat).Quo(m.c, f.x.ms[0].c)
				}
			}
			if c == nil || new(big.Rat).Abs(c).Cmp(one) != 0 {
				continue
			}
			// base = c*X + rest
			rest := sub(l.v.base, mul(rat(c), f.x))
			// thr folded in: base <(=) thr
			r := mul(rest, yinv)
			bad := false
			if r.k != KPoly {
				continue
			}
			for _, m := range r.ms {
				for _, g := range m.f {
					bad = bad || g.e < 0
				}
				bad = bad || !m.c.IsInt()
			}
			if bad {
				continue
			}
			// upper: base <= t (or < t)
			t := l.v.thr
			if t == nil || !t.IsInt() {
				continue
			}
			upper := l.val
			strict := l.v.kind == bLT
			if !l.val { // base > t or base >= t
				strict = !strict
			}
			if upper {
				// c*X + y*r <= t or < t
				if t.Sign() > 0 {
					continue
				}
				isStrict := t.Sign() < 0 || strict
				if c.Sign() > 0 {
					// X <= -y r : q + r <= 0, strict: q + r + 1 <= 0
					k := new(big.Rat)
					if isStrict {
						k = one
					}
					if x, ok := linOf(add(f.t, r), 1, k, false); ok {
						out = append(out, x)
					}
				} else {
					// X >= y r : q >= r
					if x, ok := linOf(sub(r, f.t), 1, nil, false); ok {
						out = append(out, x)
					}
				}
			} else {
				// c*X + y*r >= t or > t; the integers allow t in (-1, 0]
				tt := new(big.Rat).Set(t)
				if strict {
					tt.Add(tt, one)
				}
				if tt.Sign() < 0 {
					continue
				}
				if c.Sign() > 0 {
					// X >= -y r : q >= -r
					if x, ok := linOf(add(f.t, r), -1, nil, false); ok {
						out = append(out, x)
					}
				} else {
					// X <= y r (strict when tt > 0)
					k := new(big.Rat)
					if tt.Sign() > 0 {
						k = one
					}
					if x, ok := linOf(sub(f.t, r), 1, k, false); ok {
						out = append(out, x)
					}
				}
			}
		}
	}
	return out
}

// divFacts: y*q <= x <= y*q+y-1 for q = x/y (truncated) with x >= 0, y > 0.
func divFacts(lits []literal, nonneg, strict map[string]bool) []lin {
	var out []lin
	seen := map[int]bool{}
	var quots []*T
	isPos := func(p *T, pos map[string]bool) bool {
		if p.k != KPoly || len(p.ms) != 1 || p.ms[0].c.Sign() < 0 {
			return false
		}
		for _, f := range p.ms[0].f {
			if !pos[facsKey([]fac{{f.a, 1}})] || f.e < 0 || !f.a.isInt {
				return false
			}
		}
		return true
	}
	for _, l := range lits {
		if l.v.base == nil || l.v.base.k != KPoly {
			continue
		}
		for _, m := range l.v.base.ms {
			for _, f := range m.f {
				if seen[f.a.id] || f.a.op != "idiv" {
					continue
				}
				seen[f.a.id] = true
				x, y := f.a.args[0], f.a.args[1]
				if !isPos(x, nonneg) || !isPos(y, strict) {
					continue
				}
				q := anum(f.a)
				// (x/y)/z = x/(y*z)
				for _, o := range quots {
					for k := 0; k < 2; k++ {
						a, b := o, f.a
						if k == 1 {
							a, b = b, a
						}
						if a.args[0] != b.args[0] || a == b {
							continue
						}
						z := div(b.args[1], a.args[1])
						if !isPos(z, strict) {
							continue
						}
						qa, qb := anum(a), anum(b)
						if c, ok := linOf(sub(mul(z, qb), qa), 1, nil, false); ok {
							out = append(out, c)
						}
						if c, ok := linOf(sub(qa, add(mul(z, qb), z)), 1, big.NewRat(1, 1), false); ok {
							out = append(out, c)
						}
					}
				}
				quots = append(quots, f.a)
				if c, ok := linOf(q, -1, nil, false); ok {
					out = append(out, c)
				}
				if c, ok := linOf(sub(mul(q, y), x), 1, nil, false); ok {
					out = append(out, c)
				}
				if c, ok := linOf(sub(x, add(mul(q, y), y)), 1, big.NewRat(1, 1), false); ok {
					out = append(out, c)
				}
			}
		}
	}
	return out
}
