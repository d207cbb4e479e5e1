package main

import (
	"fmt"
	"math/big"
)

// callSpec evaluates a plain harness function of a specification file.
func (c *Ctx) callSpec(pkg, name string) ([]*T, []*T, *Ev, error) {
	p := c.l.Pkgs[modPath+"/"+pkg]
	if p == nil {
		return nil, nil, nil, fmt.Errorf("package %s is not loaded", pkg)
	}
	fn := lookupFn(c.l, p, name)
	if fn == nil {
		return nil, nil, nil, fmt.Errorf("no function %s", name)
	}
	var res, args []*T
	var e *Ev
	err := protect(func() {
		e = newEv(c.l)
		for i, pp := range fn.Params {
			args = append(args, symval(pp.Type(), "param", fmt.Sprintf("p%d", i)))
		}
		res = e.call(fn, args, nil, newState())
	})
	return res, args, e, err
}

type ivec [3]int

// offsetIn reads v - base as skip*(a + b*w + c*w*w).
func offsetIn(v, base, w, skip *T) (ivec, bool) {
	d := sub(v, base)
	if d.k != KPoly {
		return ivec{}, false
	}
	var o ivec
	for _, m := range d.ms {
		e, s := 0, 0
		for _, f := range m.f {
			switch {
			case anum(f.a) == w:
				e = f.e
			case skip != nil && anum(f.a) == skip:
				s = f.e
			default:
				return o, false
			}
		}
		if skip != nil && s != 1 || e < 0 || e > 2 || !m.c.IsInt() || !m.c.Num().IsInt64() {
			return o, false
		}
		o[e] += int(m.c.Num().Int64())
	}
	return o, true
}

func vsub(a, b ivec) ivec { return ivec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func vcross(a, b ivec) ivec {
	return ivec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func vdot(a, b ivec) int { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }

func det4(t [4]ivec) int {
	return vdot(vsub(t[1], t[0]), vcross(vsub(t[2], t[0]), vsub(t[3], t[0])))
}

// apart: a plane separates the interiors of the two tetrahedra (exact, by the
// separating axis theorem on face normals and edge products).
func apart(a, b [4]ivec) bool {
	edges := func(t [4]ivec) (out []ivec) {
		for i := 0; i < 4; i++ {
			for j := i + 1; j < 4; j++ {
				out = append(out, vsub(t[j], t[i]))
			}
		}
		return
	}
	var axes []ivec
	ea, eb := edges(a), edges(b)
	for _, es := range [][]ivec{ea, eb} {
		for i := range es {
			for j := i + 1; j < len(es); j++ {
				axes = append(axes, vcross(es[i], es[j]))
			}
		}
	}
	for _, x := range ea {
		for _, y := range eb {
			axes = append(axes, vcross(x, y))
		}
	}
	for _, n := range axes {
		if n == (ivec{}) {
			continue
		}
		rng := func(t [4]ivec) (lo, hi int) {
			lo, hi = vdot(n, t[0]), vdot(n, t[0])
			for _, p := range t[1:] {
				if v := vdot(n, p); v < lo {
					lo = v
				} else if v > hi {
					hi = v
				}
			}
			return
		}
		la, ha := rng(a)
		lb, hb := rng(b)
		if ha <= lb || hb <= la {
			return true
		}
	}
	return false
}

// checkTiling decides whether the tetrahedra fill the unit cube exactly once
// and meet those of the neighbouring cubes face to face.
func checkTiling(ts [][4]ivec) error {
	vol := 0
	for i, t := range ts {
		for k, p := range t {
			for _, x := range p {
				if x != 0 && x != 1 {
					return fmt.Errorf("corner %d of tetrahedron %d is %v, outside its cube", k, i, p)
				}
			}
		}
		v := det4(t)
		if v < 0 {
			v = -v
		}
		if v == 0 {
			return fmt.Errorf("tetrahedron %d is flat: %v", i, t)
		}
		vol += v
	}
	if vol != 6 {
		return fmt.Errorf("the volumes add up to %s of the cube", big.NewRat(int64(vol), 6).RatString())
	}
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if !apart(ts[i], ts[j]) {
				return fmt.Errorf("tetrahedra %d and %d overlap: %v and %v", i, j, ts[i], ts[j])
			}
		}
	}
	// faces on the cube's sides: the diagonals of opposite sides agree
	for ax := 0; ax < 3; ax++ {
		side := func(v int) map[string]bool {
			out := map[string]bool{}
			for _, t := range ts {
				for i := 0; i < 4; i++ {
					for j := 0; j < 4; j++ {
						if t[i][ax] == v && t[j][ax] == v {
							a, b := t[i], t[j]
							a[ax], b[ax] = 0, 0
							out[fmt.Sprint(a, b)] = true
						}
					}
				}
			}
			return out
		}
		lo, hi := side(0), side(1)
		for k := range lo {
			if !hi[k] {
				return fmt.Errorf("neighbouring cubes cut their common side (axis %d) along different diagonals", ax)
			}
		}
		if len(lo) != len(hi) {
			return fmt.Errorf("neighbouring cubes cut their common side (axis %d) along different diagonals", ax)
		}
	}
	return nil
}

func extraC11(c *Ctx) {
	rule := "the tetrahedra of one anchor tile its cube"
	type hs struct {
		name string
		base func(a []*T) (base, w, skip *T)
	}
	one := func(a []*T) (*T, *T, *T) { return a[0], a[1], a[2] }
	two := func(a []*T) (*T, *T, *T) { return a[1], a[2], a[3] }
	cart := func(a []*T) (*T, *T, *T) {
		w := a[4]
		return add(a[1], add(mul(a[2], w), mul(a[3], mul(w, w)))), w, nil
	}
	at := func(t *T, i int) *T { return lift(func(l []*T) *T { return l[0].args[i] }, t) }
	for _, h := range []hs{{"use__tiles", one}, {"use__tilesReused", two}, {"use__tilesCartesian", cart}} {
		what := "geom." + h.name
		where := "render/geom/tetra.go"
		res, args, _, err := c.callSpec("render/geom", h.name)
		if err != nil {
			c.bad(rule, what, where, "%v", err)
			continue
		}
		base, w, skip := h.base(args)
		var ts [][4]ivec
		bad := ""
		for d := 0; d < 6; d++ {
			var t [4]ivec
			for k := 0; k < 4; k++ {
				v := at(at(res[0], d), k)
				o, ok := offsetIn(v, base, w, skip)
				if !ok && bad == "" {
					bad = fmt.Sprintf("corner %d of direction %d is %s, no lattice offset from the anchor", k, d, show(v))
				}
				t[k] = o
			}
			ts = append(ts, t)
		}
		if bad == "" {
			if err := checkTiling(ts); err != nil {
				bad = err.Error()
			}
		}
		if bad != "" {
			c.bad(rule, what, where, "%s", bad)
		} else {
			c.good(rule, what, where)
		}
	}
	// the centred ones: one per octant
	rule = "the centred tetrahedra take one lattice neighbour per axis, one per octant"
	what, where := "geom.use__tilesCentered", "render/geom/tetra.go"
	res, args, _, err := c.callSpec("render/geom", "use__tilesCentered")
	if err != nil {
		c.bad(rule, what, where, "%v", err)
		return
	}
	seen := map[ivec]bool{}
	for d := 0; d < 8; d++ {
		okd := at(res[1], d)
		var sign ivec
		bad := ""
		for k := 0; k < 4; k++ {
			v := at(at(res[0], d), k)
			// on the paths where the octant is usable
			v = ite(okd, v, args[1])
			leaf := usableLeaf(v, args[1])
			o, ok := offsetIn(leaf, args[1], args[2], args[3])
			n := 0
			for ax, x := range o {
				if x != 0 {
					n++
					sign[ax] += x
				}
			}
			if !ok || n > 1 || k == 3 && n != 0 {
				bad = fmt.Sprintf("corner %d of octant %d is %s", k, d, show(leaf))
			}
		}
		for _, s := range sign {
			if s != 1 && s != -1 && bad == "" {
				bad = fmt.Sprintf("octant %d has offsets %v", d, sign)
			}
		}
		if bad == "" && seen[sign] {
			bad = fmt.Sprintf("octant %d repeats %v", d, sign)
		}
		seen[sign] = true
		if bad != "" {
			c.bad(rule, fmt.Sprintf("%s[%d]", what, d), where, "%s", bad)
		} else {
			c.good(rule, fmt.Sprintf("%s[%d]", what, d), where)
		}
	}
}

// usableLeaf is the one value other than dflt in a decision diagram.
func usableLeaf(t, dflt *T) *T {
	if t.k != KIte {
		return t
	}
	a, b := usableLeaf(t.args[0], dflt), usableLeaf(t.args[1], dflt)
	switch {
	case a == dflt:
		return b
	case b == dflt || a == b:
		return a
	}
	return t
}
