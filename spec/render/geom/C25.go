package geom

import "math"

func use__cellBounds(a, b, c, d *Vec, cw float64) (cb1, cb2 CellBounds) {
	t := NewTetra(a, b, c, d)
	t.CellBoundsAt(cw, &cb1)
	return cb1, *t.CellBounds(cw)
}

// the cells from the one that holds the least coordinate to the one that
// holds the greatest
//
//gtv:equiv use__cellBounds
//gtv:assume spec__cwPos
func spec__cellBounds(a, b, c, d *Vec, cw float64) (cb1, cb2 CellBounds) {
	for i := 0; i < 3; i++ {
		lo, hi := a[i], a[i]
		for _, x := range []float32{b[i], c[i], d[i]} {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		first := int(math.Floor(float64(lo) / cw))
		last := int(math.Floor(float64(hi) / cw))
		cb1.Origin[i] = first
		cb1.Width[i] = last - first + 1
	}
	return cb1, cb1
}

func spec__cwPos(a, b, c, d *Vec, cw float64) bool { return cw > 0 }

// both boxes hold a common cell: per axis neither starts after the other ends
//
//gtv:equiv (*CellBounds).IntersectUnbounded
//gtv:assume spec__nonEmpty
func spec__IntersectUnbounded(a, b *CellBounds) bool {
	for i := 0; i < 3; i++ {
		if a.Origin[i] >= b.Origin[i]+b.Width[i] || b.Origin[i] >= a.Origin[i]+a.Width[i] {
			return false
		}
	}
	return true
}

func spec__nonEmpty(a, b *CellBounds) bool {
	ok := true
	for i := 0; i < 3; i++ {
		ok = ok && a.Width[i] > 0 && b.Width[i] > 0
	}
	return ok
}

// x relative to o in a periodic direction, for points at most a period apart
func spec__rel(x, o, n int) int {
	d := x - o
	switch {
	case d < 0:
		return d + n
	case d < n:
		return d
	}
	return d - n
}

func spec__starts(small, big *CellBounds, i, n int) bool {
	return spec__rel(small.Origin[i], big.Origin[i], n) < big.Width[i]
}

func spec__ends(small, big *CellBounds, i, n int) bool {
	return spec__rel(small.Origin[i]+small.Width[i], big.Origin[i], n) < big.Width[i]
}

// per axis, an end of the narrower box lies in the wider one
//
//gtv:equiv (*CellBounds).Intersect
func spec__Intersect(a, b *CellBounds, n int) bool {
	for i := 2; i >= 0; i-- {
		if a.Width[i] < b.Width[i] {
			if !spec__starts(a, b, i, n) && !spec__ends(a, b, i, n) {
				return false
			}
		} else {
			if !spec__starts(b, a, i, n) && !spec__ends(b, a, i, n) {
				return false
			}
		}
	}
	return true
}

// x fastest
func use__idx(o, w [3]int, x, y, z int) (idx, idx2 int, ok, ok2 bool) {
	g := NewGrid(o, w)
	idx2, ok = g.IdxCheck(x, y, z)
	return g.Idx(x, y, z), idx2, ok, g.BoundsCheck(x, y, z)
}

//gtv:equiv use__idx
func spec__idx(o, w [3]int, x, y, z int) (idx, idx2 int, ok, ok2 bool) {
	idx = (x - o[0]) + w[0]*((y-o[1])+w[1]*(z-o[2]))
	ok = x >= o[0] && y >= o[1] && z >= o[2] && x < o[0]+w[0] && y < o[1]+w[1] && z < o[2]+w[2]
	idx2 = idx
	if !ok {
		idx2 = -1
	}
	return idx, idx2, ok, ok
}

func use__coords(o, w [3]int, i int) (x, y, z int) { return NewGrid(o, w).Coords(i) }

//gtv:equiv use__coords
func spec__coords(o, w [3]int, i int) (x, y, z int) {
	a := w[0] * w[1]
	return i % w[0], i % a / w[0], i / a
}

func use__sizes(o, w [3]int, boxWidth float64, cells int) (length, area, volume, c int, bw float64, o2, w2 [3]int) {
	g := NewGridLocation(o, w, boxWidth, cells)
	return g.Length, g.Area, g.Volume, g.Cells, g.BoxWidth, g.Origin, g.Width
}

//gtv:equiv use__sizes
func spec__sizes(o, w [3]int, boxWidth float64, cells int) (length, area, volume, c int, bw float64, o2, w2 [3]int) {
	return w[0], w[0] * w[1], w[0] * w[1] * w[2], cells, boxWidth, o, w
}

// positions become cell units relative to the segment's first cell; positions
// before it are on the far side of the periodic boundary
func spec__cellUnits(x float32, o, cells int, width float64) float32 {
	p := x*(float32(cells)/float32(width)) - float32(o)
	if p < 0 {
		p += float32(cells)
	}
	return p
}

//gtv:equiv (*CellBounds).ScaleVecsSegment
func spec__ScaleVecsSegment(vcb *CellBounds, vs []Vec, cells int, boxWidth float64) {
	for i := range vs {
		for j := 0; j < 3; j++ {
			vs[i][j] = spec__cellUnits(vs[i][j], vcb.Origin[j], cells, boxWidth)
		}
	}
}

// the same, relative to the domain's first cell, taking the image of the
// segment that is nearest to the domain
//
//gtv:equiv (*CellBounds).ScaleVecsDomain
//gtv:assume spec__cellsPos
func spec__ScaleVecsDomain(vcb, cb *CellBounds, vs []Vec, cells int, boxWidth float64) {
	for j := 0; j < 3; j++ {
		d := float32(vcb.Origin[j] - cb.Origin[j])
		switch {
		case 2*d > float32(cells):
			d -= float32(cells)
		case 2*d < -float32(cells):
			d += float32(cells)
		}
		for i := range vs {
			vs[i][j] = spec__cellUnits(vs[i][j], vcb.Origin[j], cells, boxWidth) + d
		}
	}
}

func spec__cellsPos(vcb, cb *CellBounds, vs []Vec, cells int, boxWidth float64) bool {
	return cells > 0
}
