package density

import (
	"math"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
)

// spec__sub stands for any way of putting points on the grid.
type spec__sub struct {
	dom, buf geom.CellBounds
	cells    int
	periodic bool // only the place within the box counts
}

func (s *spec__sub) DomainCellBounds() *geom.CellBounds { return &s.dom }
func (s *spec__sub) BufferCellBounds() *geom.CellBounds { return &s.buf }
func (s *spec__sub) Cells() int                         { return s.cells }

func (s *spec__sub) Interpolate(buf Buffer, xs, vs []geom.Vec, ptVal float64, weights Buffer, low, high, jump int) {
	if s.periodic {
		xs = spec__image(xs)
	}
	if vals, ok := buf.ScalarBuffer(); ok {
		s.put(vals, xs, weights.Length(), ptVal, low, high, jump)
	}
	if vals, ok := buf.VectorBuffer(); ok {
		ws, _ := weights.VectorBuffer()
		s.putVec(vals, xs, ws, ptVal, low, high, jump)
	}
}

// the images of points in a box ten cells wide
func spec__image(xs []geom.Vec) []geom.Vec {
	out := make([]geom.Vec, len(xs))
	for i, x := range xs {
		for d := 0; d < 3; d++ {
			out[i][d] = x[d] - 10*float32(math.Floor(float64(x[d]/10)))
		}
	}
	return out
}

func (s *spec__sub) put(vals []float64, xs []geom.Vec, weights int, ptVal float64, low, high, jump int) {
	for j := range vals {
		vals[j] += spec__share(j, xs, weights, ptVal, low, high, jump)
	}
}

func (s *spec__sub) putVec(vals [][3]float64, xs []geom.Vec, ws [][3]float64, ptVal float64, low, high, jump int) {
	for j := range vals {
		vals[j][0] += spec__flow(j, xs, ws, ptVal, low, high, jump)
	}
}

func spec__share(j int, xs []geom.Vec, weights int, ptVal float64, low, high, jump int) float64 {
	return 0
}

func spec__flow(j int, xs []geom.Vec, ws [][3]float64, ptVal float64, low, high, jump int) float64 {
	return 0
}

// C24 decides that a tetrahedron's bounds and sample points depend on its
// corners alone.
func spec__boundsOf(c [4]geom.Vec, w float64) geom.CellBounds { return geom.CellBounds{} }

func spec__cellBoundsAt(t *geom.Tetra, w float64, cb *geom.CellBounds) {
	*cb = spec__boundsOf(t.Corners, w)
}

func spec__distribute64(t *geom.Tetra, pts []geom.Vec, out [][3]float64) {
	for i := range pts {
		p := spec__point(t.Corners, pts[i])
		out[i] = [3]float64{float64(p[0]), float64(p[1]), float64(p[2])}
	}
}

func spec__meets(a, b *geom.CellBounds, cells int) bool { return spec__meetsOf(*a, *b, cells) }

func spec__meetsOf(a, b geom.CellBounds, cells int) bool { return false }

func spec__draw(gen *rand.Generator, low, high int) int { return spec__drawOf(low, high) }

func spec__drawOf(low, high int) int { return low }

func spec__always(a, b *geom.CellBounds, cells int) bool { return true }

func spec__point(c [4]geom.Vec, u geom.Vec) geom.Vec { return u }

func spec__distribute(t *geom.Tetra, pts, out []geom.Vec) {
	for i := range pts {
		out[i] = spec__point(t.Corners, pts[i])
	}
}

// the corners of the six tetrahedra of a cube: a walk along two edges and a
// diagonal
func spec__corners(dir int) (a, b [3]int) {
	order := [6][2]int{{0, 1}, {0, 2}, {1, 0}, {2, 0}, {1, 2}, {2, 1}}[dir]
	a[order[0]] = 1
	b[order[0]] = 1
	b[order[1]] = 1
	return a, b
}

// the value of one point: a particle is six tetrahedra, a sampled cube holds
// skip^3 of them
func spec__value(ptVal float64, points int, skip int64) float64 {
	return ptVal * float64(skip*skip*skip) / 6 / float64(points)
}

func spec__density(q Quantity, vals []float64) (Buffer, []float64) {
	b := NewBuffer(q, len(vals), 0, nil)
	out, _ := b.ScalarBuffer()
	for i := range out {
		out[i] = vals[i]
	}
	return b, out
}

func spec__flows(q Quantity, vals []float64, points int) (Buffer, [][3]float64) {
	b := NewBuffer(q, len(vals), points, nil)
	out, _ := b.VectorBuffer()
	for i := range out {
		out[i][0] = vals[i]
	}
	return b, out
}

// one cube: the tetrahedra that meet the box put their points on the grid
func spec__cube(every bool, sub *spec__sub, x, y, z, g, skip, points, cells int, out []float64, flow [][3]float64, xs, vs []geom.Vec, unit [][]geom.Vec, val float64) {
	rel := &geom.CellBounds{Width: sub.dom.Width}
	for d := 0; d < 3; d++ {
		rel.Origin[d] = sub.dom.Origin[d] - sub.buf.Origin[d]
	}
	idx := func(c [3]int) int {
		return x + skip*c[0] + g*(y+skip*c[1]) + g*g*(z+skip*c[2])
	}
	for dir := 0; dir < 6; dir++ {
		a, c := spec__corners(dir)
		i0, i1, i2, i3 := idx(a), idx(c), idx([3]int{1, 1, 1}), idx([3]int{})
		corners := [4]geom.Vec{xs[i0], xs[i1], xs[i2], xs[i3]}
		if !every && !spec__meetsOf(spec__boundsOf(corners, 1), *rel, cells) {
			continue
		}
		draw := unit[spec__drawOf(0, len(unit))]
		pts := make([]geom.Vec, points)
		for i, u := range draw {
			pts[i] = spec__point(corners, u)
		}
		if flow == nil {
			sub.put(out, pts, 0, val, 0, points, 1)
			continue
		}
		vels := [4]geom.Vec{vs[i0], vs[i1], vs[i2], vs[i3]}
		ws := make([][3]float64, points)
		for i, u := range draw {
			v := spec__point(vels, u)
			ws[i] = [3]float64{float64(v[0]), float64(v[1]), float64(v[2])}
		}
		sub.putVec(flow, pts, ws, val, 0, points, 1)
	}
}

func use__mass(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(3, points, cells, 1, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 16, 17, 1)
	return out
}

//gtv:equiv use__mass
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__meets
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share density.spec__meetsOf density.spec__boundsOf
func spec__mass(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__density(Density, vals)
	spec__cube(false, sub, 1, 2, 1, 4, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	return out
}

func use__massSmall(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf = geom.CellBounds{Origin: [3]int{5, 6, 7}, Width: [3]int{2, 3, 4}}
	sub.dom, sub.cells, sub.periodic = sub.buf, 100, false
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(3, points, cells, 1, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 16, 17, 1)
	return out
}

//gtv:equiv use__massSmall
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__meets
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share density.spec__meetsOf density.spec__boundsOf
func spec__massSmall(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf = geom.CellBounds{Origin: [3]int{5, 6, 7}, Width: [3]int{2, 3, 4}}
	sub.dom, sub.cells, sub.periodic = sub.buf, 100, false
	_, out := spec__density(Density, vals)
	spec__cube(false, sub, 1, 2, 1, 4, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	return out
}

func use__massSkip(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 6, 8, 2)
	return out
}

//gtv:equiv use__massSkip
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__meets
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share density.spec__meetsOf density.spec__boundsOf
func spec__massSkip(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__density(Density, vals)
	spec__cube(false, sub, 0, 2, 2, 5, 2, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 2))
	return out
}

func use__massAll(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[27]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(2, points, cells, 1, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 0, 8, 1)
	return out
}

//gtv:equiv use__massAll
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share
func spec__massAll(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[27]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__density(Density, vals)
	spec__cube(true, sub, 0, 0, 0, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 1, 0, 0, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 0, 1, 0, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 1, 1, 0, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 0, 0, 1, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 1, 0, 1, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 0, 1, 1, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	spec__cube(true, sub, 1, 1, 1, 3, 1, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 1))
	return out
}

func use__massShare(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 1, 8, 3)
	return out
}

//gtv:equiv use__massShare
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share
func spec__massShare(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__density(Density, vals)
	spec__cube(true, sub, 2, 0, 0, 5, 2, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 2))
	spec__cube(true, sub, 0, 0, 2, 5, 2, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 2))
	spec__cube(true, sub, 2, 2, 2, 5, 2, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 2))
	return out
}

func use__gradient(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__density(DensityGradient, vals)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 3, 4, 1)
	return out
}

//gtv:equiv use__gradient
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share
func spec__gradient(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__density(DensityGradient, vals)
	spec__cube(true, sub, 2, 2, 0, 5, 2, points, cells, out, nil, xs[:], vs[:], unit, spec__value(ptVal, points, 2))
	return out
}

func use__velocity(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__flows(Velocity, vals, points)
	mc := MonteCarlo(3, points, cells, 1, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 16, 17, 1)
	return out
}

//gtv:equiv use__velocity
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__meets
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:model (*geom.Tetra).DistributeTetra64 spec__distribute64
//gtv:opaque density.spec__point density.spec__drawOf density.spec__flow density.spec__meetsOf density.spec__boundsOf
func spec__velocity(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[64]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__flows(Velocity, vals, points)
	spec__cube(false, sub, 1, 2, 1, 4, 1, points, cells, nil, out, xs[:], vs[:], unit, ptVal)
	return out
}

func use__velocityShare(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__flows(Velocity, vals, points)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 1, 8, 6)
	return out
}

//gtv:equiv use__velocityShare
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:model (*geom.Tetra).DistributeTetra64 spec__distribute64
//gtv:opaque density.spec__point density.spec__drawOf density.spec__flow
func spec__velocityShare(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__flows(Velocity, vals, points)
	spec__cube(true, sub, 2, 0, 0, 5, 2, points, cells, nil, out, xs[:], vs[:], unit, ptVal)
	spec__cube(true, sub, 2, 2, 2, 5, 2, points, cells, nil, out, xs[:], vs[:], unit, ptVal)
	return out
}

func use__curl(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__flows(VelocityCurl, vals, points)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 6, 7, 1)
	return out
}

//gtv:equiv use__curl
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:model (*geom.Tetra).DistributeTetra64 spec__distribute64
//gtv:opaque density.spec__point density.spec__drawOf density.spec__flow
func spec__curl(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__flows(VelocityCurl, vals, points)
	spec__cube(true, sub, 0, 2, 2, 5, 2, points, cells, nil, out, xs[:], vs[:], unit, ptVal)
	return out
}

func use__divergence(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	b, out := spec__flows(VelocityDivergence, vals, points)
	mc := MonteCarlo(4, points, cells, 2, unit, sub)
	mc.Interpolate(b, xs[:], vs[:], ptVal, NilBuffer, 6, 7, 1)
	return out
}

//gtv:equiv use__divergence
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:model (*geom.Tetra).DistributeTetra64 spec__distribute64
//gtv:opaque density.spec__point density.spec__drawOf density.spec__flow
func spec__divergence(sub *spec__sub, points int, cells int, vals []float64, xs, vs *[125]geom.Vec, unit [][]geom.Vec, ptVal float64) [][3]float64 {
	sub.buf.Width[0], sub.periodic = sub.dom.Width[0]+1, false
	_, out := spec__flows(VelocityDivergence, vals, points)
	spec__cube(true, sub, 0, 2, 2, 5, 2, points, cells, nil, out, xs[:], vs[:], unit, ptVal)
	return out
}

// A box as wide as half the simulation or more: points may be moved by whole
// box widths.
func use__massWide(sub *spec__sub, points int, vals []float64, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf = geom.CellBounds{Width: [3]int{6, 7, 8}}
	sub.dom, sub.cells, sub.periodic = sub.buf, 10, true
	xs := make([]geom.Vec, 8)
	for i := range xs {
		xs[i] = geom.Vec{-1, -2, -3}
	}
	b, out := spec__density(Density, vals)
	mc := MonteCarlo(1, points, 10, 1, unit, sub)
	mc.Interpolate(b, xs, nil, ptVal, NilBuffer, 0, 1, 1)
	return out
}

//gtv:equiv use__massWide
//gtv:opaque rand.NewTimeSeed
//gtv:model (*geom.CellBounds).Intersect spec__always
//gtv:model (*rand.Generator).UniformInt spec__draw
//gtv:model (*geom.Tetra).CellBoundsAt spec__cellBoundsAt
//gtv:model (*geom.Tetra).DistributeTetra spec__distribute
//gtv:opaque density.spec__point density.spec__drawOf density.spec__share
func spec__massWide(sub *spec__sub, points int, vals []float64, unit [][]geom.Vec, ptVal float64) []float64 {
	sub.buf = geom.CellBounds{Width: [3]int{6, 7, 8}}
	sub.dom, sub.cells, sub.periodic = sub.buf, 10, true
	_, out := spec__density(Density, vals)
	for dir := 0; dir < 6; dir++ {
		pts := make([]geom.Vec, points)
		at := geom.Vec{-1, -2, -3}
		for i, u := range unit[spec__drawOf(0, len(unit))] {
			pts[i] = spec__point([4]geom.Vec{at, at, at, at}, u)
		}
		sub.put(out, spec__image(pts), 0, spec__value(ptVal, points, 1), 0, points, 1)
	}
	return out
}
