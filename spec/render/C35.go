package render

import (
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- bins: equal widths in x, or in log10(x)

func spec__log(info *HistInfo) bool {
	return info.Scale == "Log" || info.Scale == "log"
}

func use__centers(info *HistInfo, min, max float64, bins int, log bool) []float64 {
	return histCenters(spec__info(min, max, bins, log))
}

func spec__info(min, max float64, bins int, log bool) *HistInfo {
	if log {
		return &HistInfo{Min: min, Max: max, Bins: bins, Scale: "Log"}
	}
	return &HistInfo{Min: min, Max: max, Bins: bins, Scale: "Linear"}
}

//gtv:equiv use__centers
func spec__centers(info *HistInfo, min, max float64, bins int, log bool) []float64 {
	if log {
		min, max = math.Log10(min), math.Log10(max)
	}
	out := make([]float64, bins)
	for i := range out {
		c := min + (max-min)/float64(bins)*(float64(i)+0.5)
		if log {
			c = math.Pow(10, c)
		}
		out[i] = c
	}
	return out
}

// every accepted value is counted in the bin it lies in, if any

func use__histogram(x []float64, ok []bool, min, max float64, bins int, log bool, counts []int) {
	histogram(x, ok[:len(x)], spec__info(min, max, bins, log), counts)
}

//gtv:equiv use__histogram
func spec__histogram(x []float64, ok []bool, min, max float64, bins int, log bool, counts []int) {
	ok = ok[:len(x)]
	if log {
		min, max = math.Log10(min), math.Log10(max)
	}
	width := (max - min) / float64(bins)
	for i := range x {
		v := x[i]
		if log {
			v = math.Log10(v)
		}
		if at := (v - min) / width; ok[i] && at >= 0 && at < float64(bins) {
			counts[int(at)]++
		}
	}
}

// ---- periodic segments

func spec__holds(a, span, b, L float64) bool {
	if b >= L {
		b -= L
	}
	if b < a {
		b += L
	}
	return b < a+span
}

func use__contains(a, span, b, L float64) bool { return contains1D(a, span, b, L) }

//gtv:equiv use__contains
//gtv:assume spec__inBox
func spec__contains(a, span, b, L float64) bool {
	return spec__holds(a, span, b, L)
}

func spec__inBox(a, span, b, L float64) bool {
	return 0 <= a && a < L && 0 <= span && span <= L && 0 <= b && b < 2*L
}

func use__meets(a, as, b, bs, L float64) bool { return intersect1D(a, as, b, bs, L) }

//gtv:equiv use__meets
//gtv:assume spec__inBox2
func spec__meets(a, as, b, bs, L float64) bool {
	return spec__holds(a, as, b, L) || spec__holds(a, as, b+bs, L) ||
		spec__holds(b, bs, a, L) || spec__holds(b, bs, a+as, L)
}

func spec__inBox2(a, as, b, bs, L float64) bool {
	return 0 <= a && a < L && 0 <= as && as <= L && 0 <= b && b < L && 0 <= bs && bs <= L
}

func use__boxContains(box *HistBox, v geom.Vec, L float64) bool { return box.Contains(v, L) }

//gtv:equiv use__boxContains
//gtv:opaque render.contains1D
func spec__boxContains(box *HistBox, v geom.Vec, L float64) bool {
	in := 0
	for k := 0; k < 3; k++ {
		if contains1D(box.Origin[k], box.Span[k], float64(v[k]), L) {
			in++
		}
	}
	return in == 3
}

// a sheet is looked at when it meets the box on every axis

func use__sheetMeets(hd *io.SheetHeader, box *HistBox) bool { return histIntersect(hd, box) }

//gtv:equiv use__sheetMeets
//gtv:opaque render.intersect1D
func spec__sheetMeets(hd *io.SheetHeader, box *HistBox) bool {
	return intersect1D(float64(hd.Origin[0]), float64(hd.Width[0]), box.Origin[0], box.Span[0], hd.TotalWidth) &&
		intersect1D(float64(hd.Origin[1]), float64(hd.Width[1]), box.Origin[1], box.Span[1], hd.TotalWidth) &&
		intersect1D(float64(hd.Origin[2]), float64(hd.Width[2]), box.Origin[2], box.Span[2], hd.TotalWidth)
}

// ---- grid cells

func use__cell(hd *io.GridHeader, v geom.Vec) int { return gridIndex(hd, v) }

//gtv:equiv use__cell
//gtv:assume spec__gridIn
func spec__cell(hd *io.GridHeader, v geom.Vec) int {
	var c [3]int
	L := hd.Cosmo.BoxWidth
	for k := 0; k < 3; k++ {
		d := float64(v[k]) - hd.Loc.Origin[k]
		if d < 0 {
			d += L
		}
		if d >= hd.Loc.Span[k] {
			return -1
		}
		c[k] = int(d / hd.Loc.PixelWidth)
	}
	nx, ny := int(hd.Loc.PixelSpan[0]), int(hd.Loc.PixelSpan[1])
	return c[0] + nx*(c[1]+ny*c[2])
}

// the position and the grid's origin are in the box
func spec__gridIn(hd *io.GridHeader, v geom.Vec) bool {
	L := hd.Cosmo.BoxWidth
	in := L > 0
	for k := 0; k < 3; k++ {
		x := float64(v[k])
		in = in && 0 <= x && x < L && 0 <= hd.Loc.Origin[k] && hd.Loc.Origin[k] < L &&
			0 <= hd.Loc.Span[k] && hd.Loc.Span[k] <= L
	}
	return in
}

// ---- tetrahedra that cross the edge of the box are put together again

func use__joined(man *HistManager, tet *geom.Tetra, L float32) [4]geom.Vec {
	man.periodizeTetra(tet, L)
	return tet.Corners
}

//gtv:equiv use__joined
//gtv:assume spec__cornersIn
func spec__joined(man *HistManager, tet *geom.Tetra, L float32) [4]geom.Vec {
	out := tet.Corners
	for i := 1; i < 4; i++ {
		for k := 0; k < 3; k++ {
			switch d := out[i][k] - out[0][k]; {
			case d > L/2:
				out[i][k] -= L
			case d < -L/2:
				out[i][k] += L
			}
		}
	}
	tet.Corners = out
	return out
}

func spec__cornersIn(man *HistManager, tet *geom.Tetra, L float32) bool {
	return L > 0
}

// ---- the segment that holds the corners of a cube, periodic

func use__cubeBox(n, skip int, pts [27]geom.Vec, L float64) (o, s geom.Vec) {
	man := &HistManager{skip: skip, xs: pts[:]}
	man.hd.GridWidth, man.hd.TotalWidth = 3, L
	return man.cubeBoundingBox(n%3, n/3%3, n/9)
}

func spec__cubeBox(n, skip int, pts [27]geom.Vec, L float64) (o, s geom.Vec) {
	w := float32(L)
	o = pts[n]
	for c := 0; c < 8; c++ {
		p := pts[n+skip*(c%2+3*(c/2%2)+9*(c/4))]
		for k := range p {
			d := p[k] - o[k]
			if d > w/2 {
				d -= w
			} else if d < -w/2 {
				d += w
			}
			switch {
			case d > s[k]:
				s[k] = d
			case d < 0:
				if o[k] += d; o[k] < 0 {
					o[k] += w
				}
				s[k] -= d
			}
		}
	}
	return o, s
}

// One corner of the cube is anywhere, on one axis; the others lie in a group.
func spec__group(n, skip, free, k int, x float32) (pts [27]geom.Vec) {
	for i := range pts {
		pts[i] = geom.Vec{10, 20, 30}
	}
	pts[n+skip*(free%2+3*(free/2%2)+9*(free/4))][k] = x
	return pts
}

func use__cubeBoxFine0X(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 0, 0, x), 100)
}

//gtv:equiv use__cubeBoxFine0X
func spec__cubeBoxFine0X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 0, 0, x), 100)
}

func use__cubeBoxFine0Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 0, 1, x), 100)
}

//gtv:equiv use__cubeBoxFine0Y
func spec__cubeBoxFine0Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 0, 1, x), 100)
}

func use__cubeBoxFine0Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 0, 2, x), 100)
}

//gtv:equiv use__cubeBoxFine0Z
func spec__cubeBoxFine0Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 0, 2, x), 100)
}

func use__cubeBoxFine1Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 1, 1, x), 100)
}

//gtv:equiv use__cubeBoxFine1Y
func spec__cubeBoxFine1Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 1, 1, x), 100)
}

func use__cubeBoxFine2X(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 2, 0, x), 100)
}

//gtv:equiv use__cubeBoxFine2X
func spec__cubeBoxFine2X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 2, 0, x), 100)
}

func use__cubeBoxFine3Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 3, 2, x), 100)
}

//gtv:equiv use__cubeBoxFine3Z
func spec__cubeBoxFine3Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 3, 2, x), 100)
}

func use__cubeBoxFine4Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 4, 1, x), 100)
}

//gtv:equiv use__cubeBoxFine4Y
func spec__cubeBoxFine4Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 4, 1, x), 100)
}

func use__cubeBoxFine5X(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 5, 0, x), 100)
}

//gtv:equiv use__cubeBoxFine5X
func spec__cubeBoxFine5X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 5, 0, x), 100)
}

func use__cubeBoxFine6Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 6, 2, x), 100)
}

//gtv:equiv use__cubeBoxFine6Z
func spec__cubeBoxFine6Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 6, 2, x), 100)
}

func use__cubeBoxFine7X(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 7, 0, x), 100)
}

//gtv:equiv use__cubeBoxFine7X
func spec__cubeBoxFine7X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 7, 0, x), 100)
}

func use__cubeBoxFine7Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 7, 1, x), 100)
}

//gtv:equiv use__cubeBoxFine7Y
func spec__cubeBoxFine7Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 7, 1, x), 100)
}

func use__cubeBoxFine7Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(1, 1, spec__group(1, 1, 7, 2, x), 100)
}

//gtv:equiv use__cubeBoxFine7Z
func spec__cubeBoxFine7Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(1, 1, spec__group(1, 1, 7, 2, x), 100)
}

func use__cubeBoxCoarse0X(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 0, 0, x), 100)
}

//gtv:equiv use__cubeBoxCoarse0X
func spec__cubeBoxCoarse0X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 0, 0, x), 100)
}

func use__cubeBoxCoarse0Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 0, 1, x), 100)
}

//gtv:equiv use__cubeBoxCoarse0Y
func spec__cubeBoxCoarse0Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 0, 1, x), 100)
}

func use__cubeBoxCoarse0Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 0, 2, x), 100)
}

//gtv:equiv use__cubeBoxCoarse0Z
func spec__cubeBoxCoarse0Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 0, 2, x), 100)
}

func use__cubeBoxCoarse1X(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 1, 0, x), 100)
}

//gtv:equiv use__cubeBoxCoarse1X
func spec__cubeBoxCoarse1X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 1, 0, x), 100)
}

func use__cubeBoxCoarse2Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 2, 2, x), 100)
}

//gtv:equiv use__cubeBoxCoarse2Z
func spec__cubeBoxCoarse2Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 2, 2, x), 100)
}

func use__cubeBoxCoarse3Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 3, 1, x), 100)
}

//gtv:equiv use__cubeBoxCoarse3Y
func spec__cubeBoxCoarse3Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 3, 1, x), 100)
}

func use__cubeBoxCoarse4X(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 4, 0, x), 100)
}

//gtv:equiv use__cubeBoxCoarse4X
func spec__cubeBoxCoarse4X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 4, 0, x), 100)
}

func use__cubeBoxCoarse5Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 5, 2, x), 100)
}

//gtv:equiv use__cubeBoxCoarse5Z
func spec__cubeBoxCoarse5Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 5, 2, x), 100)
}

func use__cubeBoxCoarse6Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 6, 1, x), 100)
}

//gtv:equiv use__cubeBoxCoarse6Y
func spec__cubeBoxCoarse6Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 6, 1, x), 100)
}

func use__cubeBoxCoarse7X(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 7, 0, x), 100)
}

//gtv:equiv use__cubeBoxCoarse7X
func spec__cubeBoxCoarse7X(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 7, 0, x), 100)
}

func use__cubeBoxCoarse7Y(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 7, 1, x), 100)
}

//gtv:equiv use__cubeBoxCoarse7Y
func spec__cubeBoxCoarse7Y(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 7, 1, x), 100)
}

func use__cubeBoxCoarse7Z(x float32) (o, s geom.Vec) {
	return use__cubeBox(0, 2, spec__group(0, 2, 7, 2, x), 100)
}

//gtv:equiv use__cubeBoxCoarse7Z
func spec__cubeBoxCoarse7Z(x float32) (o, s geom.Vec) {
	return spec__cubeBox(0, 2, spec__group(0, 2, 7, 2, x), 100)
}

// two corners anywhere

func use__cubeBoxTwo(x, y float32) (o, s geom.Vec) {
	pts := spec__group(0, 2, 1, 0, x)
	pts[2*(3+9)][0] = y
	return use__cubeBox(0, 2, pts, 100)
}

//gtv:equiv use__cubeBoxTwo
func spec__cubeBoxTwo(x, y float32) (o, s geom.Vec) {
	pts := spec__group(0, 2, 1, 0, x)
	pts[2*(3+9)][0] = y
	return spec__cubeBox(0, 2, pts, 100)
}

// a cube is looked at when its segment meets the box on every axis

func spec__segment(man *HistManager, x, y, z int) (o, s geom.Vec) {
	for k := range o {
		o[k], s[k] = spec__low(x, y, z, k), spec__span(x, y, z, k)
	}
	return o, s
}

func spec__low(x, y, z, k int) float32  { return 0 }
func spec__span(x, y, z, k int) float32 { return 0 }

func use__cubeMeets(idx int, width int64, skip int, L float64, box *HistBox) bool {
	man := &HistManager{skip: skip}
	man.hd.GridWidth, man.hd.TotalWidth = width, L
	return man.cubeIntersects(idx, box)
}

//gtv:equiv use__cubeMeets
//gtv:model (*render.HistManager).cubeBoundingBox spec__segment
//gtv:opaque render.intersect1D render.spec__low render.spec__span
func spec__cubeMeets(idx int, width int64, skip int, L float64, box *HistBox) bool {
	w := int(width)
	x, y, z := idx%w, (idx/w)%w, idx/(w*w)
	if x < 0 || y < 0 || z < 0 || x+skip >= w || y+skip >= w || z+skip >= w {
		panic("outside of the segment")
	}
	for k := 0; k < 3; k++ {
		o, s := float64(spec__low(x, y, z, k)), float64(spec__span(x, y, z, k))
		if !intersect1D(box.Origin[k], box.Span[k], o, s, L) {
			return false
		}
	}
	return true
}

// ---- the densities of a tetrahedron's samples, looked up in the grid

func spec__join(man *HistManager, tet *geom.Tetra, L float32) {
	old := tet.Corners
	for i := range old {
		for k := 0; k < 3; k++ {
			tet.Corners[i][k] = spec__joinedAt(i, k, old, L)
		}
	}
}

func spec__joinedAt(i, k int, c [4]geom.Vec, L float32) float32 { return 0 }

// any of the sets of unit points will do: the last
func spec__last(n int64) int64 { return n - 1 }

func spec__place(tet *geom.Tetra, unit, out []geom.Vec) {
	for i := range out {
		for k := 0; k < 3; k++ {
			out[i][k] = spec__point(i, k, unit[i], tet.Corners)
		}
	}
}

func spec__point(i, k int, unit geom.Vec, c [4]geom.Vec) float32 { return 0 }

func spec__whichCell(hd *io.GridHeader, v geom.Vec) int {
	if at := spec__cellAt(v); at >= 0 {
		return at
	}
	return -1
}

func spec__cellAt(v geom.Vec) int { return 0 }

func spec__whether(box *HistBox, v geom.Vec, L float64) bool {
	return spec__insideAt(box.Origin, box.Span, v, L)
}

func spec__insideAt(o, s [3]float64, v geom.Vec, L float64) bool { return false }

func use__samples(n, skip, dir int, pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	man := &HistManager{skip: skip, xs: pts[:], grid: grid}
	man.hd.GridWidth, man.hd.TotalWidth = 3, L
	man.unitBufs = [][]geom.Vec{make([]geom.Vec, 2), unit[:]}
	d, ok := []float64{rho[0], rho[1]}, []bool{in[0], in[1]}
	man.getDensities(n, dir, box, buf[:], d, ok)
	// the value of a sample that is not accepted is never looked at
	for i := range d {
		if !ok[i] {
			d[i] = -1
		}
	}
	return [2]float64{d[0], d[1]}, [2]bool{ok[0], ok[1]}
}

func spec__samples(n, skip, dir int, pts [27]geom.Vec, L float64, box *HistBox, unit [2]geom.Vec, grid []float64) (d [2]float64, ok [2]bool) {
	idx := geom.NewTetraIdxs(int64(n), 3, int64(skip), dir)
	tet := &geom.Tetra{}
	for i := range tet.Corners {
		tet.Corners[i] = pts[idx[i]]
	}
	w := float32(L)
	spec__join(nil, tet, w)
	for i := range d {
		var v geom.Vec
		for k := range v {
			v[k] = spec__point(i, k, unit[i], tet.Corners)
			if v[k] >= w {
				v[k] -= w
			}
			if v[k] < 0 {
				v[k] += w
			}
		}
		d[i] = -1
		if at := spec__cellAt(v); spec__insideAt(box.Origin, box.Span, v, L) && at >= 0 {
			d[i], ok[i] = grid[at], true
		}
	}
	return d, ok
}
func use__samples0(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(1, 1, 0, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples0
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples0(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(1, 1, 0, pts, L, box, unit, grid)
}

func use__samples1(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(0, 2, 1, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples1
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples1(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(0, 2, 1, pts, L, box, unit, grid)
}

func use__samples2(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(1, 1, 2, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples2
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples2(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(1, 1, 2, pts, L, box, unit, grid)
}

func use__samples3(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(0, 2, 3, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples3
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples3(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(0, 2, 3, pts, L, box, unit, grid)
}

func use__samples4(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(1, 1, 4, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples4
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples4(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(1, 1, 4, pts, L, box, unit, grid)
}

func use__samples5(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return use__samples(0, 2, 5, pts, L, box, unit, buf, grid, rho, in)
}

//gtv:equiv use__samples5
//gtv:model (*geom.Tetra).DistributeTetra spec__place
//gtv:model render.gridIndex spec__whichCell
//gtv:model math/rand.Int63n spec__last
//gtv:model (*render.HistBox).Contains spec__whether
//gtv:model (*render.HistManager).periodizeTetra spec__join
//gtv:opaque render.spec__joinedAt render.spec__point render.spec__cellAt render.spec__insideAt
func spec__samples5(pts [27]geom.Vec, L float64, box *HistBox, unit, buf [2]geom.Vec, grid, rho []float64, in []bool) ([2]float64, [2]bool) {
	return spec__samples(0, 2, 5, pts, L, box, unit, grid)
}

// ---- every file is looked at, into new bins

func spec__oneFile(man *HistManager, file string, info *HistInfo) error {
	for i := range man.boxes {
		c := man.boxes[i].Counts
		for j := range c {
			c[j] += spec__found(file, i, j)
		}
	}
	if spec__fails(file) {
		return spec__failed{}
	}
	return nil
}

type spec__failed struct{}

func (spec__failed) Error() string { return "" }

func spec__found(file string, i, j int) int { return 0 }
func spec__fails(file string) bool          { return false }

func use__all(workers int, a, b, c string, info *HistInfo, old []int) (n [2][3]int, mid [2][3]float64, sizes [4]int, failed bool) {
	man := &HistManager{workers: workers, skip: 1, files: []string{a, b, c}}
	man.unitBufs = [][]geom.Vec{make([]geom.Vec, 5)}
	man.boxes = []HistBox{{Counts: old}, {Counts: old}}
	err := man.Hist(info)
	for i := range n {
		for j := range n[i] {
			n[i][j], mid[i][j] = man.boxes[i].Counts[j], man.boxes[i].Centers[j]
		}
	}
	for _, h := range man.hists {
		sizes[0] += len(h)
	}
	for i := range man.qs {
		sizes[1] += len(man.qs[i])
		sizes[2] += len(man.inBox[i])
		sizes[3] += len(man.vecBufs[i])
	}
	return n, mid, sizes, err != nil
}

func use__allFiles(a, b, c string, min, max float64, old []int) (n [2][3]int, mid [2][3]float64, sizes [4]int, failed bool) {
	return use__all(2, a, b, c, spec__info(min, max, 3, false), old)
}

//gtv:equiv use__allFiles
//gtv:model (*render.HistManager).HistFromFile spec__oneFile
//gtv:opaque render.spec__found render.spec__fails
func spec__allFiles(a, b, c string, min, max float64, old []int) (n [2][3]int, mid [2][3]float64, sizes [4]int, failed bool) {
	centers := histCenters(spec__info(min, max, 3, false))
	for i := range n {
		for j := range n[i] {
			mid[i][j] = centers[j]
		}
	}
	for _, file := range [3]string{a, b, c} {
		if failed {
			break
		}
		for i := range n {
			for j := range n[i] {
				n[i][j] += spec__found(file, i, j)
			}
		}
		failed = spec__fails(file)
	}
	return n, mid, [4]int{6, 10, 10, 10}, failed
}

// ---- a box is what was asked for

func use__newBox(con *io.BoxConfig, bins int) (o, s [3]float64, n, m int) {
	b := NewHistBox(con, bins)
	return b.Origin, b.Span, len(b.Counts), len(b.Centers)
}

//gtv:equiv use__newBox
func spec__newBox(con *io.BoxConfig, bins int) (o, s [3]float64, n, m int) {
	return [3]float64{con.X, con.Y, con.Z}, [3]float64{con.XWidth, con.YWidth, con.ZWidth}, bins, bins
}
