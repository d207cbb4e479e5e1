package render

import (
	"math"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
)

// ---- buffers with given contents

func spec__vec(vecs [][3]float64, num []int) density.Buffer {
	b := density.NewBuffer(density.Velocity, len(vecs), 0, nil)
	v, _ := b.VectorBuffer()
	n, _ := b.CountBuffer()
	for i := range v {
		v[i] = vecs[i]
		n[i] = num[i]
	}
	return b
}

func spec__scalar(vals []float64) density.Buffer {
	c := make([]float64, len(vals))
	for i := range c {
		c[i] = vals[i]
	}
	return density.WrapperDensityBuffer(c)
}

func spec__vecOut(b density.Buffer) ([][3]float64, []int) {
	v, _ := b.VectorBuffer()
	n, _ := b.CountBuffer()
	return v, n
}

func spec__scalarOut(b density.Buffer) []float64 {
	v, _ := b.ScalarBuffer()
	return v
}

// periodic image of a pixel coordinate
func spec__wrap(x, cells int) int {
	if x < 0 {
		x += cells
	} else if x >= cells {
		x -= cells
	}
	return x
}

func spec__floor(x float32) int {
	return int(math.Floor(float64(x)))
}

// the image plane of a projection, and the projected axis
func spec__axes(proj int) (i, j, k int) {
	switch proj {
	case 0:
		return 1, 2, 0
	case 1:
		return 0, 2, 1
	}
	return 0, 1, 2
}

// ---- where a sample goes: pixel index in the buffer, if any

func spec__at3(segment bool, buf, dom *geom.CellBounds, cells int, pt geom.Vec) (int, bool) {
	var c [3]int
	for d := 0; d < 3; d++ {
		if segment {
			c[d] = int(pt[d])
		} else {
			c[d] = spec__wrap(spec__floor(pt[d]), cells)
			if c[d] >= buf.Width[d] {
				return 0, false
			}
		}
	}
	return c[0] + buf.Width[0]*(c[1]+buf.Width[1]*c[2]), true
}

// samples outside the projected slab are left out
func spec__at2(segment bool, buf, dom *geom.CellBounds, cells, proj int, pt geom.Vec) (int, bool) {
	i, j, k := spec__axes(proj)
	if segment {
		z := spec__wrap(spec__floor(pt[k])+buf.Origin[k]-dom.Origin[k], cells)
		return int(pt[i]) + int(pt[j])*buf.Width[i], z >= 0 && z < dom.Width[k]
	}
	x := spec__wrap(spec__floor(pt[i]), cells)
	y := spec__wrap(spec__floor(pt[j]), cells)
	z := spec__wrap(spec__floor(pt[k]), cells)
	return x + y*buf.Width[i], x < buf.Width[i] && y < buf.Width[j] && z < buf.Width[k]
}

func spec__base(buf, dom *geom.CellBounds, cells int) baseOverlap {
	return baseOverlap{bufCb: *buf, domCb: *dom, cells: cells}
}

func spec__overlap(kind int, buf, dom *geom.CellBounds, cells, proj int) Overlap {
	b := spec__base(buf, dom, cells)
	switch kind {
	case 0:
		return &segmentOverlap3D{baseOverlap3D{b}}
	case 1:
		return &domainOverlap3D{baseOverlap3D{b}}
	case 2:
		return &segmentOverlap2D{baseOverlap2D{b, proj}}
	}
	return &domainOverlap2D{baseOverlap2D{b, proj}}
}

// a projection averages over the depth of the slab
func spec__depth(kind, proj int, buf, dom *geom.CellBounds) float64 {
	_, _, k := spec__axes(proj)
	switch kind {
	case 2:
		return float64(dom.Width[k])
	case 3:
		return float64(buf.Width[k])
	}
	return 1
}

func spec__at(kind int, buf, dom *geom.CellBounds, cells, proj int, pt geom.Vec) (int, bool) {
	switch kind {
	case 0:
		return spec__at3(true, buf, dom, cells, pt)
	case 1:
		return spec__at3(false, buf, dom, cells, pt)
	case 2:
		return spec__at2(true, buf, dom, cells, proj, pt)
	}
	return spec__at2(false, buf, dom, cells, proj, pt)
}

// ---- interpolation: every sample adds its value (times its weight) to one pixel

func use__plain(kind int, buf, dom *geom.CellBounds, cells, proj int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	b := spec__scalar(vals)
	spec__overlap(kind, buf, dom, cells, proj).Interpolate(b, xs, nil, ptVal, density.NilBuffer, low, high, jump)
	return spec__scalarOut(b)
}

func spec__plain(kind int, buf, dom *geom.CellBounds, cells, proj int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	out := make([]float64, len(vals))
	copy(out, vals)
	d := spec__depth(kind, proj, buf, dom)
	for n := low; n < high; n += jump {
		if at, ok := spec__at(kind, buf, dom, cells, proj, xs[n]); ok {
			out[at] += ptVal / d
		}
	}
	return out
}

func use__weighted(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	b := spec__scalar(vals)
	spec__overlap(kind, buf, dom, cells, proj).Interpolate(b, xs, nil, ptVal, spec__scalar(ws), low, high, jump)
	return spec__scalarOut(b)
}

func spec__weighted(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	if len(ws) == 0 {
		return spec__plain(kind, buf, dom, cells, proj, vals, xs, ptVal, low, high, jump)
	}
	out := make([]float64, len(vals))
	copy(out, vals)
	w := make([]float64, len(ws))
	copy(w, ws)
	d := spec__depth(kind, proj, buf, dom)
	for n := low; n < high; n += jump {
		if at, ok := spec__at(kind, buf, dom, cells, proj, xs[n]); ok {
			out[at] += ptVal / d * w[n]
		}
	}
	return out
}

func use__vector(kind int, buf, dom *geom.CellBounds, cells, proj int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	b := spec__vec(vals, num)
	spec__overlap(kind, buf, dom, cells, proj).Interpolate(b, xs, nil, ptVal, spec__vec(ws, wn), low, high, jump)
	return spec__vecOut(b)
}

func spec__vector(kind int, buf, dom *geom.CellBounds, cells, proj int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	out, cnt := spec__vecOut(spec__vec(vals, num))
	w, _ := spec__vecOut(spec__vec(ws, wn))
	d := spec__depth(kind, proj, buf, dom)
	for n := low; n < high; n += jump {
		if at, ok := spec__at(kind, buf, dom, cells, proj, xs[n]); ok {
			for j := 0; j < 3; j++ {
				out[at][j] += ptVal / d * w[n][j]
			}
			cnt[at]++
		}
	}
	return out, cnt
}

func use__plainSeg3(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(0, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainSeg3
func spec__plainSeg3(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(0, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

func use__plainDom3(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(1, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainDom3
func spec__plainDom3(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(1, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

func use__plainSeg2X(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(2, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainSeg2X
func spec__plainSeg2X(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(2, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

func use__plainSeg2Y(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(2, buf, dom, cells, 1, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainSeg2Y
func spec__plainSeg2Y(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(2, buf, dom, cells, 1, vals, xs, ptVal, low, high, jump)
}

func use__plainSeg2Z(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(2, buf, dom, cells, 2, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainSeg2Z
func spec__plainSeg2Z(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(2, buf, dom, cells, 2, vals, xs, ptVal, low, high, jump)
}

func use__plainDom2X(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(3, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainDom2X
func spec__plainDom2X(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(3, buf, dom, cells, 0, vals, xs, ptVal, low, high, jump)
}

func use__plainDom2Y(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(3, buf, dom, cells, 1, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainDom2Y
func spec__plainDom2Y(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(3, buf, dom, cells, 1, vals, xs, ptVal, low, high, jump)
}

func use__plainDom2Z(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__plain(3, buf, dom, cells, 2, vals, xs, ptVal, low, high, jump)
}

//gtv:equiv use__plainDom2Z
func spec__plainDom2Z(buf, dom *geom.CellBounds, cells int, vals []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__plain(3, buf, dom, cells, 2, vals, xs, ptVal, low, high, jump)
}

func use__weightedSeg3(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(0, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedSeg3
func spec__weightedSeg3(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(0, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedDom3(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(1, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedDom3
func spec__weightedDom3(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(1, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedSeg2X(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(2, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedSeg2X
func spec__weightedSeg2X(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(2, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedSeg2Y(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(2, buf, dom, cells, 1, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedSeg2Y
func spec__weightedSeg2Y(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(2, buf, dom, cells, 1, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedSeg2Z(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(2, buf, dom, cells, 2, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedSeg2Z
func spec__weightedSeg2Z(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(2, buf, dom, cells, 2, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedDom2X(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(3, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedDom2X
func spec__weightedDom2X(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(3, buf, dom, cells, 0, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedDom2Y(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(3, buf, dom, cells, 1, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedDom2Y
func spec__weightedDom2Y(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(3, buf, dom, cells, 1, vals, ws, xs, ptVal, low, high, jump)
}

func use__weightedDom2Z(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return use__weighted(3, buf, dom, cells, 2, vals, ws, xs, ptVal, low, high, jump)
}

//gtv:equiv use__weightedDom2Z
func spec__weightedDom2Z(buf, dom *geom.CellBounds, cells int, vals, ws []float64, xs []geom.Vec, ptVal float64, low, high, jump int) []float64 {
	return spec__weighted(3, buf, dom, cells, 2, vals, ws, xs, ptVal, low, high, jump)
}

func use__vectorSeg3(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(0, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorSeg3
func spec__vectorSeg3(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(0, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorDom3(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(1, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorDom3
func spec__vectorDom3(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(1, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorSeg2X(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(2, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorSeg2X
func spec__vectorSeg2X(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(2, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorSeg2Y(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(2, buf, dom, cells, 1, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorSeg2Y
func spec__vectorSeg2Y(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(2, buf, dom, cells, 1, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorSeg2Z(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(2, buf, dom, cells, 2, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorSeg2Z
func spec__vectorSeg2Z(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(2, buf, dom, cells, 2, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorDom2X(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(3, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorDom2X
func spec__vectorDom2X(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(3, buf, dom, cells, 0, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorDom2Y(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(3, buf, dom, cells, 1, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorDom2Y
func spec__vectorDom2Y(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(3, buf, dom, cells, 1, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

func use__vectorDom2Z(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return use__vector(3, buf, dom, cells, 2, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

//gtv:equiv use__vectorDom2Z
func spec__vectorDom2Z(buf, dom *geom.CellBounds, cells int, vals [][3]float64, num []int, ws [][3]float64, wn []int, xs []geom.Vec, ptVal float64, low, high, jump int) ([][3]float64, []int) {
	return spec__vector(3, buf, dom, cells, 2, vals, num, ws, wn, xs, ptVal, low, high, jump)
}

// ---- merging a worker's buffer into the image: every pixel of the buffer that
// has an image in the domain is added to it

func use__addScalar(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, grid []float64) []float64 {
	if kind == 1 || kind == 3 { // the workspace is the image
		grid = grid[:len(vals)]
	}
	b, g := spec__scalar(vals), spec__scalar(grid)
	spec__overlap(kind, buf, dom, cells, proj).Add(b, g)
	return spec__scalarOut(g)
}

func spec__addScalar(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, grid []float64) []float64 {
	if kind == 1 || kind == 3 { // the workspace is the image
		grid = grid[:len(vals)]
	}
	v, g := spec__scalarOut(spec__scalar(vals)), spec__scalarOut(spec__scalar(grid))
	if kind == 1 || kind == 3 {
		for n := range v {
			g[n] += v[n]
		}
		return g
	}
	i, j, k := 0, 1, 2
	depth := buf.Width[2]
	if kind == 2 {
		i, j, k = spec__axes(proj)
		depth = 1
	}
	for z := 0; z < depth; z++ {
		zz := 0
		if kind == 0 {
			zz = spec__wrap(z+buf.Origin[k]-dom.Origin[k], cells)
			if zz >= dom.Width[k] {
				continue
			}
		}
		for y := 0; y < buf.Width[j]; y++ {
			yy := spec__wrap(y+buf.Origin[j]-dom.Origin[j], cells)
			if yy >= dom.Width[j] {
				continue
			}
			for x := 0; x < buf.Width[i]; x++ {
				xx := spec__wrap(x+buf.Origin[i]-dom.Origin[i], cells)
				if xx >= dom.Width[i] {
					continue
				}
				g[xx+dom.Width[i]*(yy+dom.Width[j]*zz)] += v[x+buf.Width[i]*(y+buf.Width[j]*z)]
			}
		}
	}
	return g
}

func use__addVector(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	if kind == 1 || kind == 3 { // the workspace is the image
		grid = grid[:len(vals)]
	}
	b, g := spec__vec(vals, vn), spec__vec(grid, gn)
	spec__overlap(kind, buf, dom, cells, proj).Add(b, g)
	return spec__vecOut(g)
}

func spec__addVector(kind int, buf, dom *geom.CellBounds, cells, proj int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	if kind == 1 || kind == 3 { // the workspace is the image
		grid = grid[:len(vals)]
	}
	v, m := spec__vecOut(spec__vec(vals, vn))
	g, c := spec__vecOut(spec__vec(grid, gn))
	if kind == 1 || kind == 3 {
		for n := range v {
			for d := 0; d < 3; d++ {
				g[n][d] += v[n][d]
			}
			c[n] += m[n]
		}
		return g, c
	}
	i, j, k := 0, 1, 2
	depth := buf.Width[2]
	if kind == 2 {
		i, j, k = spec__axes(proj)
		depth = 1
	}
	for z := 0; z < depth; z++ {
		zz := 0
		if kind == 0 {
			zz = spec__wrap(z+buf.Origin[k]-dom.Origin[k], cells)
			if zz >= dom.Width[k] {
				continue
			}
		}
		for y := 0; y < buf.Width[j]; y++ {
			yy := spec__wrap(y+buf.Origin[j]-dom.Origin[j], cells)
			if yy >= dom.Width[j] {
				continue
			}
			for x := 0; x < buf.Width[i]; x++ {
				xx := spec__wrap(x+buf.Origin[i]-dom.Origin[i], cells)
				if xx >= dom.Width[i] {
					continue
				}
				to, from := xx+dom.Width[i]*(yy+dom.Width[j]*zz), x+buf.Width[i]*(y+buf.Width[j]*z)
				for d := 0; d < 3; d++ {
					g[to][d] += v[from][d]
				}
				c[to] += m[from]
			}
		}
	}
	return g, c
}

// The 3D sum of a segment has three wrapped loops, one inside the other. Each
// axis in turn is arbitrary while the other two take every branch once:
// images below and above the box, and pixels outside the domain.
func spec__pin(free int, buf, dom *geom.CellBounds) (*geom.CellBounds, *geom.CellBounds) {
	b, d := *buf, *dom
	low, high := (free+1)%3, (free+2)%3
	b.Origin[low], b.Width[low], d.Origin[low], d.Width[low] = 0, 3, 6, 3
	b.Origin[high], b.Width[high], d.Origin[high], d.Width[high] = 5, 3, 0, 2
	return &b, &d
}

func use__addScalarSeg3X(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(0, buf, dom)
	return use__addScalar(0, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg3X
func spec__addScalarSeg3X(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(0, buf, dom)
	return spec__addScalar(0, b, d, 7, 0, vals, grid)
}

func use__addVectorSeg3X(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(0, buf, dom)
	return use__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg3X
func spec__addVectorSeg3X(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(0, buf, dom)
	return spec__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addScalarSeg3Y(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(1, buf, dom)
	return use__addScalar(0, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg3Y
func spec__addScalarSeg3Y(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(1, buf, dom)
	return spec__addScalar(0, b, d, 7, 0, vals, grid)
}

func use__addVectorSeg3Y(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(1, buf, dom)
	return use__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg3Y
func spec__addVectorSeg3Y(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(1, buf, dom)
	return spec__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addScalarSeg3Z(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(2, buf, dom)
	return use__addScalar(0, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg3Z
func spec__addScalarSeg3Z(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin(2, buf, dom)
	return spec__addScalar(0, b, d, 7, 0, vals, grid)
}

func use__addVectorSeg3Z(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(2, buf, dom)
	return use__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg3Z
func spec__addVectorSeg3Z(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin(2, buf, dom)
	return spec__addVector(0, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addScalarDom3(buf, dom *geom.CellBounds, cells int, vals, grid []float64) []float64 {
	return use__addScalar(1, buf, dom, cells, 0, vals, grid)
}

//gtv:equiv use__addScalarDom3
func spec__addScalarDom3(buf, dom *geom.CellBounds, cells int, vals, grid []float64) []float64 {
	return spec__addScalar(1, buf, dom, cells, 0, vals, grid)
}

func use__addScalarSeg2XYLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 0, false, buf, dom)
	return use__addScalar(2, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg2XYLow
func spec__addScalarSeg2XYLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 0, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 0, vals, grid)
}

func use__addScalarSeg2XYHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 0, true, buf, dom)
	return use__addScalar(2, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg2XYHigh
func spec__addScalarSeg2XYHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 0, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 0, vals, grid)
}

func use__addScalarSeg2XZLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 0, false, buf, dom)
	return use__addScalar(2, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg2XZLow
func spec__addScalarSeg2XZLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 0, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 0, vals, grid)
}

func use__addScalarSeg2XZHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 0, true, buf, dom)
	return use__addScalar(2, b, d, 7, 0, vals, grid)
}

//gtv:equiv use__addScalarSeg2XZHigh
func spec__addScalarSeg2XZHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 0, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 0, vals, grid)
}

func use__addScalarSeg2YXLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 1, false, buf, dom)
	return use__addScalar(2, b, d, 7, 1, vals, grid)
}

//gtv:equiv use__addScalarSeg2YXLow
func spec__addScalarSeg2YXLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 1, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 1, vals, grid)
}

func use__addScalarSeg2YXHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 1, true, buf, dom)
	return use__addScalar(2, b, d, 7, 1, vals, grid)
}

//gtv:equiv use__addScalarSeg2YXHigh
func spec__addScalarSeg2YXHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 1, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 1, vals, grid)
}

func use__addScalarSeg2YZLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 1, false, buf, dom)
	return use__addScalar(2, b, d, 7, 1, vals, grid)
}

//gtv:equiv use__addScalarSeg2YZLow
func spec__addScalarSeg2YZLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 1, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 1, vals, grid)
}

func use__addScalarSeg2YZHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 1, true, buf, dom)
	return use__addScalar(2, b, d, 7, 1, vals, grid)
}

//gtv:equiv use__addScalarSeg2YZHigh
func spec__addScalarSeg2YZHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(2, 1, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 1, vals, grid)
}

func use__addScalarSeg2ZXLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 2, false, buf, dom)
	return use__addScalar(2, b, d, 7, 2, vals, grid)
}

//gtv:equiv use__addScalarSeg2ZXLow
func spec__addScalarSeg2ZXLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 2, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 2, vals, grid)
}

func use__addScalarSeg2ZXHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 2, true, buf, dom)
	return use__addScalar(2, b, d, 7, 2, vals, grid)
}

//gtv:equiv use__addScalarSeg2ZXHigh
func spec__addScalarSeg2ZXHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(0, 2, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 2, vals, grid)
}

func use__addScalarSeg2ZYLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 2, false, buf, dom)
	return use__addScalar(2, b, d, 7, 2, vals, grid)
}

//gtv:equiv use__addScalarSeg2ZYLow
func spec__addScalarSeg2ZYLow(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 2, false, buf, dom)
	return spec__addScalar(2, b, d, 7, 2, vals, grid)
}

func use__addScalarSeg2ZYHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 2, true, buf, dom)
	return use__addScalar(2, b, d, 7, 2, vals, grid)
}

//gtv:equiv use__addScalarSeg2ZYHigh
func spec__addScalarSeg2ZYHigh(buf, dom *geom.CellBounds, vals, grid []float64) []float64 {
	b, d := spec__pin2(1, 2, true, buf, dom)
	return spec__addScalar(2, b, d, 7, 2, vals, grid)
}

func use__addScalarDom2(buf, dom *geom.CellBounds, cells int, vals, grid []float64) []float64 {
	return use__addScalar(3, buf, dom, cells, 0, vals, grid)
}

//gtv:equiv use__addScalarDom2
func spec__addScalarDom2(buf, dom *geom.CellBounds, cells int, vals, grid []float64) []float64 {
	return spec__addScalar(3, buf, dom, cells, 0, vals, grid)
}

func use__addVectorDom3(buf, dom *geom.CellBounds, cells int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	return use__addVector(1, buf, dom, cells, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorDom3
func spec__addVectorDom3(buf, dom *geom.CellBounds, cells int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	return spec__addVector(1, buf, dom, cells, 0, vals, grid, vn, gn)
}

// The 2D sums are decided likewise, one axis arbitrary and the
// other pinned below or above the box.
func spec__pin2(free, proj int, high bool, buf, dom *geom.CellBounds) (*geom.CellBounds, *geom.CellBounds) {
	b, d := *buf, *dom
	k := 3 - free - proj
	if high {
		b.Origin[k], b.Width[k], d.Origin[k], d.Width[k] = 5, 3, 0, 2
	} else {
		b.Origin[k], b.Width[k], d.Origin[k], d.Width[k] = 0, 3, 6, 3
	}
	return &b, &d
}

func use__addVectorSeg2XYLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 0, false, buf, dom)
	return use__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2XYLow
func spec__addVectorSeg2XYLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 0, false, buf, dom)
	return spec__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addVectorSeg2XYHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 0, true, buf, dom)
	return use__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2XYHigh
func spec__addVectorSeg2XYHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 0, true, buf, dom)
	return spec__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addVectorSeg2XZLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 0, false, buf, dom)
	return use__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2XZLow
func spec__addVectorSeg2XZLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 0, false, buf, dom)
	return spec__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addVectorSeg2XZHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 0, true, buf, dom)
	return use__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2XZHigh
func spec__addVectorSeg2XZHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 0, true, buf, dom)
	return spec__addVector(2, b, d, 7, 0, vals, grid, vn, gn)
}

func use__addVectorSeg2YXLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 1, false, buf, dom)
	return use__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2YXLow
func spec__addVectorSeg2YXLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 1, false, buf, dom)
	return spec__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

func use__addVectorSeg2YXHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 1, true, buf, dom)
	return use__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2YXHigh
func spec__addVectorSeg2YXHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 1, true, buf, dom)
	return spec__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

func use__addVectorSeg2YZLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 1, false, buf, dom)
	return use__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2YZLow
func spec__addVectorSeg2YZLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 1, false, buf, dom)
	return spec__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

func use__addVectorSeg2YZHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 1, true, buf, dom)
	return use__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2YZHigh
func spec__addVectorSeg2YZHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(2, 1, true, buf, dom)
	return spec__addVector(2, b, d, 7, 1, vals, grid, vn, gn)
}

func use__addVectorSeg2ZXLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 2, false, buf, dom)
	return use__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2ZXLow
func spec__addVectorSeg2ZXLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 2, false, buf, dom)
	return spec__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

func use__addVectorSeg2ZXHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 2, true, buf, dom)
	return use__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2ZXHigh
func spec__addVectorSeg2ZXHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(0, 2, true, buf, dom)
	return spec__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

func use__addVectorSeg2ZYLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 2, false, buf, dom)
	return use__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2ZYLow
func spec__addVectorSeg2ZYLow(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 2, false, buf, dom)
	return spec__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

func use__addVectorSeg2ZYHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 2, true, buf, dom)
	return use__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorSeg2ZYHigh
func spec__addVectorSeg2ZYHigh(buf, dom *geom.CellBounds, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	b, d := spec__pin2(1, 2, true, buf, dom)
	return spec__addVector(2, b, d, 7, 2, vals, grid, vn, gn)
}

func use__addVectorDom2(buf, dom *geom.CellBounds, cells int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	return use__addVector(3, buf, dom, cells, 0, vals, grid, vn, gn)
}

//gtv:equiv use__addVectorDom2
func spec__addVectorDom2(buf, dom *geom.CellBounds, cells int, vals, grid [][3]float64, vn, gn []int) ([][3]float64, []int) {
	return spec__addVector(3, buf, dom, cells, 0, vals, grid, vn, gn)
}

// ---- sizes and scaling

func use__sizes(buf, dom *geom.CellBounds, cells, proj int) (a, b, c, d int) {
	return spec__overlap(0, buf, dom, cells, proj).BufferSize(), spec__overlap(1, buf, dom, cells, proj).BufferSize(),
		spec__overlap(2, buf, dom, cells, proj).BufferSize(), spec__overlap(3, buf, dom, cells, proj).BufferSize()
}

//gtv:equiv use__sizes
func spec__sizes(buf, dom *geom.CellBounds, cells, proj int) (a, b, c, d int) {
	w := buf.Width
	v, n := w[0]*w[1]*w[2], w[0]*w[1]*w[2]
	switch proj {
	case 0:
		n = w[1] * w[2]
	case 1:
		n = w[0] * w[2]
	case 2:
		n = w[0] * w[1]
	}
	return v, v, n, n
}

func use__bounds(kind int, buf, dom *geom.CellBounds, cells, proj int) (geom.CellBounds, geom.CellBounds, int) {
	o := spec__overlap(kind, buf, dom, cells, proj)
	return *o.BufferCellBounds(), *o.DomainCellBounds(), o.Cells()
}

//gtv:equiv use__bounds
func spec__bounds(kind int, buf, dom *geom.CellBounds, cells, proj int) (geom.CellBounds, geom.CellBounds, int) {
	return *buf, *dom, cells
}

func spec__sized(kind int, buf, dom *geom.CellBounds, cells, proj int, boxWidth float64) Overlap {
	b := spec__base(buf, dom, cells)
	b.boxWidth = boxWidth
	switch kind {
	case 0:
		return &segmentOverlap3D{baseOverlap3D{b}}
	case 1:
		return &domainOverlap3D{baseOverlap3D{b}}
	case 2:
		return &segmentOverlap2D{baseOverlap2D{b, proj}}
	}
	return &domainOverlap2D{baseOverlap2D{b, proj}}
}

func use__scale(kind int, buf, dom, vcb *geom.CellBounds, cells, proj int, boxWidth float64, vs []geom.Vec) {
	spec__sized(kind, buf, dom, cells, proj, boxWidth).ScaleVecs(vs, vcb)
}

// segment overlaps work relative to the segment, domain overlaps relative to the domain
//
//gtv:equiv use__scale
//gtv:effect (*geom.CellBounds).ScaleVecsSegment 1
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__scale(kind int, buf, dom, vcb *geom.CellBounds, cells, proj int, boxWidth float64, vs []geom.Vec) {
	if kind == 0 || kind == 2 {
		vcb.ScaleVecsSegment(vs, cells, boxWidth)
	} else {
		vcb.ScaleVecsDomain(buf, vs, cells, boxWidth)
	}
}
