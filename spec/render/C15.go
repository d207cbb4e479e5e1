package render

import (
	"math"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// the cells that hold any part of [o, o + w]
func spec__span(o, w, cell float64) (origin, width int) {
	origin = int(math.Floor(o / cell))
	return origin, int(math.Floor((o+w)/cell)) - origin + 1
}

func spec__region(boxWidth float64, cells int, c *io.BoxConfig) *geom.CellBounds {
	cell := boxWidth / float64(cells)
	cb := &geom.CellBounds{}
	cb.Origin[0], cb.Width[0] = spec__span(c.X, c.XWidth, cell)
	cb.Origin[1], cb.Width[1] = spec__span(c.Y, c.YWidth, cell)
	cb.Origin[2], cb.Width[2] = spec__span(c.Z, c.ZWidth, cell)
	return cb
}

func spec__config(x, w [3]float64, axis string) *io.BoxConfig {
	c := &io.BoxConfig{}
	c.X, c.Y, c.Z = x[0], x[1], x[2]
	c.XWidth, c.YWidth, c.ZWidth = w[0], w[1], w[2]
	c.ProjectionAxis = axis
	return c
}

// the axis a map is projected along; quantities that need all three
// derivatives are never projected
func spec__axis(q density.Quantity, axis string) (int, bool) {
	if q == density.Density || q == density.Velocity {
		switch axis {
		case "X":
			return 0, true
		case "Y":
			return 1, true
		case "Z":
			return 2, true
		}
	}
	return -1, false
}

func use__box(boxWidth float64, pts, cells int, q density.Quantity, x, w [3]float64, axis string) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	b := NewBox(boxWidth, pts, cells, q, spec__config(x, w, axis))
	dim, proj = b.ProjectionAxis()
	return b.CellOrigin(), b.CellSpan(), b.CellWidth(), b.Cells(), b.Points(), dim, proj
}

func spec__box(boxWidth float64, pts, cells int, q density.Quantity, x, w [3]float64, axis string) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	cb := spec__region(boxWidth, cells, spec__config(x, w, axis))
	dim, proj = spec__axis(q, axis)
	return cb.Origin, cb.Width, boxWidth / float64(cells), cells, pts, dim, proj
}

func use__boxDensityV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Density, x, w, "")
}

//gtv:equiv use__boxDensityV
//gtv:opaque density.NewBuffer
func spec__boxDensityV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Density, x, w, "")
}

func use__boxDensityX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Density, x, w, "X")
}

//gtv:equiv use__boxDensityX
//gtv:opaque density.NewBuffer
func spec__boxDensityX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Density, x, w, "X")
}

func use__boxDensityY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Density, x, w, "Y")
}

//gtv:equiv use__boxDensityY
//gtv:opaque density.NewBuffer
func spec__boxDensityY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Density, x, w, "Y")
}

func use__boxDensityZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Density, x, w, "Z")
}

//gtv:equiv use__boxDensityZ
//gtv:opaque density.NewBuffer
func spec__boxDensityZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Density, x, w, "Z")
}

func use__boxDensityGradientV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.DensityGradient, x, w, "")
}

//gtv:equiv use__boxDensityGradientV
//gtv:opaque density.NewBuffer
func spec__boxDensityGradientV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.DensityGradient, x, w, "")
}

func use__boxVelocityV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Velocity, x, w, "")
}

//gtv:equiv use__boxVelocityV
//gtv:opaque density.NewBuffer
func spec__boxVelocityV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Velocity, x, w, "")
}

func use__boxVelocityX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Velocity, x, w, "X")
}

//gtv:equiv use__boxVelocityX
//gtv:opaque density.NewBuffer
func spec__boxVelocityX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Velocity, x, w, "X")
}

func use__boxVelocityY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Velocity, x, w, "Y")
}

//gtv:equiv use__boxVelocityY
//gtv:opaque density.NewBuffer
func spec__boxVelocityY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Velocity, x, w, "Y")
}

func use__boxVelocityZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.Velocity, x, w, "Z")
}

//gtv:equiv use__boxVelocityZ
//gtv:opaque density.NewBuffer
func spec__boxVelocityZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.Velocity, x, w, "Z")
}

func use__boxVelocityDivergenceV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.VelocityDivergence, x, w, "")
}

//gtv:equiv use__boxVelocityDivergenceV
//gtv:opaque density.NewBuffer
func spec__boxVelocityDivergenceV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.VelocityDivergence, x, w, "")
}

func use__boxVelocityCurlV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "")
}

//gtv:equiv use__boxVelocityCurlV
//gtv:opaque density.NewBuffer
func spec__boxVelocityCurlV(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "")
}

func use__boxVelocityCurlX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "X")
}

//gtv:equiv use__boxVelocityCurlX
//gtv:opaque density.NewBuffer
func spec__boxVelocityCurlX(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "X")
}

func use__boxVelocityCurlY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "Y")
}

//gtv:equiv use__boxVelocityCurlY
//gtv:opaque density.NewBuffer
func spec__boxVelocityCurlY(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "Y")
}

func use__boxVelocityCurlZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return use__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "Z")
}

//gtv:equiv use__boxVelocityCurlZ
//gtv:opaque density.NewBuffer
func spec__boxVelocityCurlZ(boxWidth float64, pts, cells int, x, w [3]float64) (
	origin, span [3]int, cell float64, n, p, dim int, proj bool,
) {
	return spec__box(boxWidth, pts, cells, density.VelocityCurl, x, w, "Z")
}

// ---- the buffer of a box: one pixel per cell, or per cell of the image plane

func use__valsDensityV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Density, spec__config(x, w, "")).Vals()
}

//gtv:equiv use__valsDensityV
//gtv:opaque density.NewBuffer
func spec__valsDensityV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Density, cb.Width[0]*cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsDensityX(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Density, spec__config(x, w, "X")).Vals()
}

//gtv:equiv use__valsDensityX
//gtv:opaque density.NewBuffer
func spec__valsDensityX(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Density, cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsDensityY(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Density, spec__config(x, w, "Y")).Vals()
}

//gtv:equiv use__valsDensityY
//gtv:opaque density.NewBuffer
func spec__valsDensityY(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Density, cb.Width[0]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsDensityZ(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Density, spec__config(x, w, "Z")).Vals()
}

//gtv:equiv use__valsDensityZ
//gtv:opaque density.NewBuffer
func spec__valsDensityZ(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Density, cb.Width[0]*cb.Width[1], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsDensityGradientV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.DensityGradient, spec__config(x, w, "")).Vals()
}

//gtv:equiv use__valsDensityGradientV
//gtv:opaque density.NewBuffer
func spec__valsDensityGradientV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.DensityGradient, cb.Width[0]*cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Velocity, spec__config(x, w, "")).Vals()
}

//gtv:equiv use__valsVelocityV
//gtv:opaque density.NewBuffer
func spec__valsVelocityV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Velocity, cb.Width[0]*cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityX(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Velocity, spec__config(x, w, "X")).Vals()
}

//gtv:equiv use__valsVelocityX
//gtv:opaque density.NewBuffer
func spec__valsVelocityX(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Velocity, cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityY(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Velocity, spec__config(x, w, "Y")).Vals()
}

//gtv:equiv use__valsVelocityY
//gtv:opaque density.NewBuffer
func spec__valsVelocityY(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Velocity, cb.Width[0]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityZ(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.Velocity, spec__config(x, w, "Z")).Vals()
}

//gtv:equiv use__valsVelocityZ
//gtv:opaque density.NewBuffer
func spec__valsVelocityZ(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.Velocity, cb.Width[0]*cb.Width[1], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityDivergenceV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.VelocityDivergence, spec__config(x, w, "")).Vals()
}

//gtv:equiv use__valsVelocityDivergenceV
//gtv:opaque density.NewBuffer
func spec__valsVelocityDivergenceV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.VelocityDivergence, cb.Width[0]*cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

func use__valsVelocityCurlV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	return NewBox(boxWidth, pts, cells, density.VelocityCurl, spec__config(x, w, "")).Vals()
}

//gtv:equiv use__valsVelocityCurlV
//gtv:opaque density.NewBuffer
func spec__valsVelocityCurlV(boxWidth float64, pts, cells int, x, w [3]float64) density.Buffer {
	cb := spec__region(boxWidth, cells, spec__config(x, w, ""))
	return density.NewBuffer(density.VelocityCurl, cb.Width[0]*cb.Width[1]*cb.Width[2], pts, geom.NewGridLocation(cb.Origin, cb.Width, boxWidth, cells))
}

// ---- the grid a sheet segment is drawn on

func spec__sheet(hd *io.SheetHeader, cells int) *geom.CellBounds {
	cell := hd.TotalWidth / float64(cells)
	cb := &geom.CellBounds{}
	for d := 0; d < 3; d++ {
		cb.Origin[d] = int(math.Floor(float64(hd.Origin[d]) / cell))
		cb.Width[d] = int(math.Floor(float64(hd.Origin[d]+hd.Width[d])/cell)) - cb.Origin[d] + 1
	}
	return cb
}

func spec__seen(o Overlap, vs []geom.Vec, vcb *geom.CellBounds) (geom.CellBounds, geom.CellBounds, int, int) {
	o.ScaleVecs(vs, vcb)
	return *o.BufferCellBounds(), *o.DomainCellBounds(), o.Cells(), o.BufferSize()
}

func use__overlap3(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	b := &box3D{}
	b.cb, b.cellWidth, b.cells = *cb, cell, cells
	return spec__seen(b.Overlap(hd), vs, vcb)
}

//gtv:equiv use__overlap3
//gtv:effect (*geom.CellBounds).ScaleVecsSegment 1
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__overlap3(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	s := spec__sheet(hd, cells)
	n, m := s.Width[0]*s.Width[1]*s.Width[2], cb.Width[0]*cb.Width[1]*cb.Width[2]
	if n <= m {
		vcb.ScaleVecsSegment(vs, cells, cell*float64(cells))
		return *s, *cb, cells, n
	}
	vcb.ScaleVecsDomain(cb, vs, cells, cell*float64(cells))
	return *cb, *cb, cells, m
}

func use__overlap2X(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	b := &box2D{}
	b.cb, b.cellWidth, b.cells, b.proj = *cb, cell, cells, 0
	return spec__seen(b.Overlap(hd), vs, vcb)
}

//gtv:equiv use__overlap2X
//gtv:effect (*geom.CellBounds).ScaleVecsSegment 1
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__overlap2X(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	s := spec__sheet(hd, cells)
	n, m := s.Width[1]*s.Width[2], cb.Width[1]*cb.Width[2]
	if n <= m || cb.Width[0] >= cells/2 || cb.Width[1] >= cells/2 || cb.Width[2] >= cells/2 {
		vcb.ScaleVecsSegment(vs, cells, cell*float64(cells))
		return *s, *cb, cells, n
	}
	vcb.ScaleVecsDomain(cb, vs, cells, cell*float64(cells))
	return *cb, *cb, cells, m
}

func use__overlap2Y(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	b := &box2D{}
	b.cb, b.cellWidth, b.cells, b.proj = *cb, cell, cells, 1
	return spec__seen(b.Overlap(hd), vs, vcb)
}

//gtv:equiv use__overlap2Y
//gtv:effect (*geom.CellBounds).ScaleVecsSegment 1
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__overlap2Y(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	s := spec__sheet(hd, cells)
	n, m := s.Width[0]*s.Width[2], cb.Width[0]*cb.Width[2]
	if n <= m || cb.Width[0] >= cells/2 || cb.Width[1] >= cells/2 || cb.Width[2] >= cells/2 {
		vcb.ScaleVecsSegment(vs, cells, cell*float64(cells))
		return *s, *cb, cells, n
	}
	vcb.ScaleVecsDomain(cb, vs, cells, cell*float64(cells))
	return *cb, *cb, cells, m
}

func use__overlap2Z(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	b := &box2D{}
	b.cb, b.cellWidth, b.cells, b.proj = *cb, cell, cells, 2
	return spec__seen(b.Overlap(hd), vs, vcb)
}

//gtv:equiv use__overlap2Z
//gtv:effect (*geom.CellBounds).ScaleVecsSegment 1
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__overlap2Z(cb *geom.CellBounds, cell float64, cells int, hd *io.SheetHeader, vs []geom.Vec, vcb *geom.CellBounds) (
	geom.CellBounds, geom.CellBounds, int, int,
) {
	s := spec__sheet(hd, cells)
	n, m := s.Width[0]*s.Width[1], cb.Width[0]*cb.Width[1]
	if n <= m || cb.Width[0] >= cells/2 || cb.Width[1] >= cells/2 || cb.Width[2] >= cells/2 {
		vcb.ScaleVecsSegment(vs, cells, cell*float64(cells))
		return *s, *cb, cells, n
	}
	vcb.ScaleVecsDomain(cb, vs, cells, cell*float64(cells))
	return *cb, *cb, cells, m
}
