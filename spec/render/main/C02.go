package main

import (
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- one file for each segment, in order, with its own name and header

var spec__written struct {
	name   string
	hd     io.SheetHeader
	xs, vs float32
	n      int
	files  int
}

var spec__wanted int64

func spec__save(file string, hd *io.SheetHeader, xs, vs []geom.Vec) {
	spec__written.files++
	if hd.Idx == spec__wanted {
		spec__written.name = file
		spec__written.hd = *hd
		spec__written.xs, spec__written.vs = xs[0][0], vs[0][0]
		spec__written.n = len(xs)*1000 + len(vs)
	}
}

func spec__fill(hd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
	hd.Origin[0], hd.Width[0] = spec__at(hd.Idx, 1), spec__at(hd.Idx, 2)
	hd.VelocityOrigin[0], hd.VelocityWidth[0] = spec__at(hd.Idx, 3), spec__at(hd.Idx, 4)
	xsSeg[0][0], vsSeg[0][0] = spec__at(hd.Idx, 5)+xs[0][0], spec__at(hd.Idx, 6)+vs[0][0]
}

func spec__at(idx int64, n int) float32 { return 0 }

func spec__forget() {
	spec__wanted = 0
	w := &spec__written
	w.name, w.hd, w.xs, w.vs, w.n, w.files = "", io.SheetHeader{}, 0, 0, 0, 0
}

func use__files(want int64, width, cells int64, hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	spec__wanted = want
	spec__written.files = 0
	h := *hd
	h.CountWidth = width
	writeGrids("dir", &h, int(cells), []geom.Vec{xs}, []geom.Vec{vs})
	w := spec__written
	spec__forget()
	return w.name, w.hd, [2]float32{w.xs, w.vs}, w.n, w.files
}

func spec__files(want int64, width, cells int64, hd *io.CatalogHeader, xs, vs geom.Vec, name string) (string, io.SheetHeader, [2]float32, int, int) {
	spec__forget()
	var s io.SheetHeader
	s.Cosmo = hd.Cosmo
	s.Count, s.CountWidth, s.Mass, s.TotalWidth = hd.TotalCount, width, hd.Mass, hd.TotalWidth
	s.SegmentWidth = width / cells
	s.GridWidth = width/cells + 1
	s.GridCount = s.GridWidth * s.GridWidth * s.GridWidth
	s.Idx, s.Cells = want, cells
	s.Origin[0], s.Width[0] = spec__at(want, 1), spec__at(want, 2)
	s.VelocityOrigin[0], s.VelocityWidth[0] = spec__at(want, 3), spec__at(want, 4)
	n := int(s.GridCount)
	return name, s, [2]float32{spec__at(want, 5) + xs[0], spec__at(want, 6) + vs[0]}, 1001 * n, int(cells * cells * cells)
}

func use__filesTwo0(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(0, 4, 2, hd, xs, vs)
}

//gtv:equiv use__filesTwo0
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesTwo0(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(0, 4, 2, hd, xs, vs, "dir/sheet000.dat")
}

func use__filesTwo1(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(1, 4, 2, hd, xs, vs)
}

//gtv:equiv use__filesTwo1
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesTwo1(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(1, 4, 2, hd, xs, vs, "dir/sheet100.dat")
}

func use__filesTwo2(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(2, 4, 2, hd, xs, vs)
}

//gtv:equiv use__filesTwo2
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesTwo2(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(2, 4, 2, hd, xs, vs, "dir/sheet010.dat")
}

func use__filesTwo4(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(4, 4, 2, hd, xs, vs)
}

//gtv:equiv use__filesTwo4
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesTwo4(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(4, 4, 2, hd, xs, vs, "dir/sheet001.dat")
}

func use__filesTwo7(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(7, 4, 2, hd, xs, vs)
}

//gtv:equiv use__filesTwo7
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesTwo7(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(7, 4, 2, hd, xs, vs, "dir/sheet111.dat")
}

func use__filesEleven1(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(1, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven1
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven1(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(1, 22, 11, hd, xs, vs, "dir/sheet010000.dat")
}

func use__filesEleven10(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(10, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven10
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven10(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(10, 22, 11, hd, xs, vs, "dir/sheet100000.dat")
}

func use__filesEleven11(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(11, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven11
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven11(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(11, 22, 11, hd, xs, vs, "dir/sheet000100.dat")
}

func use__filesEleven12(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(12, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven12
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven12(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(12, 22, 11, hd, xs, vs, "dir/sheet010100.dat")
}

func use__filesEleven121(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(121, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven121
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven121(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(121, 22, 11, hd, xs, vs, "dir/sheet000001.dat")
}

func use__filesEleven1330(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(1330, 22, 11, hd, xs, vs)
}

//gtv:equiv use__filesEleven1330
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesEleven1330(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(1330, 22, 11, hd, xs, vs, "dir/sheet101010.dat")
}

func use__filesOdd(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(13, 9, 3, hd, xs, vs)
}

//gtv:equiv use__filesOdd
//gtv:model io.WriteSheet spec__save
//gtv:model main.copyToSegment spec__fill
//gtv:opaque main.spec__at
func spec__filesOdd(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return spec__files(13, 9, 3, hd, xs, vs, "dir/sheet111.dat")
}

// a grid that cannot be cut into that many segments is refused

func use__uneven(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	return use__files(0, 5, 2, hd, xs, vs)
}

//gtv:equiv use__uneven
func spec__uneven(hd *io.CatalogHeader, xs, vs geom.Vec) (string, io.SheetHeader, [2]float32, int, int) {
	spec__forget()
	panic("uneven")
}

// ---- a segment holds its part of the grid and the first row of the next,
// around the edge of the grid

func spec__boxInit(box *boundingBox, pt *geom.Vec, width float64) {
	box.Width = width
	for k := range box.Center {
		box.Center[k] = spec__first(*pt, width, k)
	}
}

func spec__boxAdd(box *boundingBox, pt *geom.Vec) {
	c, lo, hi := box.Center, box.ToMin, box.ToMax
	for k := range c {
		box.Center[k] = spec__more(c, lo, hi, *pt, k)
		box.ToMin[k] = spec__more(c, lo, hi, *pt, 3+k)
		box.ToMax[k] = spec__more(c, lo, hi, *pt, 6+k)
	}
}

func spec__first(pt geom.Vec, width float64, k int) float32 { return 0 }
func spec__more(c, lo, hi, pt geom.Vec, k int) float32      { return 0 }

func use__segment(idx int64, hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	hd.Idx, hd.Cells, hd.CountWidth, hd.SegmentWidth, hd.GridWidth = idx, 2, 4, 2, 3
	copyToSegment(&hd, xs[:], vs[:], xsSeg[:], vsSeg[:])
	return xsSeg, vsSeg
}

func spec__segment(idx int, xs, vs [64]geom.Vec) (xsSeg, vsSeg [27]geom.Vec) {
	x0, y0, z0 := 2*(idx%2), 2*(idx/2%2), 2*(idx/4)
	for i := range xsSeg {
		x, y, z := x0+i%3, y0+i/3%3, z0+i/9
		from := x%4 + 4*(y%4) + 16*(z%4)
		xsSeg[i], vsSeg[i] = xs[from], vs[from]
	}
	return xsSeg, vsSeg
}

func use__segment0(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(0, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment0
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment0(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(0, xs, vs)
}

func use__segment1(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(1, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment1
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment1(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(1, xs, vs)
}

func use__segment2(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(2, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment2
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment2(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(2, xs, vs)
}

func use__segment3(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(3, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment3
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment3(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(3, xs, vs)
}

func use__segment4(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(4, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment4
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment4(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(4, xs, vs)
}

func use__segment5(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(5, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment5
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment5(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(5, xs, vs)
}

func use__segment6(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(6, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment6
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment6(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(6, xs, vs)
}

func use__segment7(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return use__segment(7, hd, xs, vs, xsSeg, vsSeg)
}

//gtv:equiv use__segment7
//gtv:model (*main.boundingBox).Init spec__boxInit
//gtv:model (*main.boundingBox).Add spec__boxAdd
//gtv:opaque main.spec__first main.spec__more
func spec__segment7(hd io.SheetHeader, xs, vs [64]geom.Vec, xsSeg, vsSeg [27]geom.Vec) ([27]geom.Vec, [27]geom.Vec) {
	return spec__segment(7, xs, vs)
}

// ---- its bounds take in every point of it, and nothing else

func spec__boxWidth(box *boundingBox, pt *geom.Vec, width float64) { box.Width = width }

func spec__boxSum(box *boundingBox, pt *geom.Vec) {
	for k := range box.Center {
		box.Center[k] += spec__part(*pt, box.Width, k)
		box.ToMin[k] += spec__part(*pt, box.Width, 3+k)
		box.ToMax[k] += spec__part(*pt, box.Width, 6+k)
	}
}

func spec__part(pt geom.Vec, width float64, k int) float32 { return 0 }

func spec__around(v *geom.Vec, width float64) *geom.Vec {
	for k := range v {
		v[k] = spec__wrapped(v[k], width)
	}
	return v
}

func spec__wrapped(x float32, width float64) float32 { return 0 }

func use__bounds(idx int64, width float64, xs [64]geom.Vec) (o, w geom.Vec) {
	hd := &io.SheetHeader{}
	hd.Idx, hd.Cells, hd.CountWidth, hd.SegmentWidth, hd.GridWidth = idx, 2, 4, 2, 3
	hd.TotalWidth = width
	copyToSegment(hd, xs[:], make([]geom.Vec, 64), make([]geom.Vec, 27), make([]geom.Vec, 27))
	return hd.Origin, hd.Width
}

func spec__bounds(idx int, width float64, xs [64]geom.Vec) (o, w geom.Vec) {
	x0, y0, z0 := 2*(idx%2), 2*(idx/2%2), 2*(idx/4)
	for i := 0; i < 27; i++ {
		x, y, z := x0+i%3, y0+i/3%3, z0+i/9
		from := x%4 + 4*(y%4) + 16*(z%4)
		for k := range o {
			o[k] += spec__part(xs[from], width, k) + spec__part(xs[from], width, 3+k)
			w[k] += 2 * spec__part(xs[from], width, 6+k)
		}
	}
	for k := range o {
		o[k] = spec__wrapped(o[k], width)
	}
	return o, w
}

func use__bounds0(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return use__bounds(0, width, xs) }

//gtv:equiv use__bounds0
//gtv:model (*main.boundingBox).Init spec__boxWidth
//gtv:model (*main.boundingBox).Add spec__boxSum
//gtv:model (*geom.Vec).ModSelf spec__around
//gtv:opaque main.spec__part main.spec__wrapped
func spec__bounds0(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return spec__bounds(0, width, xs) }

func use__bounds3(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return use__bounds(3, width, xs) }

//gtv:equiv use__bounds3
//gtv:model (*main.boundingBox).Init spec__boxWidth
//gtv:model (*main.boundingBox).Add spec__boxSum
//gtv:model (*geom.Vec).ModSelf spec__around
//gtv:opaque main.spec__part main.spec__wrapped
func spec__bounds3(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return spec__bounds(3, width, xs) }

func use__bounds7(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return use__bounds(7, width, xs) }

//gtv:equiv use__bounds7
//gtv:model (*main.boundingBox).Init spec__boxWidth
//gtv:model (*main.boundingBox).Add spec__boxSum
//gtv:model (*geom.Vec).ModSelf spec__around
//gtv:opaque main.spec__part main.spec__wrapped
func spec__bounds7(width float64, xs [64]geom.Vec) (o, w geom.Vec) { return spec__bounds(7, width, xs) }

func spec__noBox(box *boundingBox, pt *geom.Vec) {}

// two points of the segment move, the others do not
func use__speeds(idx int64, i, j int, a, b geom.Vec) (o, w geom.Vec) {
	hd := &io.SheetHeader{}
	hd.Idx, hd.Cells, hd.CountWidth, hd.SegmentWidth, hd.GridWidth = idx, 2, 4, 2, 3
	hd.TotalWidth = 1
	var vs [64]geom.Vec
	vs[i], vs[j] = a, b
	copyToSegment(hd, make([]geom.Vec, 64), vs[:], make([]geom.Vec, 27), make([]geom.Vec, 27))
	return hd.VelocityOrigin, hd.VelocityWidth
}

func spec__speeds(a, b geom.Vec) (o, w geom.Vec) {
	for k := range o {
		lo, hi := float32(0), float32(0)
		for _, x := range [2]float32{a[k], b[k]} {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		o[k], w[k] = lo, hi-lo
	}
	return o, w
}

func use__speeds0(a, b geom.Vec) (o, w geom.Vec) { return use__speeds(0, 0, 42, a, b) }

//gtv:equiv use__speeds0
//gtv:model (*main.boundingBox).Add spec__noBox
func spec__speeds0(a, b geom.Vec) (o, w geom.Vec) { return spec__speeds(a, b) }

func use__speeds1(a, b geom.Vec) (o, w geom.Vec) { return use__speeds(0, 21, 1, a, b) }

//gtv:equiv use__speeds1
//gtv:model (*main.boundingBox).Add spec__noBox
func spec__speeds1(a, b geom.Vec) (o, w geom.Vec) { return spec__speeds(a, b) }

func use__speeds2(a, b geom.Vec) (o, w geom.Vec) { return use__speeds(7, 42, 0, a, b) }

//gtv:equiv use__speeds2
//gtv:model (*main.boundingBox).Add spec__noBox
func spec__speeds2(a, b geom.Vec) (o, w geom.Vec) { return spec__speeds(a, b) }

func use__speeds3(a, b geom.Vec) (o, w geom.Vec) { return use__speeds(7, 63, 2, a, b) }

//gtv:equiv use__speeds3
//gtv:model (*main.boundingBox).Add spec__noBox
func spec__speeds3(a, b geom.Vec) (o, w geom.Vec) { return spec__speeds(a, b) }

func use__speeds4(a, b geom.Vec) (o, w geom.Vec) { return use__speeds(1, 2, 40, a, b) }

//gtv:equiv use__speeds4
//gtv:model (*main.boundingBox).Add spec__noBox
func spec__speeds4(a, b geom.Vec) (o, w geom.Vec) { return spec__speeds(a, b) }

// ---- adding a point to bounds makes them just as large as needed

// (one axis at a time, the others at rest)

func use__add(axis int, c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	box := &boundingBox{Width: width}
	var pt geom.Vec
	box.Center[axis], box.ToMin[axis], box.ToMax[axis], pt[axis] = c, -r, r, x
	box.Add(&pt)
	k := (axis + 1) % 3
	return box.Center[axis] + box.ToMin[axis], box.Center[axis] + box.ToMax[axis], box.Center[k] + box.ToMin[k],
		box.ToMin[axis] == -box.ToMax[axis]
}

func spec__add(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	w := float32(width)
	d := x - c
	if d > w/2 {
		d -= w
	} else if d < -w/2 {
		d += w
	}
	lo, hi = c-r, c+r
	if d < -r {
		lo = c + d
	}
	if d > r {
		hi = c + d
	}
	return lo, hi, 0, true
}

// bounds are symmetric about their centre and span less than half of the box
func assume__add(c, r, x float32, width float64) bool {
	w := float32(width)
	return w > 0 && r >= 0 && 4*r < w && x-c < w && c-x < w
}

func use__addX(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return use__add(0, c, r, x, width)
}

//gtv:equiv use__addX
//gtv:assume assume__add
func spec__addX(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return spec__add(c, r, x, width)
}

func use__addY(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return use__add(1, c, r, x, width)
}

//gtv:equiv use__addY
//gtv:assume assume__add
func spec__addY(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return spec__add(c, r, x, width)
}

func use__addZ(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return use__add(2, c, r, x, width)
}

//gtv:equiv use__addZ
//gtv:assume assume__add
func spec__addZ(c, r, x float32, width float64) (lo, hi, other float32, even bool) {
	return spec__add(c, r, x, width)
}
