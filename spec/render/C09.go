package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// spec__worker stands for a sampler: it adds something for every cube it is
// told to handle.
type spec__worker struct {
	segWidth, skip int64
	points, cells  int
	unit           [][]geom.Vec
	sub            density.Interpolator
}

func (w *spec__worker) DomainCellBounds() *geom.CellBounds { return w.sub.DomainCellBounds() }
func (w *spec__worker) BufferCellBounds() *geom.CellBounds { return w.sub.BufferCellBounds() }
func (w *spec__worker) Cells() int                         { return w.cells }

func (w *spec__worker) Interpolate(buf density.Buffer, xs, vs []geom.Vec, ptVal float64, weights density.Buffer, low, high, jump int) {
	vals, _ := buf.ScalarBuffer()
	for idx := low; idx < high; idx += jump {
		for j := range vals {
			vals[j] += spec__cube(j, idx, xs, ptVal, w.segWidth, w.skip, w.points, w.cells)
		}
	}
}

func spec__cube(j, idx int, xs []geom.Vec, ptVal float64, segWidth, skip int64, points, cells int) float64 {
	return 0
}

func spec__sampler(segWidth int64, points, cells int, skip int64, unit [][]geom.Vec, sub density.Interpolator) density.Interpolator {
	return &spec__worker{segWidth, skip, points, cells, unit, sub}
}

func spec__loaded(man *Manager, file string) error { return nil }

func spec__buffer(vals []float64) density.Buffer {
	c := make([]float64, len(vals))
	for i := range c {
		c[i] = vals[i]
	}
	return density.WrapperDensityBuffer(c)
}

func spec__box3(cells, points int, origin [3]int, vals []float64) *box3D {
	b := &box3D{}
	b.cb = geom.CellBounds{Origin: origin, Width: [3]int{2, 1, 1}}
	b.cells, b.pts, b.cellWidth = cells, points, 0.5
	b.bvals = spec__buffer(vals)
	return b
}

func spec__header(count int64) io.SheetHeader {
	hd := io.SheetHeader{}
	hd.SegmentWidth, hd.GridWidth, hd.CountWidth, hd.TotalWidth = 2, 3, count, 50
	hd.Width = geom.Vec{10, 10, 10}
	return hd
}

func use__render(workers, skip, points, cells int, count int64, a, b, c, old [2]float64, xs []geom.Vec, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	boxes := []*box3D{
		spec__box3(cells, points, [3]int{}, a[:]),
		spec__box3(2*cells, points, [3]int{3, 4, 5}, b[:]),
		spec__box3(cells, points, [3]int{}, c[:]),
	}
	m := &Manager{workers: workers, skip: skip, q: density.Density, hd: spec__header(count)}
	m.xs, m.scaledXs = xs, make([]geom.Vec, len(xs))
	m.unitBufs = [][]geom.Vec{unit}
	m.workspaces = make([]workspace, workers)
	for i := range m.workspaces {
		m.workspaces[i].buf = spec__buffer(old[:])
	}
	m.renderers = make([]renderer, 3)
	for i := range m.renderers {
		m.renderers[i].box = boxes[i]
		m.renderers[i].validSegs = make(map[string]bool)
	}
	m.renderers[0].validSegs["here"] = true
	m.renderers[1].validSegs["here"] = true
	m.renderers[2].validSegs["elsewhere"] = true
	err := m.RenderDensityFromFile("here")
	va, _ := boxes[0].bvals.ScalarBuffer()
	vb, _ := boxes[1].bvals.ScalarBuffer()
	vc, _ := boxes[2].bvals.ScalarBuffer()
	return va, vb, vc, err != nil
}

// every cube of the segment is sampled once for each box that needs the file,
// whoever does it
func spec__render(n, skip, points, cells int, count int64, a, b, c [2]float64, xs []geom.Vec) (ra, rb, rc []float64, failed bool) {
	hd := spec__header(count)
	ra, rb, rc = make([]float64, 2), make([]float64, 2), make([]float64, 2)
	for i, cells := range [2]int{cells, 2 * cells} {
		out, from, at := ra, a, [3]int{}
		if i == 1 {
			out, from, at = rb, b, [3]int{3, 4, 5}
		}
		scaled := make([]geom.Vec, len(xs))
		copy(scaled, xs)
		dom := &geom.CellBounds{Origin: at, Width: [3]int{2, 1, 1}}
		hd.CellBounds(cells).ScaleVecsDomain(dom, scaled, cells, 0.5*float64(cells))
		frac := float64(cells) / float64(count)
		for j := range out {
			out[j] = from[j]
			for idx := 0; idx < n*n*n; idx++ {
				out[j] += spec__cube(j, idx, scaled, frac*frac*frac, 2, int64(skip), points, cells)
			}
		}
	}
	rc[0], rc[1] = c[0], c[1]
	return ra, rb, rc, false
}

// ---- histograms

func spec__readHead(file string, hd *io.SheetHeader) error {
	hd.SegmentWidth, hd.GridWidth, hd.TotalWidth = 2, 3, 50
	hd.Width = geom.Vec{50, 50, 50}
	return nil
}

func spec__readXs(file string, xs []geom.Vec) error { return nil }

func spec__near(man *HistManager, idx int, box *HistBox) bool {
	return spec__nearOf(idx, box.Origin[0])
}

func spec__nearOf(idx int, x float64) bool { return true }

func spec__sample(man *HistManager, i, dir int, box *HistBox, vecBuf []geom.Vec, densities []float64, inBox []bool) {
	for j := range densities {
		densities[j] = spec__rho(i, dir, j, box.Origin[0])
		inBox[j] = spec__in(i, dir, j, box.Origin[0])
	}
}

func spec__rho(i, dir, j int, x float64) float64 { return 0 }
func spec__in(i, dir, j int, x float64) bool     { return true }

func spec__count(x []float64, ok []bool, info *HistInfo, counts []int) {
	for k := range counts {
		counts[k] += spec__bin(k, x, ok, info.Min)
	}
}

func spec__bin(k int, x []float64, ok []bool, min float64) int { return 0 }

func spec__histBox(x float64, counts [2]int) HistBox {
	b := HistBox{Origin: [3]float64{x, 1, 1}, Span: [3]float64{2, 2, 2}}
	b.Counts = []int{counts[0], counts[1]}
	return b
}

func use__hist(workers, skip int, min float64, a, b [2]int, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	m := &HistManager{workers: workers, skip: skip, quantity: "Density", xs: xs}
	m.boxes = []HistBox{spec__histBox(3, a), spec__histBox(30, b)}
	m.hists, m.qs = make([][]int, workers), make([][]float64, workers)
	m.inBox, m.vecBufs = make([][]bool, workers), make([][]geom.Vec, workers)
	for i := 0; i < workers; i++ {
		m.hists[i] = []int{old[0], old[1]}
		m.qs[i], m.inBox[i], m.vecBufs[i] = make([]float64, 4), make([]bool, 4), make([]geom.Vec, 4)
	}
	err := m.HistFromFile("here", &HistInfo{Min: min, Max: 10, Bins: 2, Scale: "Linear"})
	for k := 0; k < 2; k++ {
		ra[k], rb[k] = m.boxes[0].Counts[k], m.boxes[1].Counts[k]
	}
	return ra, rb, err != nil
}

func spec__hist(n, skip int, min float64, a, b [2]int) (ra, rb [2]int, failed bool) {
	for i, x := range [2]float64{3, 30} {
		out := a
		if i == 1 {
			out = b
		}
		for z := 0; z < n; z++ {
			for y := 0; y < n; y++ {
				for x0 := 0; x0 < n; x0++ {
					idx := skip * (x0 + 3*y + 9*z)
					if !spec__nearOf(idx, x) {
						continue
					}
					for dir := 0; dir < 6; dir++ {
						q, in := make([]float64, 4), make([]bool, 4)
						for j := range q {
							q[j], in[j] = spec__rho(idx, dir, j, x), spec__in(idx, dir, j, x)
						}
						for k := 0; k < 2; k++ {
							out[k] += spec__bin(k, q, in, min)
						}
					}
				}
			}
		}
		if i == 0 {
			ra = out
		} else {
			rb = out
		}
	}
	return ra, rb, false
}

func use__workersOne(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return use__render(1, 1, points, 100, count, a, b, c, old, xs, unit)
}

//gtv:equiv use__workersOne
//gtv:model (*render.Manager).loadFile spec__loaded
//gtv:model density.MonteCarlo spec__sampler
//gtv:opaque render.spec__cube
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__workersOne(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return spec__render(2, 1, points, 100, count, a, b, c, xs)
}

func use__histOne(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return use__hist(1, 1, min, a, b, old, xs)
}

//gtv:equiv use__histOne
//gtv:model io.ReadSheetHeaderAt spec__readHead
//gtv:model io.ReadSheetPositionsAt spec__readXs
//gtv:model (*render.HistManager).cubeIntersects spec__near
//gtv:model (*render.HistManager).getDensities spec__sample
//gtv:model render.histogram spec__count
//gtv:opaque render.spec__nearOf render.spec__rho render.spec__in render.spec__bin
func spec__histOne(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return spec__hist(2, 1, min, a, b)
}

func use__workersTwo(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return use__render(2, 1, points, 100, count, a, b, c, old, xs, unit)
}

//gtv:equiv use__workersTwo
//gtv:model (*render.Manager).loadFile spec__loaded
//gtv:model density.MonteCarlo spec__sampler
//gtv:opaque render.spec__cube
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__workersTwo(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return spec__render(2, 1, points, 100, count, a, b, c, xs)
}

func use__histTwo(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return use__hist(2, 1, min, a, b, old, xs)
}

//gtv:equiv use__histTwo
//gtv:model io.ReadSheetHeaderAt spec__readHead
//gtv:model io.ReadSheetPositionsAt spec__readXs
//gtv:model (*render.HistManager).cubeIntersects spec__near
//gtv:model (*render.HistManager).getDensities spec__sample
//gtv:model render.histogram spec__count
//gtv:opaque render.spec__nearOf render.spec__rho render.spec__in render.spec__bin
func spec__histTwo(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return spec__hist(2, 1, min, a, b)
}

func use__workersThree(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return use__render(3, 1, points, 100, count, a, b, c, old, xs, unit)
}

//gtv:equiv use__workersThree
//gtv:model (*render.Manager).loadFile spec__loaded
//gtv:model density.MonteCarlo spec__sampler
//gtv:opaque render.spec__cube
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__workersThree(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return spec__render(2, 1, points, 100, count, a, b, c, xs)
}

func use__histThree(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return use__hist(3, 1, min, a, b, old, xs)
}

//gtv:equiv use__histThree
//gtv:model io.ReadSheetHeaderAt spec__readHead
//gtv:model io.ReadSheetPositionsAt spec__readXs
//gtv:model (*render.HistManager).cubeIntersects spec__near
//gtv:model (*render.HistManager).getDensities spec__sample
//gtv:model render.histogram spec__count
//gtv:opaque render.spec__nearOf render.spec__rho render.spec__in render.spec__bin
func spec__histThree(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return spec__hist(2, 1, min, a, b)
}

func use__workersFive(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return use__render(5, 1, points, 100, count, a, b, c, old, xs, unit)
}

//gtv:equiv use__workersFive
//gtv:model (*render.Manager).loadFile spec__loaded
//gtv:model density.MonteCarlo spec__sampler
//gtv:opaque render.spec__cube
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__workersFive(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return spec__render(2, 1, points, 100, count, a, b, c, xs)
}

func use__histFive(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return use__hist(5, 1, min, a, b, old, xs)
}

//gtv:equiv use__histFive
//gtv:model io.ReadSheetHeaderAt spec__readHead
//gtv:model io.ReadSheetPositionsAt spec__readXs
//gtv:model (*render.HistManager).cubeIntersects spec__near
//gtv:model (*render.HistManager).getDensities spec__sample
//gtv:model render.histogram spec__count
//gtv:opaque render.spec__nearOf render.spec__rho render.spec__in render.spec__bin
func spec__histFive(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return spec__hist(2, 1, min, a, b)
}

func use__workersCoarse(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return use__render(3, 2, points, 100, count, a, b, c, old, xs, unit)
}

//gtv:equiv use__workersCoarse
//gtv:model (*render.Manager).loadFile spec__loaded
//gtv:model density.MonteCarlo spec__sampler
//gtv:opaque render.spec__cube
//gtv:effect (*geom.CellBounds).ScaleVecsDomain 2
func spec__workersCoarse(points int, count int64, a, b, c, old [2]float64, xs, unit []geom.Vec) (ra, rb, rc []float64, failed bool) {
	return spec__render(1, 2, points, 100, count, a, b, c, xs)
}

func use__histCoarse(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return use__hist(3, 2, min, a, b, old, xs)
}

//gtv:equiv use__histCoarse
//gtv:model io.ReadSheetHeaderAt spec__readHead
//gtv:model io.ReadSheetPositionsAt spec__readXs
//gtv:model (*render.HistManager).cubeIntersects spec__near
//gtv:model (*render.HistManager).getDensities spec__sample
//gtv:model render.histogram spec__count
//gtv:opaque render.spec__nearOf render.spec__rho render.spec__in render.spec__bin
func spec__histCoarse(min float64, a, b, old [2]int, xs []geom.Vec) (ra, rb [2]int, failed bool) {
	return spec__hist(1, 2, min, a, b)
}
