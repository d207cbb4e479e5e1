package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- stand-ins: sheets and boxes of which only what follows is known

func spec__readHead10(file string, hd *io.SheetHeader) error {
	if spec__bad(file) {
		return spec__failed10{}
	}
	hd.Idx = spec__idOf(file)
	hd.GridCount = 27
	return nil
}

type spec__failed10 struct{}

func (spec__failed10) Error() string { return "" }

func spec__bad(file string) bool   { return false }
func spec__idOf(file string) int64 { return 0 }

type spec__sheetBox struct {
	Box
	id, pts, cells int
	span           [3]int
}

func (b *spec__sheetBox) CellSpan() [3]int            { return b.span }
func (b *spec__sheetBox) CellOrigin() [3]int          { return [3]int{b.id, 0, 0} }
func (b *spec__sheetBox) CellWidth() float64          { return spec__pixel(b.id) }
func (b *spec__sheetBox) Cells() int                  { return b.cells }
func (b *spec__sheetBox) Points() int                 { return b.pts }
func (b *spec__sheetBox) ProjectionAxis() (int, bool) { return -1, false }
func (b *spec__sheetBox) Overlap(hd *io.SheetHeader) Overlap {
	return &spec__shared{size: spec__size(b.id, hd.Idx)}
}

type spec__shared struct {
	Overlap
	size int
}

func (o *spec__shared) BufferSize() int { return o.size }

func spec__size(box int, sheet int64) int { return 0 }

func spec__bounds10(hd *io.SheetHeader, cells int) *geom.CellBounds {
	return &geom.CellBounds{Origin: [3]int{int(hd.Idx), cells, 0}}
}

func spec__touches(a, b *geom.CellBounds, cells int) bool {
	return spec__touch(int64(a.Origin[0]), a.Origin[1], b.Origin[0], b.Width, cells)
}

func spec__touch(sheet int64, sheetCells, box int, span [3]int, cells int) bool { return false }

func spec__pixel(box int) float64 { return 0 }

func spec__procs(n int) int { return n }

func spec__units(n, pts int) [][]geom.Vec {
	out := make([][]geom.Vec, 1)
	out[0] = make([]geom.Vec, pts)
	return out
}

func use__manager(files []string, id, points, cells [2]int, vel bool) *Manager {
	NumCores = 2
	q := density.Density
	if vel {
		q = density.Velocity
	}
	boxes := make([]Box, 2)
	for i := range id {
		boxes[i] = &spec__sheetBox{id: id[i], pts: points[i], cells: cells[i], span: [3]int{7 + i, 8, 9}}
	}
	man, err := NewManager(files, boxes, false, q)
	if err != nil {
		return nil
	}
	return man
}

// ---- which sheets a box needs: those that touch it

func use__needs(id, points, cells [2]int, vel bool) (need [2][3]bool, failed bool) {
	files := []string{"a", "b", "c"}
	man := use__manager(files, id, points, cells, vel)
	if man == nil {
		return need, true
	}
	for i := range need {
		for j := range need[i] {
			need[i][j] = man.renderers[i].requiresFile(files[j])
		}
	}
	return need, false
}

func spec__anyBad() bool {
	return spec__bad("a") || spec__bad("b") || spec__bad("c")
}

//gtv:equiv use__needs
//gtv:model io.ReadSheetHeaderAt spec__readHead10
//gtv:model (*io.SheetHeader).CellBounds spec__bounds10
//gtv:model (*geom.CellBounds).Intersect spec__touches
//gtv:model render.unitBufs spec__units
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:opaque render.spec__bad render.spec__idOf render.spec__size render.spec__touch
func spec__needs(id, points, cells [2]int, vel bool) (need [2][3]bool, failed bool) {
	NumCores = 2
	if spec__anyBad() {
		return need, true
	}
	for i := range need {
		for j, f := range [3]string{"a", "b", "c"} {
			need[i][j] = spec__touch(spec__idOf(f), cells[i], id[i], [3]int{7 + i, 8, 9}, cells[i])
		}
	}
	return need, false
}

// ---- what is allocated suits every box and sheet

func use__room(id, points, cells [2]int, vel bool) (n [9]int, failed bool) {
	man := use__manager([]string{"a", "b", "c"}, id, points, cells, vel)
	if man == nil {
		return n, true
	}
	n = [9]int{len(man.xs), len(man.scaledXs), len(man.vs), man.skip, man.workers, len(man.workspaces),
		len(man.unitBufs[0]), man.workspaces[0].buf.Length(), man.workspaces[1].buf.Length()}
	if man.workspaces[0].buf.Quantity() != man.q || man.workspaces[1].buf.Quantity() != man.q {
		n[3] = -1
	}
	return n, false
}

//gtv:equiv use__room
//gtv:model io.ReadSheetHeaderAt spec__readHead10
//gtv:model (*io.SheetHeader).CellBounds spec__bounds10
//gtv:model (*geom.CellBounds).Intersect spec__touches
//gtv:model render.unitBufs spec__units
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:opaque render.spec__bad render.spec__idOf render.spec__size render.spec__touch
func spec__room(id, points, cells [2]int, vel bool) (n [9]int, failed bool) {
	NumCores = 2
	if spec__anyBad() {
		return n, true
	}
	n = [9]int{27, 27, 0, 1, 2, 2, 0, 0, 0}
	if vel {
		n[2] = 27
	}
	for i := range points {
		if points[i] > n[6] {
			n[6] = points[i]
		}
	}
	size := 0
	for _, f := range [3]string{"a", "b", "c"} {
		for i := range id {
			if spec__touch(spec__idOf(f), cells[i], id[i], [3]int{7 + i, 8, 9}, cells[i]) {
				if s := spec__size(id[i], spec__idOf(f)); s > size {
					size = s
				}
			}
		}
	}
	n[7], n[8] = size, size
	return n, false
}

// ---- rendering goes through the sheets some box needs, once each, in order

func spec__oneSheet(man *Manager, file string) error {
	man.hd.Mass = spec__after(man.hd.Mass, file)
	if spec__broken(file) {
		return spec__failed10{}
	}
	return nil
}

func spec__after(x float64, file string) float64 { return 0 }
func spec__broken(file string) bool              { return false }

func use__sheets() (x float64, wrong bool) {
	man := &Manager{files: []string{"a", "b", "c"}}
	err := man.RenderDensity()
	return man.hd.Mass, err != nil
}

//gtv:equiv use__sheets
//gtv:model (*render.Manager).RenderDensityFromFile spec__oneSheet
//gtv:opaque render.spec__after render.spec__broken
func spec__sheets() (x float64, wrong bool) {
	for _, f := range [3]string{"a", "b", "c"} {
		if !wrong {
			x = spec__after(x, f)
			wrong = spec__broken(f)
		}
	}
	return x, wrong
}

func use__kept(id, points, cells [2]int, vel bool) (kept [3]string, n int, failed bool) {
	man := use__manager([]string{"a", "b", "c"}, id, points, cells, vel)
	if man == nil {
		return kept, 0, true
	}
	n = len(man.files)
	for i := range kept {
		if i < n {
			kept[i] = man.files[i]
		}
	}
	return kept, n, false
}

//gtv:equiv use__kept
//gtv:model io.ReadSheetHeaderAt spec__readHead10
//gtv:model (*io.SheetHeader).CellBounds spec__bounds10
//gtv:model (*geom.CellBounds).Intersect spec__touches
//gtv:model render.unitBufs spec__units
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:opaque render.spec__bad render.spec__idOf render.spec__size render.spec__touch
func spec__kept(id, points, cells [2]int, vel bool) (kept [3]string, n int, failed bool) {
	NumCores = 2
	if spec__anyBad() {
		return kept, 0, true
	}
	for _, f := range [3]string{"a", "b", "c"} {
		need := false
		for i := range id {
			if spec__touch(spec__idOf(f), cells[i], id[i], [3]int{7 + i, 8, 9}, cells[i]) {
				need = true
			}
		}
		if need {
			kept[n] = f
			n++
		}
	}
	return kept, n, false
}

// ---- loading a sheet reads what the quantity needs

func spec__xsOf(file string, xs []geom.Vec) error {
	for i := range xs {
		for k := 0; k < 3; k++ {
			xs[i][k] = spec__x(file, i, k)
		}
	}
	if spec__noXs(file) {
		return spec__failed10{}
	}
	return nil
}

func spec__vsOf(file string, vs []geom.Vec) error {
	for i := range vs {
		for k := 0; k < 3; k++ {
			vs[i][k] = spec__v(file, i, k)
		}
	}
	if spec__noVs(file) {
		return spec__failed10{}
	}
	return nil
}

func spec__noXs(file string) bool           { return false }
func spec__noVs(file string) bool           { return false }
func spec__x(file string, i, k int) float32 { return 0 }
func spec__v(file string, i, k int) float32 { return 0 }

func use__load(vel bool, file string, xs, vs [2]geom.Vec) ([2]geom.Vec, [2]geom.Vec, int64, bool) {
	man := &Manager{xs: xs[:], vs: vs[:]}
	if vel {
		man.q = density.VelocityCurl
	}
	err := man.loadFile(file)
	if err != nil {
		return [2]geom.Vec{}, [2]geom.Vec{}, 0, true
	}
	return xs, vs, man.hd.Idx, false
}

//gtv:equiv use__load
//gtv:model io.ReadSheetHeaderAt spec__readHead10
//gtv:model io.ReadSheetPositionsAt spec__xsOf
//gtv:model io.ReadSheetVelocitiesAt spec__vsOf
//gtv:opaque render.spec__bad render.spec__idOf render.spec__x render.spec__v render.spec__noXs render.spec__noVs
func spec__load(vel bool, file string, xs, vs [2]geom.Vec) ([2]geom.Vec, [2]geom.Vec, int64, bool) {
	if spec__bad(file) || spec__noXs(file) || vel && spec__noVs(file) {
		return [2]geom.Vec{}, [2]geom.Vec{}, 0, true
	}
	for i := range xs {
		for k := range xs[i] {
			xs[i][k] = spec__x(file, i, k)
			if vel {
				vs[i][k] = spec__v(file, i, k)
			}
		}
	}
	return xs, vs, spec__idOf(file), false
}

// ---- a box uses as many unit points as it asked for, from its own settings

// a buffer that remembers what was done to it
type spec__buf10 struct {
	density.Buffer
	low, high int
	g         *geom.GridLocation
	cleared   bool
}

func (b *spec__buf10) Slice(low, high int)                  { b.low, b.high, b.cleared = low, high, false }
func (b *spec__buf10) Clear()                               { b.cleared = true }
func (b *spec__buf10) SetGridLocation(g *geom.GridLocation) { b.g = g }

type spec__ready struct {
	low, high, first, last, cells int
	cleared                       bool
}

func use__prepare(points int, unit []geom.Vec) (n int, ws [2]spec__ready) {
	man := &Manager{skip: 2, workers: 2, q: density.Density}
	man.hd.SegmentWidth = 8
	man.unitBufs = [][]geom.Vec{unit}
	man.workspaces = make([]workspace, 2)
	b0, b1 := &spec__buf10{}, &spec__buf10{}
	man.workspaces[0].buf = b0
	man.workspaces[1].buf = b1
	r := &renderer{box: &spec__sheetBox{pts: points, cells: 3}, over: &spec__shared{size: 3}}
	r.g = geom.NewGridLocation([3]int{1, 2, 3}, [3]int{4, 5, 6}, 10, 77)
	r.initWorkspaces(man)
	for i, b := range []*spec__buf10{b0, b1} {
		ws[i] = spec__ready{b.low, b.high, man.workspaces[i].lowX, man.workspaces[i].highX, b.g.Cells, b.cleared}
	}
	return len(man.unitBufs[0]), ws
}

//gtv:equiv use__prepare
//gtv:assume assume__prepare
//gtv:model density.MonteCarlo spec__noSampler
func spec__prepare(points int, unit []geom.Vec) (n int, ws [2]spec__ready) {
	for i := range ws {
		ws[i] = spec__ready{low: 0, high: 3, first: i, last: 64, cells: 77, cleared: true}
	}
	return points, ws
}

func assume__prepare(points int, unit []geom.Vec) bool {
	return points >= 0 && points <= len(unit)
}

func spec__noSampler(segWidth int64, points, cells int, skip int64, unit [][]geom.Vec, sub density.Interpolator) density.Interpolator {
	return nil
}

// ---- each box's buffers lie on that box's own grid

func use__located(id, points, cells [2]int, vel bool) (o, w [2][3]int, n [2]int, l [2]float64, failed bool) {
	man := use__manager([]string{"a"}, id, points, cells, vel)
	if man == nil {
		return o, w, n, l, true
	}
	for i := range o {
		g := man.renderers[i].g
		o[i], w[i], n[i], l[i] = g.Origin, g.Width, g.Cells, g.BoxWidth
	}
	return o, w, n, l, false
}

//gtv:equiv use__located
//gtv:model io.ReadSheetHeaderAt spec__readHead10
//gtv:model (*io.SheetHeader).CellBounds spec__bounds10
//gtv:model (*geom.CellBounds).Intersect spec__touches
//gtv:model render.unitBufs spec__units
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:opaque render.spec__bad render.spec__idOf render.spec__size render.spec__touch render.spec__pixel
func spec__located(id, points, cells [2]int, vel bool) (o, w [2][3]int, n [2]int, l [2]float64, failed bool) {
	NumCores = 2
	if spec__bad("a") {
		return o, w, n, l, true
	}
	for i := range o {
		o[i], w[i], n[i] = [3]int{id[i], 0, 0}, [3]int{7 + i, 8, 9}, cells[i]
		l[i] = spec__pixel(id[i]) * float64(cells[i])
	}
	return o, w, n, l, false
}
