package render

import (
	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- stand-ins: files of any content, generators that change when used

func spec__head(file string, hd *io.SheetHeader) error {
	hd.SegmentWidth, hd.GridWidth, hd.GridCount = 2, 3, 27
	hd.CountWidth = spec__count(file)
	hd.TotalWidth = spec__real(file)
	for k := 0; k < 3; k++ {
		hd.Origin[k], hd.Width[k] = float32(spec__real(file)), float32(spec__real(file))
	}
	return nil
}

func spec__vecs(file string, xs []geom.Vec) error {
	for i := range xs {
		xs[i] = geom.Vec{float32(spec__real(file)), float32(spec__real(file)), float32(spec__real(file))}
	}
	return nil
}

func spec__count(file string) int64  { return 0 }
func spec__real(file string) float64 { return 0 }

func spec__newGen(t rand.GeneratorType) *rand.Generator { return new(rand.Generator) }

func spec__int(gen *rand.Generator, low, high int) int {
	*gen = *gen
	return spec__below(high)
}

func spec__uniform(gen *rand.Generator, low, high float64) float64 {
	*gen = *gen
	return spec__real("")
}

func spec__int63n(n int64) int64 { return int64(spec__below(int(n))) }

func spec__below(n int) int { return 0 }

func spec__procs(n int) int { return n }

func spec__gc() {}

// ---- rendering: two boxes, two sheets, three workers

func spec__render(q density.Quantity, axis string, x, w [3]float64, width float64, cells int, skip int) {
	NumCores = 3
	boxes := make([]Box, 2)
	for i := range boxes {
		c := &io.BoxConfig{X: x[0], Y: x[1], Z: x[2], XWidth: w[0], YWidth: w[1], ZWidth: w[2], ProjectionAxis: axis}
		boxes[i] = NewBox(width, 2, cells, q, c)
	}
	man, err := NewManager([]string{"a"}, boxes, false, q)
	if err != nil {
		return
	}
	man.Subsample(skip)
	man.RenderDensity()
}

//gtv:race
//gtv:model io.ReadSheetHeaderAt spec__head
//gtv:model io.ReadSheetPositionsAt spec__vecs
//gtv:model io.ReadSheetVelocitiesAt spec__vecs
//gtv:model rand.NewTimeSeed spec__newGen
//gtv:model (*rand.Generator).UniformInt spec__int
//gtv:model (*rand.Generator).Uniform spec__uniform
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:model runtime.GC spec__gc
//gtv:opaque render.spec__count render.spec__real render.spec__below
func race__density3D(x, w [3]float64, width float64, cells int) {
	spec__render(density.Density, "", x, w, width, cells, 1)
}

//gtv:race
//gtv:model io.ReadSheetHeaderAt spec__head
//gtv:model io.ReadSheetPositionsAt spec__vecs
//gtv:model io.ReadSheetVelocitiesAt spec__vecs
//gtv:model rand.NewTimeSeed spec__newGen
//gtv:model (*rand.Generator).UniformInt spec__int
//gtv:model (*rand.Generator).Uniform spec__uniform
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:model runtime.GC spec__gc
//gtv:opaque render.spec__count render.spec__real render.spec__below
func race__density2D(x, w [3]float64, width float64, cells int) {
	spec__render(density.Density, "Y", x, w, width, cells, 2)
}

//gtv:race
//gtv:model io.ReadSheetHeaderAt spec__head
//gtv:model io.ReadSheetPositionsAt spec__vecs
//gtv:model io.ReadSheetVelocitiesAt spec__vecs
//gtv:model rand.NewTimeSeed spec__newGen
//gtv:model (*rand.Generator).UniformInt spec__int
//gtv:model (*rand.Generator).Uniform spec__uniform
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:model runtime.GC spec__gc
//gtv:opaque render.spec__count render.spec__real render.spec__below
func race__velocity(x, w [3]float64, width float64, cells int) {
	spec__render(density.Velocity, "", x, w, width, cells, 1)
}

// ---- histograms: two boxes, two sheets, three workers

func spec__gridHead(file string) (*io.GridHeader, error) {
	hd := &io.GridHeader{}
	hd.Cosmo.BoxWidth = spec__real(file)
	for k := 0; k < 3; k++ {
		hd.Loc.Origin[k], hd.Loc.Span[k] = spec__real(file), spec__real(file)
		hd.Loc.PixelSpan[k] = spec__count(file)
	}
	hd.Loc.PixelWidth = spec__real(file)
	return hd, nil
}

func spec__gridVals(file string) ([]float64, error) {
	vals := make([]float64, int(spec__count(file)))
	for i := range vals {
		vals[i] = spec__real(file)
	}
	return vals, nil
}

//gtv:race
//gtv:model io.ReadSheetHeaderAt spec__head
//gtv:model io.ReadSheetPositionsAt spec__vecs
//gtv:model io.ReadGridHeader spec__gridHead
//gtv:model io.ReadGrid spec__gridVals
//gtv:model rand.NewTimeSeed spec__newGen
//gtv:model (*rand.Generator).Uniform spec__uniform
//gtv:model math/rand.Int63n spec__int63n
//gtv:model runtime.GOMAXPROCS spec__procs
//gtv:opaque render.spec__count render.spec__real render.spec__below
func race__histogram(x, w [3]float64, min, max float64, bins int, scale string) {
	NumCores = 3
	boxes := []HistBox{{Origin: x, Span: w}, {Origin: w, Span: x}}
	man, err := NewHistManager([]string{"a", "b"}, boxes, 2, "Density", "grid")
	if err != nil {
		return
	}
	man.Hist(&HistInfo{Min: min, Max: max, Bins: bins, Scale: scale})
}

// ---- what must be reported

func spec__fill(buf []float64, id int, out chan<- int) {
	buf[id%2] = float64(id)
	out <- id
}

// control: three workers and two places
//
//gtv:race
func race__sharedPlace() {
	buf, out := make([]float64, 2), make(chan int, 3)
	for i := 0; i < 3; i++ {
		go spec__fill(buf, i, out)
	}
	for i := 0; i < 3; i++ {
		<-out
	}
}

// control: the result of a worker is used before that worker is known to be done
//
//gtv:race
func race__wrongOrder() {
	buf, out := make([]float64, 3), make(chan int, 3)
	sum := 0.0
	for i := 0; i < 2; i++ {
		go spec__fill(buf, i, out)
	}
	for i := 0; i < 2; i++ {
		<-out
		sum += buf[i]
	}
}

// control: a worker nobody waits for
//
//gtv:race
func race__leftRunning() {
	buf, out := make([]float64, 2), make(chan int, 2)
	for i := 0; i < 2; i++ {
		go spec__fill(buf, i, out)
	}
	<-out
}
