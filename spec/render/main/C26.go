package main

import (
	"fmt"
	goio "io"
	"math"
	"os"
	"path"
	"strings"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- pixels and sample points

func use__nearest(x float64) (int, [6]int) {
	return round(x), [6]int{round(2.25), round(2.75), round(3), round(0.125), round(0.75), round(511.9375)}
}

//gtv:equiv use__nearest
func spec__nearest(x float64) (int, [6]int) {
	n := int(math.Floor(x))
	if math.Ceil(x)-x < x-math.Floor(x) {
		n = int(math.Ceil(x))
	}
	return n, [6]int{2, 3, 3, 0, 1, 512}
}

func spec__longest(box *io.BoxConfig) float64 {
	w := box.XWidth
	if box.YWidth > w {
		w = box.YWidth
	}
	if box.ZWidth > w {
		w = box.ZWidth
	}
	return w
}

func use__longest(box *io.BoxConfig) float64 { return maxWidth(box) }

//gtv:equiv use__longest
func spec__longestOf(box *io.BoxConfig) float64 { return spec__longest(box) }

func spec__whole(x float64) int { return spec__wholeOf(x) }

func spec__wholeOf(x float64) int { return 0 }

func spec__span(box *io.BoxConfig) float64 { return spec__spanOf(box.XWidth, box.YWidth, box.ZWidth) }

func spec__spanOf(x, y, z float64) float64 { return 0 }

func use__pixels(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	return totalPixels(con, box, L)
}

//gtv:equiv use__pixels
//gtv:model main.round spec__whole
//gtv:model main.maxWidth spec__span
//gtv:opaque main.spec__wholeOf main.spec__spanOf
func spec__pixels(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	if con.ImagePixels <= 0 {
		return con.TotalPixels
	}
	w := spec__span(box)
	if w > L {
		panic("larger than the simulation")
	}
	return spec__wholeOf(L / w * float64(con.ImagePixels))
}

func spec__cells(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	return spec__cellsOf(con.ImagePixels, con.TotalPixels, box.XWidth, box.YWidth, box.ZWidth, L)
}

func spec__cellsOf(a, b int, x, y, z, L float64) int { return 0 }

func use__points(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	c := *con
	return particles(&c, box, L)
}

//gtv:equiv use__points
//gtv:model main.totalPixels spec__cells
//gtv:opaque main.spec__cellsOf
func spec__points(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	n := spec__cells(con, box, L)
	depth := con.ProjectionDepth
	if con.AutoParticles {
		w := L / float64(n)
		switch box.ProjectionAxis {
		case "X":
			depth = int(math.Ceil(box.XWidth / w))
		case "Y":
			depth = int(math.Ceil(box.YWidth / w))
		case "Z":
			depth = int(math.Ceil(box.ZWidth / w))
		default:
			depth = 1
		}
	}
	if depth <= 0 {
		return con.Particles
	}
	return int(math.Ceil(5 * math.Pow(float64(n)/500, 3) * math.Pow(float64(con.SubsampleLength), 3) / float64(depth)))
}

// ---- one mode at a time

func use__mode(a, b, c, d string) (string, bool) {
	name, err := getModeName(map[string]*string{"Render": &a, "TetraHist": &b, "ConvertSnapshot": &c, "ExampleConfig": &d})
	if err != nil {
		return "", true
	}
	return name, false
}

//gtv:equiv use__mode
func spec__modeOf(a, b, c, d string) (string, bool) {
	n, name := 0, ""
	for i, s := range [4]string{a, b, c, d} {
		if s != "" {
			n++
			name = [4]string{"Render", "TetraHist", "ConvertSnapshot", "ExampleConfig"}[i]
		}
	}
	if n != 1 {
		return "", true
	}
	return name, false
}

// ---- a mode runs with its own configuration file when that is complete, and
// not at all otherwise

var spec__ran, spec__mode string
var spec__skip int
var spec__boundsN int

func spec__flagInt(p *int, name string, value int, usage string) {}

func spec__flagString(p *string, name, value, usage string) {
	*p = value
	if name == spec__mode {
		*p = "file"
	}
}

func spec__parse() {}

func spec__cpus() int { return 8 }

func spec__args() []string { return []string{"bounds1", "bounds2"}[:spec__boundsN] }

func spec__readConfig(c interface{}, file string) error {
	switch w := c.(type) {
	case *io.RenderWrapper:
		r := &w.Render
		r.Input, r.Output = spec__text(file, 1), spec__text(file, 2)
		r.ImagePixels, r.TotalPixels = spec__int(file, 1), spec__int(file, 2)
		r.Particles, r.ProjectionDepth = spec__int(file, 3), spec__int(file, 4)
		r.AutoParticles = spec__int(file, 5) == 1
		r.SubsampleLength = spec__skip
	case *io.TetraHistWrapper:
		h := &w.TetraHist
		h.Input, h.Output, h.GridFile = spec__text(file, 1), spec__text(file, 2), spec__text(file, 3)
		h.HistScale, h.Quantity = spec__text(file, 4), spec__text(file, 5)
		h.HistBins = spec__int(file, 1)
		h.HistMin, h.HistMax = spec__number(file, 1), spec__number(file, 2)
		h.SubsampleLength = spec__skip
	case *io.ConvertSnapshotWrapper:
		k := &w.ConvertSnapshot
		k.Input, k.Output, k.InputFormat = spec__text(file, 1), spec__text(file, 2), spec__text(file, 3)
		k.IteratedInput, k.IteratedOutput = spec__text(file, 4), spec__text(file, 5)
		k.Cells, k.Gadget2IDSize = spec__int(file, 1), spec__int(file, 2)
	}
	if spec__unreadable(file) {
		return spec__noDir26{}
	}
	return nil
}

type spec__noDir26 struct{}

func (spec__noDir26) Error() string { return "" }

func spec__unreadable(file string) bool       { return false }
func spec__text(file string, n int) string    { return "" }
func spec__int(file string, n int) int        { return 0 }
func spec__number(file string, n int) float64 { return 0 }

func spec__render26(con *io.RenderConfig, bounds []string) {
	spec__ran = "render " + con.Input + " " + con.Output + " " + bounds[0]
}

func spec__hist26(con *io.TetraHistConfig, bounds []string) {
	spec__ran = "hist " + con.Input + " " + con.Output + " " + bounds[0]
}

func spec__convert26(con *io.ConvertSnapshotConfig) {
	spec__ran = "convert " + con.Input + " " + con.Output
}

func use__run(mode string, skip, bounds int) string {
	spec__mode, spec__skip, spec__boundsN, spec__ran = mode, skip, bounds, ""
	main()
	ran := spec__ran
	spec__rest()
	return ran
}

func spec__rest() {
	spec__mode, spec__skip, spec__boundsN, spec__ran = "", 0, 0, ""
}

func use__runRender() string { return use__run("Render", 4, 2) }

//gtv:equiv use__runRender
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:model flag.Args spec__args
//gtv:model main.renderMain spec__render26
//gtv:opaque main.spec__unreadable main.spec__text main.spec__int
func spec__runRender() string {
	spec__rest()
	f := "file"
	in, out := spec__text(f, 1), spec__text(f, 2)
	if spec__unreadable(f) || in == "" || out == "" || spec__int(f, 1) <= 0 && spec__int(f, 2) <= 0 ||
		spec__int(f, 3) <= 0 && spec__int(f, 4) <= 0 && spec__int(f, 5) != 1 {
		panic("incomplete")
	}
	return "render " + in + " " + out + " bounds1"
}

func use__runRenderAlone() string { return use__run("Render", 4, 0) }

//gtv:equiv use__runRenderAlone
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:model flag.Args spec__args
//gtv:opaque main.spec__unreadable main.spec__text main.spec__int
func spec__runRenderAlone() string {
	spec__rest()
	panic("no bounds")
}

func use__runRenderSkip() string { return use__run("Render", 3, 1) }

//gtv:equiv use__runRenderSkip
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:opaque main.spec__unreadable main.spec__text
func spec__runRenderSkip() string {
	spec__rest()
	panic("not a power of two")
}

func use__runHist() string { return use__run("TetraHist", 2, 1) }

//gtv:equiv use__runHist
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:model flag.Args spec__args
//gtv:model main.tetraHistMain spec__hist26
//gtv:opaque main.spec__unreadable main.spec__text main.spec__int main.spec__number
func spec__runHist() string {
	spec__rest()
	f := "file"
	in, out := spec__text(f, 1), spec__text(f, 2)
	lin, log := spec__text(f, 4) == "Linear", spec__text(f, 4) == "Log"
	lo, hi := spec__number(f, 1), spec__number(f, 2)
	if spec__unreadable(f) || in == "" || out == "" || spec__text(f, 3) == "" || spec__text(f, 5) != "Density" ||
		!(lin || log && lo > 0) || spec__int(f, 1) <= 0 || lo >= hi {
		panic("incomplete")
	}
	return "hist " + in + " " + out + " bounds1"
}

func use__runHistAlone() string { return use__run("TetraHist", 2, 0) }

//gtv:equiv use__runHistAlone
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:model flag.Args spec__args
//gtv:opaque main.spec__unreadable main.spec__text main.spec__int main.spec__number
func spec__runHistAlone() string {
	spec__rest()
	panic("no bounds")
}

func use__runHistSkip() string { return use__run("TetraHist", 6, 1) }

//gtv:equiv use__runHistSkip
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:opaque main.spec__unreadable main.spec__text
func spec__runHistSkip() string {
	spec__rest()
	panic("not a power of two")
}

func use__runConvert() string { return use__run("ConvertSnapshot", 0, 0) }

//gtv:equiv use__runConvert
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__readConfig
//gtv:model main.lGadget2Main spec__convert26
//gtv:opaque main.spec__unreadable main.spec__text main.spec__int
func spec__runConvert() string {
	spec__rest()
	f := "file"
	in, out := spec__text(f, 1), spec__text(f, 2)
	many, to := spec__text(f, 4), spec__text(f, 5)
	if spec__unreadable(f) || in == "" && many == "" || out == "" && to == "" || (many == "") != (to == "") ||
		spec__int(f, 1) <= 0 || spec__int(f, 2) != 32 && spec__int(f, 2) != 64 ||
		spec__text(f, 3) != "LGadget-2" && spec__text(f, 3) != "Arepo-type-2" {
		panic("incomplete")
	}
	return "convert " + in + " " + out
}

func use__runNothing() string { return use__run("none", 1, 1) }

//gtv:equiv use__runNothing
//gtv:model flag.IntVar spec__flagInt
//gtv:model flag.StringVar spec__flagString
//gtv:model flag.Parse spec__parse
//gtv:model runtime.NumCPU spec__cpus
func spec__runNothing() string {
	spec__rest()
	panic("no mode")
}

// ---- every box of every bounds file is rendered with the settings asked for
// and written to its own file with the header that describes it

type spec__box26 struct {
	render.Box
	width, w   float64
	pts, cells int
	q          density.Quantity
	x          float64
}

func (b *spec__box26) CellSpan() [3]int            { return [3]int{b.pts, 1, 2} }
func (b *spec__box26) CellOrigin() [3]int          { return [3]int{3, 4, b.cells} }
func (b *spec__box26) CellWidth() float64          { return b.w }
func (b *spec__box26) Cells() int                  { return b.cells }
func (b *spec__box26) Points() int                 { return b.pts }
func (b *spec__box26) ProjectionAxis() (int, bool) { return spec__axis(b.x), spec__flat(b.x) }
func (b *spec__box26) Vals() density.Buffer        { return spec__vals26{x: b.x, width: b.width, q: b.q} }

type spec__vals26 struct {
	density.Buffer
	x, width float64
	q        density.Quantity
}

func spec__axis(x float64) int                  { return 0 }
func spec__flat(x float64) bool                 { return false }
func spec__pixel26(x float64) float64           { return 0 }
func spec__n26(x float64, n int, L float64) int { return 0 }

func spec__newBox26(L float64, pts, cells int, q density.Quantity, con *io.BoxConfig) render.Box {
	return &spec__box26{width: L, w: spec__pixel26(con.X), pts: pts, cells: cells, q: q, x: con.X}
}

func spec__setup26(con *io.RenderConfig) ([]string, *io.SheetHeader, *FileGroup) {
	hd := &io.SheetHeader{TotalWidth: spec__number(con.Input, 1)}
	hd.Cosmo.H100, hd.Cosmo.OmegaM = spec__number(con.Input, 2), spec__number(con.Input, 3)
	hd.Cosmo.OmegaL, hd.Cosmo.Z = spec__number(con.Input, 4), spec__number(con.Input, 5)
	return []string{con.Input + "/s"}, hd, &FileGroup{}
}

func spec__bounds26(file string, L float64) ([]io.BoxConfig, error) {
	boxes := []io.BoxConfig{{Name: spec__text(file, 1), X: spec__number(file, 6) + L}, {Name: spec__text(file, 2), X: spec__number(file, 7) + L}}
	if spec__unreadable(file) {
		return boxes, spec__noDir26{}
	}
	return boxes, nil
}

func spec__pixels26(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	return spec__n26(box.X, 1, L)
}
func spec__points26(con *io.RenderConfig, box *io.BoxConfig, L float64) int {
	return spec__n26(box.X, 2, L)
}

var spec__log float64

func spec__did26(log float64, what string, n int) float64 { return 0 }

func spec__manager26(files []string, boxes []render.Box, logging bool, q density.Quantity) (*render.Manager, error) {
	spec__log = spec__did26(spec__log, files[0], int(q)+100*len(files)+1000*len(boxes))
	if spec__unreadable(files[0]) {
		return nil, spec__noDir26{}
	}
	return &render.Manager{}, nil
}

func spec__sub26(man *render.Manager, n int) { spec__log = spec__did26(spec__log, "skip", n) }

func spec__all26(man *render.Manager) error {
	spec__log = spec__did26(spec__log, "render", 0)
	if spec__unreadable("render") {
		return spec__noDir26{}
	}
	return nil
}

type spec__file26 struct {
	name                                    string
	z, om, ol, h, l, x, width, pixel        float64
	particles, cells, skip, axis, q, ox, sx int64
}

var spec__out [5]spec__file26
var spec__n int

func spec__create26(name string) (*os.File, error) {
	spec__out[spec__n].name = name
	if spec__unreadable(name) {
		return nil, spec__noDir26{}
	}
	return new(os.File), nil
}

func spec__close26(f *os.File) error { return nil }

func spec__cosmo26(H0, omegaM, omegaL, z, boxWidth float64) io.CosmoInfo {
	return io.CosmoInfo{Hubble: H0, OmegaM: omegaM, OmegaL: omegaL, Redshift: z, BoxWidth: boxWidth}
}

func spec__info26(particles, cells, skip int, axis string) io.RenderInfo {
	n := map[string]int64{"": -1, "X": 0, "Y": 1, "Z": 2}[axis]
	return io.RenderInfo{Particles: int64(particles), TotalPixels: int64(cells), SubsampleLength: int64(skip), ProjectionAxis: n}
}

func spec__loc26(origin, span [3]int, w float64) io.LocationInfo {
	l := io.LocationInfo{PixelWidth: w}
	l.PixelOrigin[2], l.PixelSpan[0] = int64(origin[2]), int64(span[0])
	return l
}

func spec__save26(buf density.Buffer, c io.CosmoInfo, r io.RenderInfo, l io.LocationInfo, wr goio.Writer) {
	f := &spec__out[spec__n]
	f.z, f.om, f.ol, f.h, f.l = c.Redshift, c.OmegaM, c.OmegaL, c.Hubble, c.BoxWidth
	f.particles, f.cells, f.skip, f.axis = r.Particles, r.TotalPixels, r.SubsampleLength, r.ProjectionAxis
	f.pixel, f.ox, f.sx = l.PixelWidth, l.PixelOrigin[2], l.PixelSpan[0]
	v := buf.(spec__vals26)
	f.x, f.width, f.q = v.x, v.width, int64(v.q)
	spec__n++
}

func spec__clean26() {
	spec__n, spec__log = 0, 0
	spec__out = [5]spec__file26{}
}

func use__renders(con *io.RenderConfig) ([5]spec__file26, float64) {
	spec__clean26()
	c := *con
	renderMain(&c, []string{"b1", "b2"})
	out, log := spec__out, spec__log
	spec__clean26()
	return out, log
}

//gtv:equiv use__renders
//gtv:assume assume__renders
//gtv:model main.densitySetupIO spec__setup26
//gtv:model io.ReadBoundsConfig spec__bounds26
//gtv:model main.totalPixels spec__pixels26
//gtv:model main.particles spec__points26
//gtv:model render.NewBox spec__newBox26
//gtv:model render.NewManager spec__manager26
//gtv:model (*render.Manager).Subsample spec__sub26
//gtv:model (*render.Manager).RenderDensity spec__all26
//gtv:model os.Create spec__create26
//gtv:model (*os.File).Close spec__close26
//gtv:model io.NewCosmoInfo spec__cosmo26
//gtv:model io.NewRenderInfo spec__info26
//gtv:model io.NewLocationInfo spec__loc26
//gtv:model io.WriteBuffer spec__save26
//gtv:opaque main.spec__unreadable main.spec__text main.spec__number main.spec__axis main.spec__flat main.spec__pixel26 main.spec__n26 main.spec__did26
func spec__renders(con *io.RenderConfig) (out [5]spec__file26, log float64) {
	spec__clean26()
	q, ok := density.QuantityFromString(con.Quantity)
	in := con.Input
	if !ok || spec__unreadable("b1") || spec__unreadable("b2") || spec__unreadable(in+"/s") || spec__unreadable("render") {
		panic("error")
	}
	log = spec__did26(log, in+"/s", int(q)+100+4000)
	log = spec__did26(log, "skip", con.SubsampleLength)
	log = spec__did26(log, "render", 0)
	L := spec__number(in, 1)
	for i := 0; i < 4; i++ {
		b := [2]string{"b1", "b2"}[i/2]
		name := path.Join(con.Output, con.PrependName+spec__text(b, 1+i%2)+con.AppendName+".gtet")
		if spec__unreadable(name) {
			panic("cannot be created")
		}
		x := spec__number(b, 6+i%2) + L
		f := spec__file26{name: name, x: x, width: L, q: int64(q)}
		f.h, f.om, f.ol, f.z, f.l = spec__number(in, 2)*100, spec__number(in, 3), spec__number(in, 4), spec__number(in, 5), L
		f.particles, f.cells, f.skip, f.axis = int64(spec__n26(x, 2, L)), int64(spec__n26(x, 1, L)), int64(con.SubsampleLength), -1
		if spec__flat(x) {
			f.axis = int64(spec__axis(x))
		}
		f.pixel, f.ox, f.sx = spec__pixel26(x), f.cells, f.particles
		out[i] = f
	}
	return out, log
}

func assume__renders(con *io.RenderConfig) bool {
	ok := true
	for i := 0; i < 4; i++ {
		b := [2]string{"b1", "b2"}[i/2]
		x := spec__number(b, 6+i%2) + spec__number(con.Input, 1)
		ok = ok && spec__axis(x) >= 0 && spec__axis(x) <= 2
	}
	return ok
}

// ---- the same for histograms

var spec__boxes []render.HistBox

func spec__histSetup26(con *io.TetraHistConfig) ([]string, *io.SheetHeader, *FileGroup) {
	return []string{con.Input + "/s"}, &io.SheetHeader{TotalWidth: spec__number(con.Input, 1)}, &FileGroup{}
}

func spec__histManager26(files []string, boxes []render.HistBox, points int, quantity, grid string) (*render.HistManager, error) {
	spec__boxes = boxes
	spec__log = spec__did26(spec__log, files[0]+" "+quantity+" "+grid, len(files)+100*points)
	if spec__unreadable(files[0]) {
		return nil, spec__noDir26{}
	}
	return &render.HistManager{}, nil
}

func spec__histSub26(man *render.HistManager, n int) { spec__log = spec__did26(spec__log, "skip", n) }

func spec__histAll26(man *render.HistManager, info *render.HistInfo) error {
	spec__log = spec__did26(spec__log, "hist "+info.Scale, info.Bins)
	for i := range spec__boxes {
		b := &spec__boxes[i]
		b.Centers, b.Counts = make([]float64, 2), make([]int, 2)
		for j := range b.Counts {
			b.Centers[j] = spec__center(b.Origin[0], b.Span[0], info.Min, info.Max, j)
			b.Counts[j] = spec__count(b.Origin[0], b.Span[0], j)
		}
	}
	if spec__unreadable("hist") {
		return spec__noDir26{}
	}
	return nil
}

func spec__center(x, w, min, max float64, j int) float64 { return 0 }
func spec__count(x, w float64, j int) int                { return 0 }

var spec__written26 [4]string

func spec__open26(name string) (*os.File, error) {
	spec__out[spec__n].name = name
	spec__n++
	if spec__unreadable(name) {
		return nil, spec__noDir26{}
	}
	return new(os.File), nil
}

func spec__print26(w goio.Writer, format string, args ...interface{}) (int, error) {
	spec__written26[spec__n-1] += fmt.Sprintf(format, args...)
	if spec__full() {
		return 0, spec__noDir26{}
	}
	return 1, nil
}

func spec__full() bool { return spec__int("disk", 0) == 1 }

func spec__forget26() {
	spec__clean26()
	spec__boxes = nil
	spec__written26 = [4]string{}
}

func use__hists(con *io.TetraHistConfig) (names, texts [4]string, log float64) {
	spec__forget26()
	c := *con
	tetraHistMain(&c, []string{"b1", "b2"})
	for i := range names {
		names[i], texts[i] = spec__out[i].name, spec__written26[i]
	}
	log = spec__log
	spec__forget26()
	return names, texts, log
}

//gtv:equiv use__hists
//gtv:model main.tetraHistSetupIO spec__histSetup26
//gtv:model io.ReadBoundsConfig spec__bounds26
//gtv:model render.NewHistManager spec__histManager26
//gtv:model (*render.HistManager).Subsample spec__histSub26
//gtv:model (*render.HistManager).Hist spec__histAll26
//gtv:model os.Create spec__open26
//gtv:model (*os.File).Close spec__close26
//gtv:model fmt.Fprintf spec__print26
//gtv:opaque main.spec__unreadable main.spec__text main.spec__number main.spec__did26 main.spec__center main.spec__count main.spec__int
func spec__hists(con *io.TetraHistConfig) (names, texts [4]string, log float64) {
	spec__forget26()
	in := con.Input
	if spec__unreadable("b1") || spec__unreadable("b2") || spec__unreadable(in+"/s") || spec__unreadable("hist") || spec__full() {
		panic("error")
	}
	log = spec__did26(log, in+"/s "+con.Quantity+" "+con.GridFile, 1+100*con.Particles)
	log = spec__did26(log, "skip", con.SubsampleLength)
	log = spec__did26(log, "hist "+con.HistScale, con.HistBins)
	for i := 0; i < 4; i++ {
		b := [2]string{"b1", "b2"}[i/2]
		names[i] = path.Join(con.Output, con.PrependName+spec__text(b, 1+i%2)+con.AppendName+".txt")
		if spec__unreadable(names[i]) {
			panic("cannot be created")
		}
		x, w := spec__number(b, 6+i%2)+spec__number(in, 1), 0.0
		t := fmt.Sprintf("# %s histogram ranging from %g to %g # with %d bins (%s scaled).\n", con.Quantity, con.HistMin, con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
		t += "# Column 0 - bin centers.\n# Column 1 - bin counts.\n"
		for j := 0; j < 2; j++ {
			t += fmt.Sprintf("%8.4g %d\n", spec__center(x, w, con.HistMin, con.HistMax, j), spec__count(x, w, j))
		}
		texts[i] = t
	}
	return names, texts, log
}

// ---- the sheets are all files of the input directory, the header that of the
// first

func spec__ls26(dir string) ([]os.FileInfo, error) {
	l := []os.FileInfo{spec__entry26{name: "x"}, spec__entry26{name: "y"}}[:spec__boundsN]
	if spec__unreadable(dir) {
		return l, spec__noDir26{}
	}
	return l, nil
}

type spec__entry26 struct {
	os.FileInfo
	name string
}

func (e spec__entry26) Name() string { return e.name }

func spec__head26(file string, hd *io.SheetHeader) error {
	hd.TotalWidth = spec__number(file, 1)
	if spec__unreadable(file) {
		return spec__noDir26{}
	}
	return nil
}

func use__setup(in string, n int) (a, b string, k int, x float64, c, d string, m int, y float64) {
	spec__boundsN = n
	rc, hc := &io.RenderConfig{}, &io.TetraHistConfig{}
	rc.Input, hc.Input = in, in
	files, hd, _ := densitySetupIO(rc)
	files2, hd2, _ := tetraHistSetupIO(hc)
	spec__boundsN = 0
	return files[0], files[1], len(files), hd.TotalWidth, files2[0], files2[1], len(files2), hd2.TotalWidth
}

func use__setupTwo(in string) (a, b string, k int, x float64, c, d string, m int, y float64) {
	return use__setup(in, 2)
}

//gtv:equiv use__setupTwo
//gtv:model io/ioutil.ReadDir spec__ls26
//gtv:model io.ReadSheetHeaderAt spec__head26
//gtv:opaque main.spec__unreadable main.spec__number
func spec__setupTwo(in string) (a, b string, k int, x float64, c, d string, m int, y float64) {
	spec__boundsN = 0
	f, g := path.Join(in, "x"), path.Join(in, "y")
	if spec__unreadable(in) || spec__unreadable(f) {
		panic("cannot be read")
	}
	w := spec__number(f, 1)
	return f, g, 2, w, f, g, 2, w
}

func use__setupNone(in string) (a, b string, k int, x float64, c, d string, m int, y float64) {
	return use__setup(in, 0)
}

//gtv:equiv use__setupNone
//gtv:model io/ioutil.ReadDir spec__ls26
//gtv:opaque main.spec__unreadable
func spec__setupNone(in string) (a, b string, k int, x float64, c, d string, m int, y float64) {
	spec__boundsN = 0
	panic("no sheets")
}

var _ = []interface{}{os.Args, render.NumCores, density.Density, geom.Vec{}}
