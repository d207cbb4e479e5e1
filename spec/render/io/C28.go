package io

import (
	"strings"

	"github.com/phil-mansfield/gotetra/render/density"
)

// ---- what each option must be

type spec__valid struct {
	input, output, log, prof                            bool
	cells, ids, format, iterIn, iterOut, start, end     bool
	quantity, pixels, particles, skip, imgPixels, depth bool
}

func use__convertOptions(con *ConvertSnapshotConfig) spec__valid {
	return spec__valid{
		input: con.ValidInput(), output: con.ValidOutput(), log: con.ValidLogFile(), prof: con.ValidProfileFile(),
		cells: con.ValidCells(), ids: con.ValidGadget2IDSize(), format: con.ValidInputFormat(),
		iterIn: con.ValidIteratedInput(), iterOut: con.ValidIteratedOutput(),
		start: con.ValidIterationStart(), end: con.ValidIterationEnd(),
	}
}

//gtv:equiv use__convertOptions
func spec__convertOptions(con *ConvertSnapshotConfig) spec__valid {
	return spec__valid{
		input: con.Input != "", output: con.Output != "", log: con.LogFile != "", prof: con.ProfileFile != "",
		cells: con.Cells >= 1, ids: con.Gadget2IDSize == 32 || con.Gadget2IDSize == 64, format: con.InputFormat != "",
		iterIn: con.IteratedInput != "", iterOut: con.IteratedOutput != "",
		start: con.IterationStart >= 0, end: con.IterationEnd >= 0,
	}
}

func use__renderOptions(con *RenderConfig) spec__valid {
	return spec__valid{
		input: con.ValidInput(), output: con.ValidOutput(), log: con.ValidLogFile(), prof: con.ValidProfileFile(),
		pixels: con.ValidTotalPixels(), particles: con.ValidParticles(),
		imgPixels: con.ValidImagePixels(), depth: con.ValidProjectionDepth(),
	}
}

//gtv:equiv use__renderOptions
func spec__renderOptions(con *RenderConfig) spec__valid {
	return spec__valid{
		input: con.Input != "", output: con.Output != "", log: con.LogFile != "", prof: con.ProfileFile != "",
		pixels: con.TotalPixels >= 1, particles: con.Particles >= 1,
		imgPixels: con.ImagePixels >= 1, depth: con.ProjectionDepth >= 1,
	}
}

func use__quantityOption(con *RenderConfig) bool { return con.ValidQuantity() }

//gtv:equiv use__quantityOption
func spec__quantityOption(con *RenderConfig) bool {
	q := strings.ToLower(con.Quantity)
	for _, name := range [5]string{"density", "densitygradient", "velocity", "velocitydivergence", "velocitycurl"} {
		if q == name {
			return true
		}
	}
	return false
}

func use__histOptions(con *TetraHistConfig) [10]bool {
	return [10]bool{con.ValidInput(), con.ValidOutput(), con.ValidGridFile(), con.ValidQuantity(), con.ValidHistBins(),
		con.ValidHistScale(), con.ValidHistMin() && con.ValidHistMax(), con.ValidLogFile(), con.ValidProfileFile()}
}

//gtv:equiv use__histOptions
func spec__histOptions(con *TetraHistConfig) [10]bool {
	linear, log := con.HistScale == "Linear", con.HistScale == "Log"
	return [10]bool{con.Input != "", con.Output != "", con.GridFile != "", con.Quantity == "Density", con.HistBins >= 1,
		linear || log, con.HistMin < con.HistMax && (linear || log && con.HistMin > 0), con.LogFile != "", con.ProfileFile != ""}
}

// powers of two, and nothing else, are steps

func use__steps() (render, hist [60]bool) {
	for i := range render {
		rc, hc := &RenderConfig{SubsampleLength: i - 4}, &TetraHistConfig{SubsampleLength: i - 4}
		render[i], hist[i] = rc.ValidSubsampleLength(), hc.ValidSubsampleLength()
	}
	return render, hist
}

//gtv:equiv use__steps
func spec__steps() (render, hist [60]bool) {
	for _, n := range [6]int{1, 2, 4, 8, 16, 32} {
		render[n+4], hist[n+4] = true, true
	}
	return render, hist
}

func use__largeSteps() (right, wrong [5]bool) {
	for i, n := range [5]int{64, 128, 1024, 1 << 20, 1 << 40} {
		right[i] = (&RenderConfig{SubsampleLength: n}).ValidSubsampleLength()
		wrong[i] = (&RenderConfig{SubsampleLength: 3 * n / 2}).ValidSubsampleLength()
	}
	return right, wrong
}

//gtv:equiv use__largeSteps
func spec__largeSteps() (right, wrong [5]bool) {
	return [5]bool{true, true, true, true, true}, wrong
}

// ---- what options are when they are left out

func use__defaults() (ConvertSnapshotConfig, RenderConfig, TetraHistConfig) {
	return DefaultConvertSnapshotWrapper().ConvertSnapshot, DefaultRenderWrapper().Render, DefaultTetraHistWrapper().TetraHist
}

//gtv:equiv use__defaults
func spec__defaults() (c ConvertSnapshotConfig, r RenderConfig, h TetraHistConfig) {
	c.IterationEnd, c.Gadget2IDSize = -1, 64
	c.XUnits, c.VUnits, c.MUnits = 1, 1, 1
	r.SubsampleLength = 1
	h.SubsampleLength = 1
	return c, r, h
}

// ---- boxes and balls are inside of the simulation and of a size

func use__boxChecked(box BoxConfig, name string, L float64) (BoxConfig, bool) {
	if box.CheckInit(name, L) != nil {
		return BoxConfig{}, true
	}
	return box, false
}

//gtv:equiv use__boxChecked
func spec__boxChecked(box BoxConfig, name string, L float64) (BoxConfig, bool) {
	axis := strings.Trim(strings.ToUpper(box.ProjectionAxis), " ")
	if !(box.XWidth > 0 && box.YWidth > 0 && box.ZWidth > 0) ||
		!(0 <= box.X && box.X < L && 0 <= box.Y && box.Y < L && 0 <= box.Z && box.Z < L) ||
		!(axis == "" || axis == "X" || axis == "Y" || axis == "Z") {
		return BoxConfig{}, true
	}
	box.ProjectionAxis, box.Name = axis, name
	return box, false
}

func use__ballChecked(ball BallConfig, name string, L float64) (BallConfig, bool) {
	if ball.CheckInit(name, L) != nil {
		return BallConfig{}, true
	}
	return ball, false
}

//gtv:equiv use__ballChecked
func spec__ballChecked(ball BallConfig, name string, L float64) (BallConfig, bool) {
	axis := strings.Trim(strings.ToUpper(ball.ProjectionAxis), " ")
	if !(ball.Radius > 0) || ball.RadiusMultiplier < 0 ||
		!(0 <= ball.X && ball.X < L && 0 <= ball.Y && ball.Y < L && 0 <= ball.Z && ball.Z < L) ||
		!(axis == "" || axis == "X" || axis == "Y" || axis == "Z") {
		return BallConfig{}, true
	}
	if ball.RadiusMultiplier == 0 {
		ball.RadiusMultiplier = 1
	}
	ball.ProjectionAxis, ball.Name = axis, name
	return ball, false
}

// the box around a ball is centred on it and begins inside of the simulation

func use__around(ball BallConfig, L float64) BoxConfig { return *ball.Box(L) }

//gtv:equiv use__around
func spec__around(ball BallConfig, L float64) BoxConfig {
	r := ball.Radius * ball.RadiusMultiplier
	low := func(x float64) float64 {
		if x < r {
			return x - r + L
		}
		return x - r
	}
	return BoxConfig{
		X: low(ball.X), Y: low(ball.Y), Z: low(ball.Z), XWidth: 2 * r, YWidth: 2 * r, ZWidth: 2 * r,
		ProjectionAxis: ball.ProjectionAxis, Name: ball.Name,
	}
}

func use__flat(box *BoxConfig) bool { return box.IsProjection() }

//gtv:equiv use__flat
func spec__flat(box *BoxConfig) bool { return box.ProjectionAxis != "" }

// ---- a bounds file gives every ball and box in it, checked, or an error

func spec__boundsOf(c interface{}, file string) error {
	bc := c.(*BoundsConfig)
	bc.Ball = map[string]*BallConfig{"one": spec__ballIn(file, 1), "two": spec__ballIn(file, 2)}
	bc.Box = map[string]*BoxConfig{"three": spec__boxIn(file, 3), "four": spec__boxIn(file, 4)}
	if spec__notThere(file) {
		return spec__bad28{}
	}
	return nil
}

type spec__bad28 struct{}

func (spec__bad28) Error() string { return "" }

func spec__notThere(file string) bool         { return false }
func spec__number(file string, n int) float64 { return 0 }

func spec__ballIn(file string, n int) *BallConfig { return &BallConfig{X: spec__number(file, n)} }
func spec__boxIn(file string, n int) *BoxConfig   { return &BoxConfig{X: spec__number(file, n)} }

func spec__ballRight(ball *BallConfig, name string, L float64) error {
	if spec__wrong(ball.X, name, L) {
		return spec__bad28{}
	}
	ball.Name = name
	return nil
}

func spec__boxRight(box *BoxConfig, name string, L float64) error {
	if spec__wrong(box.X, name, L) {
		return spec__bad28{}
	}
	box.Name = name
	return nil
}

func spec__wrong(x float64, name string, L float64) bool { return false }

func spec__ballBox(ball *BallConfig, L float64) *BoxConfig {
	return &BoxConfig{X: ball.X, Y: L, Name: ball.Name}
}

func use__bounds(file string, L float64) (xs, ys [4]float64, names [4]string, n int, failed bool) {
	boxes, err := ReadBoundsConfig(file, L)
	if err != nil {
		return xs, ys, names, 0, true
	}
	n = len(boxes)
	for i := range xs {
		xs[i], ys[i], names[i] = boxes[i].X, boxes[i].Y, boxes[i].Name
	}
	return xs, ys, names, n, false
}

//gtv:equiv use__bounds
//gtv:model gopkg.in/gcfg.v1.ReadFileInto spec__boundsOf
//gtv:model (*io.BallConfig).CheckInit spec__ballRight
//gtv:model (*io.BoxConfig).CheckInit spec__boxRight
//gtv:model (*io.BallConfig).Box spec__ballBox
//gtv:opaque io.spec__notThere io.spec__number io.spec__wrong
func spec__bounds(file string, L float64) (xs, ys [4]float64, names [4]string, n int, failed bool) {
	if spec__notThere(file) {
		return xs, ys, names, 0, true
	}
	names = [4]string{"one", "two", "three", "four"}
	for i, name := range names {
		xs[i] = spec__number(file, i+1)
		if spec__wrong(xs[i], name, L) {
			return [4]float64{}, ys, [4]string{}, 0, true
		}
	}
	return xs, [4]float64{L, L}, names, 4, false
}

var _ = density.Density
