package geom

import "github.com/phil-mansfield/gotetra/math/rand"

// Rocchini-Cignoni folding of a point of the unit cube into the unit
// tetrahedron: the result has s, t, u >= 0 and s+t+u <= 1 and the fold is
// volume preserving.
func spec__fold(x, y, z float32) (s, t, u float32) {
	s, t, u = x, y, z
	if s+t > 1 {
		s, t = 1-s, 1-t
	}
	if t+u > 1 {
		return s, 1 - u, 1 - s - t
	}
	if s+t+u > 1 {
		return 1 - t - u, t, s + t + u - 1
	}
	return s, t, u
}

// a tetrahedron with any past, moved to new corners and possibly queried since
func use__used(old *Tetra, warm bool, a, b, c, d *Vec) *Tetra {
	t := *old
	t.Init(a, b, c, d)
	if warm {
		t.Barycenter()
		t.Volume()
	}
	return &t
}

func spec__mix(a, b, c, d *Vec, j int, s, t, u float32) float32 {
	return a[j]*s + b[j]*t + c[j]*u + d[j]*(1-s-t-u)
}

func use__distribute(old *Tetra, warm bool, a, b, c, d *Vec, xs, ys, zs []float64, out []Vec) {
	use__used(old, warm, a, b, c, d).Distribute(xs, ys, zs, out)
}

//gtv:equiv use__distribute
func spec__distribute(old *Tetra, warm bool, a, b, c, d *Vec, xs, ys, zs []float64, out []Vec) {
	for i := range out {
		s, t, u := spec__fold(float32(xs[i]), float32(ys[i]), float32(zs[i]))
		for j := 0; j < 3; j++ {
			out[i][j] = spec__mix(a, b, c, d, j, s, t, u)
		}
	}
}

//gtv:equiv DistributeUnit
func spec__unit(buf []Vec) {
	for i := range buf {
		s, t, u := spec__fold(buf[i][0], buf[i][1], buf[i][2])
		buf[i] = Vec{s, t, u}
	}
}

func use__tetra(old *Tetra, warm bool, a, b, c, d *Vec, pts, out []Vec) {
	use__used(old, warm, a, b, c, d).DistributeTetra(pts, out)
}

//gtv:equiv use__tetra
func spec__tetra(old *Tetra, warm bool, a, b, c, d *Vec, pts, out []Vec) {
	for i := range pts {
		for j := 0; j < 3; j++ {
			out[i][j] = spec__mix(a, b, c, d, j, pts[i][0], pts[i][1], pts[i][2])
		}
	}
}

func use__tetra64(old *Tetra, warm bool, a, b, c, d *Vec, pts []Vec, out [][3]float64) {
	use__used(old, warm, a, b, c, d).DistributeTetra64(pts, out)
}

//gtv:equiv use__tetra64
func spec__tetra64(old *Tetra, warm bool, a, b, c, d *Vec, pts []Vec, out [][3]float64) {
	for i := range pts {
		for j := 0; j < 3; j++ {
			out[i][j] = float64(spec__mix(a, b, c, d, j, pts[i][0], pts[i][1], pts[i][2]))
		}
	}
}

// folding first and mapping afterwards is the same as doing both at once
func use__twoSteps(old *Tetra, warm bool, a, b, c, d *Vec, unit, out []Vec) {
	DistributeUnit(unit)
	use__used(old, warm, a, b, c, d).DistributeTetra(unit, out)
}

//gtv:equiv use__twoSteps
func spec__twoSteps(old *Tetra, warm bool, a, b, c, d *Vec, unit, out []Vec) {
	for i := range unit {
		s, t, u := spec__fold(unit[i][0], unit[i][1], unit[i][2])
		unit[i] = Vec{s, t, u}
		for j := 0; j < 3; j++ {
			out[i][j] = spec__mix(a, b, c, d, j, s, t, u)
		}
	}
}

func use__random(old *Tetra, warm bool, a, b, c, d *Vec, gen *rand.Generator, buf []float64, out []Vec) {
	use__used(old, warm, a, b, c, d).RandomSample(gen, buf, out)
}

// sampling uses three uniform numbers of [0,1) per point and insists on
// having room for them
//
//gtv:equiv use__random
func spec__random(old *Tetra, warm bool, a, b, c, d *Vec, gen *rand.Generator, buf []float64, out []Vec) {
	n := len(out)
	if len(buf) != 3*n {
		panic("length")
	}
	gen.UniformAt(0, 1, buf)
	for i := range out {
		s, t, u := spec__fold(float32(buf[i]), float32(buf[i+n]), float32(buf[i+2*n]))
		for j := 0; j < 3; j++ {
			out[i][j] = spec__mix(a, b, c, d, j, s, t, u)
		}
	}
}

// a new tetrahedron has the corners it was given
func use__fresh(a, b, c, d *Vec, pts, out []Vec) {
	NewTetra(a, b, c, d).DistributeTetra(pts, out)
}

//gtv:equiv use__fresh
func spec__fresh(a, b, c, d *Vec, pts, out []Vec) {
	for i := range pts {
		for j := 0; j < 3; j++ {
			out[i][j] = spec__mix(a, b, c, d, j, pts[i][0], pts[i][1], pts[i][2])
		}
	}
}
