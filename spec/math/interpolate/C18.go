package interpolate

import "math"

func spec__known(b BoundaryCondition, xs []float64, i int) bool {
	return b >= 0 && b <= 3 && len(xs) >= 1 && i > -len(xs) && i < 2*len(xs)-1
}

// the value beyond an edge: the other end, the mirror image, nothing, the edge
//
//gtv:equiv (BoundaryCondition).Get
//gtv:assume spec__known
func spec__Get(b BoundaryCondition, xs []float64, i int) float64 {
	n := len(xs)
	if i >= 0 && i < n {
		return xs[i]
	}
	if b == 2 {
		return 0
	}
	if i < 0 {
		if b == 0 {
			return xs[i+n]
		} else if b == 1 {
			return xs[-i]
		}
		return xs[0]
	}
	if b == 0 {
		return xs[i-n]
	} else if b == 1 {
		return xs[2*n-2-i]
	}
	return xs[n-1]
}

func use__tophat3() (float64, float64, float64, int, int) {
	k := NewTophatKernel(3)
	return k.cs[0], k.cs[1], k.cs[2], len(k.cs), k.center
}

//gtv:equiv use__tophat3
func spec__tophat3() (float64, float64, float64, int, int) {
	return 1.0 / 3, 1.0 / 3, 1.0 / 3, 3, 1
}

func use__gauss5(sigma, dx float64) (a, b, c, d, e float64, n, center int) {
	k := NewGaussianKernel(5, sigma, dx)
	return k.cs[0], k.cs[1], k.cs[2], k.cs[3], k.cs[4], len(k.cs), k.center
}

func spec__wide(sigma, dx float64) bool { return sigma > 0 }

//gtv:equiv use__gauss5
//gtv:assume spec__wide
func spec__gauss5(sigma, dx float64) (a, b, c, d, e float64, n, center int) {
	p := math.Exp(-dx * dx / (2 * sigma * sigma))
	q := math.Exp(-2 * dx * 2 * dx / (2 * sigma * sigma))
	z := math.Exp(0 / (2 * sigma * sigma))
	s := z + p + p + q + q
	return q / s, p / s, z / s, p / s, q / s, 5, 2
}

func use__even(w int, s, dx float64) { NewGaussianKernel(2*w, s, dx) }
func use__evenTop(w int)             { NewTophatKernel(2 * w) }

//gtv:equiv use__evenTop
func spec__evenTop(w int) { panic("even") }

//gtv:equiv use__even
func spec__even(w int, s, dx float64) { panic("even") }

func use__conv0(a, b, c float64, xs, out []float64) { spec__kernel(a, b, c).ConvolveAt(xs, 0, out) }
func use__conv1(a, b, c float64, xs, out []float64) { spec__kernel(a, b, c).ConvolveAt(xs, 1, out) }
func use__conv2(a, b, c float64, xs, out []float64) { spec__kernel(a, b, c).ConvolveAt(xs, 2, out) }
func use__conv3(a, b, c float64, xs, out []float64) { spec__kernel(a, b, c).ConvolveAt(xs, 3, out) }

func spec__kernel(a, b, c float64) *Kernel { return &Kernel{cs: []float64{a, b, c}, center: 1} }

func spec__data(a, b, c float64, xs, out []float64) bool {
	return len(xs) >= 3 && len(out) == len(xs)
}

func spec__conv(a, b, c, before, after float64, xs, out []float64) {
	n := len(xs)
	out[0] = a*before + b*xs[0] + c*xs[1]
	for i := 1; i < n-1; i++ {
		out[i] = a*xs[i-1] + b*xs[i] + c*xs[i+1]
	}
	out[n-1] = a*xs[n-2] + b*xs[n-1] + c*after
}

//gtv:equiv use__conv0
//gtv:assume spec__data
func spec__conv0(a, b, c float64, xs, out []float64) {
	spec__conv(a, b, c, xs[len(xs)-1], xs[0], xs, out)
}

//gtv:equiv use__conv1
//gtv:assume spec__data
func spec__conv1(a, b, c float64, xs, out []float64) {
	spec__conv(a, b, c, xs[1], xs[len(xs)-2], xs, out)
}

//gtv:equiv use__conv2
//gtv:assume spec__data
func spec__conv2(a, b, c float64, xs, out []float64) { spec__conv(a, b, c, 0, 0, xs, out) }

//gtv:equiv use__conv3
//gtv:assume spec__data
func spec__conv3(a, b, c float64, xs, out []float64) {
	spec__conv(a, b, c, xs[0], xs[len(xs)-1], xs, out)
}

func use__convNew(a, b, c float64, xs []float64) []float64 {
	return spec__kernel(a, b, c).Convolve(xs, 3)
}

func spec__dataNew(a, b, c float64, xs []float64) bool { return len(xs) >= 3 }

//gtv:equiv use__convNew
//gtv:assume spec__dataNew
func spec__convNew(a, b, c float64, xs []float64) []float64 {
	out := make([]float64, len(xs))
	spec__conv(a, b, c, xs[0], xs[len(xs)-1], xs, out)
	return out
}

// five coefficients reach two values beyond the edges
func use__wide1(a, b, c, d, e float64, xs, out []float64) {
	(&Kernel{cs: []float64{a, b, c, d, e}, center: 2}).ConvolveAt(xs, 1, out)
}
func use__wide0(a, b, c, d, e float64, xs, out []float64) {
	(&Kernel{cs: []float64{a, b, c, d, e}, center: 2}).ConvolveAt(xs, 0, out)
}

func spec__dataWide(a, b, c, d, e float64, xs, out []float64) bool {
	return len(xs) >= 5 && len(out) == len(xs)
}

//gtv:equiv use__wide1
//gtv:assume spec__dataWide
func spec__wide1(a, b, c, d, e float64, xs, out []float64) {
	n := len(xs)
	spec__wideConv(a, b, c, d, e, xs[2], xs[1], xs[n-2], xs[n-3], xs, out)
}

//gtv:equiv use__wide0
//gtv:assume spec__dataWide
func spec__wide0(a, b, c, d, e float64, xs, out []float64) {
	n := len(xs)
	spec__wideConv(a, b, c, d, e, xs[n-2], xs[n-1], xs[0], xs[1], xs, out)
}

func spec__wideConv(a, b, c, d, e, l2, l1, r1, r2 float64, xs, out []float64) {
	n := len(xs)
	out[0] = a*l2 + b*l1 + c*xs[0] + d*xs[1] + e*xs[2]
	out[1] = a*l1 + b*xs[0] + c*xs[1] + d*xs[2] + e*xs[3]
	for i := 2; i < n-2; i++ {
		out[i] = a*xs[i-2] + b*xs[i-1] + c*xs[i] + d*xs[i+1] + e*xs[i+2]
	}
	out[n-2] = a*xs[n-4] + b*xs[n-3] + c*xs[n-2] + d*xs[n-1] + e*r1
	out[n-1] = a*xs[n-3] + b*xs[n-2] + c*xs[n-1] + d*r1 + e*r2
}

func use__savgol() (a, b, c, d, e float64, n, center int) {
	k := NewSavGolKernel(2, 5)
	return k.cs[0], k.cs[1], k.cs[2], k.cs[3], k.cs[4], len(k.cs), k.center
}

// the least squares parabola through five points, at the middle one
//
//gtv:equiv use__savgol
//gtv:tol 1e-9
func spec__savgol() (a, b, c, d, e float64, n, center int) {
	return -3.0 / 35, 12.0 / 35, 17.0 / 35, 12.0 / 35, -3.0 / 35, 5, 2
}
