package calc

func use__deriv0(xs, ys, out []float64) []float64 { return Deriv(xs, ys, 0, Out(out)) }
func use__deriv2(xs, ys, out []float64) []float64 { return Deriv(xs, ys, 2, Out(out)) }
func use__deriv4(xs, ys, out []float64) []float64 { return Deriv(xs, ys, 4, Out(out)) }
func use__deriv3(xs, ys, out []float64) []float64 { return Deriv(xs, ys, 3, Out(out)) }
func use__alloc2(xs, ys []float64) []float64      { return Deriv(xs, ys, 2) }
func use__alloc4(xs, ys []float64) []float64      { return Deriv(xs, ys, 4) }

func spec__lens(xs, ys, out []float64) {
	if out == nil {
		return
	}
	if len(ys) != len(xs) || len(out) != len(xs) {
		panic("lengths")
	}
}

func spec__some(xs, ys, out []float64) bool { return out != nil && len(xs) >= 5 }
func spec__some2(xs, ys []float64) bool     { return len(xs) >= 5 }

//gtv:equiv use__deriv0
//gtv:assume spec__some
func spec__deriv0(xs, ys, out []float64) []float64 {
	spec__lens(xs, ys, out)
	for i := range xs {
		out[i] = ys[i]
	}
	return out
}

// second order, exact for parabolas on equally spaced points
//
//gtv:equiv use__deriv2
//gtv:assume spec__some
func spec__deriv2(x, y, out []float64) []float64 {
	spec__lens(x, y, out)
	n := len(x)
	for i := 1; i < n-1; i++ {
		out[i] = (y[i+1] - y[i-1]) / (x[i+1] - x[i-1])
	}
	out[0] = (4*y[1] - 3*y[0] - y[2]) / (x[2] - x[0])
	out[n-1] = (3*y[n-1] - 4*y[n-2] + y[n-3]) / (x[n-1] - x[n-3])
	return out
}

// fourth order
//
//gtv:equiv use__deriv4
//gtv:assume spec__some
func spec__deriv4(x, y, out []float64) []float64 {
	spec__lens(x, y, out)
	n := len(x)
	for i := 2; i < n-2; i++ {
		out[i] = (y[i-2] - 8*y[i-1] + 8*y[i+1] - y[i+2]) / (12 * ((x[i+2] - x[i-2]) / 4))
	}
	h := 12 * ((x[4] - x[0]) / 4)
	out[0] = (-25*y[0] + 48*y[1] - 36*y[2] + 16*y[3] - 3*y[4]) / h
	out[1] = (-3*y[0] - 10*y[1] + 18*y[2] - 6*y[3] + y[4]) / h
	h = 12 * ((x[n-1] - x[n-5]) / 4)
	out[n-1] = (25*y[n-1] - 48*y[n-2] + 36*y[n-3] - 16*y[n-4] + 3*y[n-5]) / h
	out[n-2] = (3*y[n-1] + 10*y[n-2] - 18*y[n-3] + 6*y[n-4] - y[n-5]) / h
	return out
}

//gtv:equiv use__deriv3
func spec__deriv3(xs, ys, out []float64) []float64 { panic("order") }

//gtv:equiv use__alloc2
//gtv:assume spec__some2
func spec__alloc2(xs, ys []float64) []float64 {
	if len(xs) != len(ys) {
		panic("lengths")
	}
	return spec__deriv2(xs, ys, make([]float64, len(xs)))
}

//gtv:equiv use__alloc4
//gtv:assume spec__some2
func spec__alloc4(xs, ys []float64) []float64 {
	if len(xs) != len(ys) {
		panic("lengths")
	}
	return spec__deriv4(xs, ys, make([]float64, len(xs)))
}
