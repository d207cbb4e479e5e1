package geom

// a grid has at least one cell each way
func spec__shape(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) bool {
	return w[0] >= 1 && w[1] >= 1 && w[2] >= 1
}

// ---- finite difference formulas (second order: error h^2, fourth order: h^4)

func spec__put(out []float32, i int, op DerivOp, d float32) {
	switch op {
	case Add:
		out[i] += d
	case Subtract:
		out[i] -= d
	default:
		out[i] = d
	}
}

// centred difference with given neighbours
func spec__centre(order int, mm, m, p, pp float32, dx float32) float32 {
	if order == 2 {
		return (p - m) / (2 * dx)
	}
	return (mm - 8*m + 8*p - pp) / (12 * dx)
}

// one-sided difference at distance k from the end, looking along s
func spec__onesided(order, k int, v []float32, i, s int, dx float32) float32 {
	switch {
	case order == 2:
		return (-3*v[i] + 4*v[i+s] - v[i+2*s]) / (2 * dx)
	case k == 0:
		return (-25*v[i] + 48*v[i+s] - 36*v[i+2*s] + 16*v[i+3*s] - 3*v[i+4*s]) / (12 * dx)
	default:
		return (-3*v[i-s] - 10*v[i] + 18*v[i+s] - 6*v[i+2*s] + v[i+3*s]) / (12 * dx)
	}
}

func spec__deriv(g *GridLocation, v, out []float32, axis, order int, op DerivOp, periodic bool) {
	n := g.Width[axis]
	if n < order+1 {
		panic("too narrow")
	}
	dx := float32(g.BoxWidth / float64(g.Cells))
	s := [3]int{1, g.Width[0], g.Width[0] * g.Width[1]}[axis]
	wrap := periodic && g.Cells == n
	for z := 0; z < g.Width[2]; z++ {
		for y := 0; y < g.Width[1]; y++ {
			for x := 0; x < g.Width[0]; x++ {
				i := x + g.Width[0]*(y+g.Width[1]*z)
				spec__put(out, i, op, spec__at(v, i, [3]int{x, y, z}[axis], n, s, order, wrap, dx))
			}
		}
	}
}

// the derivative in cell i, the c-th of n along the axis with stride s
func spec__at(v []float32, i, c, n, s, order int, wrap bool, dx float32) float32 {
	h := order / 2
	switch {
	case c >= h && c < n-h:
		return spec__centre(order, v[i-h*s], v[i-s], v[i+s], v[i+h*s], dx)
	case wrap:
		return spec__centre(order, v[spec__nb(i, c, -h, n, s)], v[spec__nb(i, c, -1, n, s)],
			v[spec__nb(i, c, 1, n, s)], v[spec__nb(i, c, h, n, s)], dx)
	case c < h:
		return spec__onesided(order, c, v, i, s, dx)
	}
	return -spec__onesided(order, n-1-c, v, i, -s, dx)
}

// the cell k further along, around the box
func spec__nb(i, c, k, n, s int) int {
	switch {
	case c+k < 0:
		return i + (n+k)*s
	case c+k >= n:
		return i - (n-k)*s
	}
	return i + k*s
}

func use__deriv20None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, None, 2})
}

//gtv:equiv use__deriv20None
//gtv:assume spec__shape
func spec__deriv20None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 2, None, periodic)
}

func use__deriv20Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, Add, 2})
}

//gtv:equiv use__deriv20Add
//gtv:assume spec__shape
func spec__deriv20Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 2, Add, periodic)
}

func use__deriv20Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, Subtract, 2})
}

//gtv:equiv use__deriv20Subtract
//gtv:assume spec__shape
func spec__deriv20Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 2, Subtract, periodic)
}

func use__deriv21None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, None, 2})
}

//gtv:equiv use__deriv21None
//gtv:assume spec__shape
func spec__deriv21None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 2, None, periodic)
}

func use__deriv21Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, Add, 2})
}

//gtv:equiv use__deriv21Add
//gtv:assume spec__shape
func spec__deriv21Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 2, Add, periodic)
}

func use__deriv21Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, Subtract, 2})
}

//gtv:equiv use__deriv21Subtract
//gtv:assume spec__shape
func spec__deriv21Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 2, Subtract, periodic)
}

func use__deriv22None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, None, 2})
}

//gtv:equiv use__deriv22None
//gtv:assume spec__shape
func spec__deriv22None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 2, None, periodic)
}

func use__deriv22Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, Add, 2})
}

//gtv:equiv use__deriv22Add
//gtv:assume spec__shape
func spec__deriv22Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 2, Add, periodic)
}

func use__deriv22Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, Subtract, 2})
}

//gtv:equiv use__deriv22Subtract
//gtv:assume spec__shape
func spec__deriv22Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 2, Subtract, periodic)
}

func use__deriv40None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, None, 4})
}

//gtv:equiv use__deriv40None
//gtv:assume spec__shape
func spec__deriv40None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 4, None, periodic)
}

func use__deriv40Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, Add, 4})
}

//gtv:equiv use__deriv40Add
//gtv:assume spec__shape
func spec__deriv40Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 4, Add, periodic)
}

func use__deriv40Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 0, &DerivOptions{periodic, Subtract, 4})
}

//gtv:equiv use__deriv40Subtract
//gtv:assume spec__shape
func spec__deriv40Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 0, 4, Subtract, periodic)
}

func use__deriv41None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, None, 4})
}

//gtv:equiv use__deriv41None
//gtv:assume spec__shape
func spec__deriv41None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 4, None, periodic)
}

func use__deriv41Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, Add, 4})
}

//gtv:equiv use__deriv41Add
//gtv:assume spec__shape
func spec__deriv41Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 4, Add, periodic)
}

func use__deriv41Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 1, &DerivOptions{periodic, Subtract, 4})
}

//gtv:equiv use__deriv41Subtract
//gtv:assume spec__shape
func spec__deriv41Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 1, 4, Subtract, periodic)
}

func use__deriv42None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, None, 4})
}

//gtv:equiv use__deriv42None
//gtv:assume spec__shape
func spec__deriv42None(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 4, None, periodic)
}

func use__deriv42Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, Add, 4})
}

//gtv:equiv use__deriv42Add
//gtv:assume spec__shape
func spec__deriv42Add(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 4, Add, periodic)
}

func use__deriv42Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	g.Deriv(vals, out, 2, &DerivOptions{periodic, Subtract, 4})
}

//gtv:equiv use__deriv42Subtract
//gtv:assume spec__shape
func spec__deriv42Subtract(o, w [3]int, bw float64, cells int, vals, out []float32, periodic bool) {
	g := NewGridLocation(o, w, bw, cells)
	spec__deriv(g, vals, out, 2, 4, Subtract, periodic)
}

func use__bad0(g *GridLocation, vals, out []float32) {
	g.Deriv(vals, out, 3, &DerivOptions{false, None, 2})
}

//gtv:equiv use__bad0
func spec__bad0(g *GridLocation, vals, out []float32) { panic("rejected") }

func use__bad1(g *GridLocation, vals, out []float32) {
	g.Deriv(vals, out, -1, &DerivOptions{false, None, 4})
}

//gtv:equiv use__bad1
func spec__bad1(g *GridLocation, vals, out []float32) { panic("rejected") }

func use__bad2(g *GridLocation, vals, out []float32) {
	g.Deriv(vals, out, 0, &DerivOptions{false, None, 3})
}

//gtv:equiv use__bad2
func spec__bad2(g *GridLocation, vals, out []float32) { panic("rejected") }

func use__bad3(g *GridLocation, vals, out []float32) {
	g.Deriv(vals, out, 1, &DerivOptions{false, None, 0})
}

//gtv:equiv use__bad3
func spec__bad3(g *GridLocation, vals, out []float32) { panic("rejected") }

func use__bad4(g *GridLocation, vals, out []float32) {
	g.Deriv(vals, out, 2, &DerivOptions{false, None, 6})
}

//gtv:equiv use__bad4
func spec__bad4(g *GridLocation, vals, out []float32) { panic("rejected") }
