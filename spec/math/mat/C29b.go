package mat

func use__mult32(a, b []float32) ([]float32, int, int) {
	m := NewMatrix32(a, 3, 2).Mult(NewMatrix32(b, 2, 3))
	return m.Vals, m.Width, m.Height
}

//gtv:equiv use__mult32
func spec__mult32(a, b []float32) ([]float32, int, int) {
	if len(a) != 6 || len(b) != 6 {
		panic("size")
	}
	out := make([]float32, 4)
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			out[2*y+x] = a[3*y]*b[x] + a[3*y+1]*b[2+x] + a[3*y+2]*b[4+x]
		}
	}
	return out, 2, 2
}

func use__det32(a, b, c, d float32) float32 {
	return NewMatrix32([]float32{a, b, c, d}, 2, 2).Determinant()
}

func spec__detDiag32(a, b, c, d float32) bool {
	return a > b && b > 0 && d > c && c > 0 && c/a*b < d && c/d < 1
}
func spec__detAnti32(a, b, c, d float32) bool {
	return b > a && a > 0 && c > d && d > 0 && a/c*d < b && a/b < 1
}

//gtv:equiv use__det32
//gtv:assume spec__detDiag32
func spec__det32(a, b, c, d float32) float32 { return a*d - b*c }

//gtv:equiv use__det32
//gtv:assume spec__detAnti32
func spec__detSwap32(a, b, c, d float32) float32 { return a*d - b*c }

func use__cycle32(a, b, c float32) float32 {
	return NewMatrix32([]float32{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).Determinant()
}

func spec__pos332(a, b, c float32) bool { return a > 0 && b > 0 && c > 0 }

//gtv:equiv use__cycle32
//gtv:assume spec__pos332
func spec__cycle32(a, b, c float32) float32 { return a * b * c }

func use__solveCycle32(a, b, c, u, v, w float32) (float32, float32, float32) {
	x := NewMatrix32([]float32{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).SolveVector([]float32{u, v, w})
	return x[0], x[1], x[2]
}

func spec__pos632(a, b, c, u, v, w float32) bool { return a > 0 && b > 0 && c > 0 }

//gtv:equiv use__solveCycle32
//gtv:assume spec__pos632
func spec__solveCycle32(a, b, c, u, v, w float32) (float32, float32, float32) {
	return w / c, u / a, v / b
}

func use__invCycle32(a, b, c float32) []float32 {
	return NewMatrix32([]float32{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).Invert().Vals
}

//gtv:equiv use__invCycle32
//gtv:assume spec__pos332
func spec__invCycle32(a, b, c float32) []float32 {
	return []float32{0, 0, 1 / c, 1 / a, 0, 0, 0, 1 / b, 0}
}

// every row has to move: 0 2 1, 4 1 1, 2 1 3, the determinant is -18
func use__solveFixed32(u, v, w float32) (float32, float32, float32) {
	x := NewMatrix32([]float32{0, 2, 1, 4, 1, 1, 2, 1, 3}, 3, 3).SolveVector([]float32{u, v, w})
	return x[0], x[1], x[2]
}

//gtv:equiv use__solveFixed32
//gtv:tol 1e-6
func spec__solveFixed32(u, v, w float32) (float32, float32, float32) {
	return (2*u - 5*v + w) / -18, (-10*u - 2*v + 4*w) / -18, (2*u + 4*v - 8*w) / -18
}

func use__fixed32() (float32, []float32) {
	m := NewMatrix32([]float32{0, 2, 1, 4, 1, 1, 2, 1, 3}, 3, 3)
	return m.Determinant(), m.Invert().Vals
}

//gtv:equiv use__fixed32
//gtv:tol 1e-6
func spec__fixed32() (float32, []float32) {
	return -18, []float32{-2.0 / 18, 5.0 / 18, -1.0 / 18, 10.0 / 18, 2.0 / 18, -4.0 / 18, -2.0 / 18, -4.0 / 18, 8.0 / 18}
}

// upper triangle
func use__solveUp32(a, b, c, d, e, f, u, v, w float32) (float32, float32, float32) {
	x := NewMatrix32([]float32{a, b, c, 0, d, e, 0, 0, f}, 3, 3).SolveVector([]float32{u, v, w})
	return x[0], x[1], x[2]
}

func spec__upper32(a, b, c, d, e, f, u, v, w float32) bool {
	return a > b && b > c && c > 0 && d > e && e > 0 && f > 0
}

//gtv:equiv use__solveUp32
//gtv:assume spec__upper32
func spec__solveUp32(a, b, c, d, e, f, u, v, w float32) (float32, float32, float32) {
	z := w / f
	y := (v - e*z) / d
	return (u - b*y - c*z) / a, y, z
}

func use__solve32(a, b, c, d, u, v float32) (float32, float32) {
	x := NewMatrix32([]float32{a, b, c, d}, 2, 2).SolveVector([]float32{u, v})
	return x[0], x[1]
}

func spec__diag32(a, b, c, d, u, v float32) bool {
	return a > b && b > 0 && d > c && c > 0 && c/a*b < d && c/d < 1
}

//gtv:equiv use__solve32
//gtv:assume spec__diag32
func spec__solve32(a, b, c, d, u, v float32) (float32, float32) {
	y := (v - c/a*u) / (d - c/a*b)
	return (u - b*y) / a, y
}

func spec__anti32(a, b, c, d, u, v float32) bool {
	return b > a && a > 0 && c > d && d > 0 && a/c*d < b && a/b < 1
}

//gtv:equiv use__solve32
//gtv:assume spec__anti32
func spec__solveAnti32(a, b, c, d, u, v float32) (float32, float32) {
	y := (u - a/c*v) / (b - a/c*d)
	return (v - d*y) / c, y
}

func use__oblong32(a []float32) { NewMatrix32(a, 3, 2).LU() }

//gtv:equiv use__oblong32
func spec__oblong32(a []float32) { panic("oblong") }

//gtv:equiv NewMatrix32
func spec__New32(vals []float32, width, height int) *Matrix32 {
	if width <= 0 || height <= 0 || width*height != len(vals) {
		panic("size")
	}
	return &Matrix32{Vals: vals, Width: width, Height: height}
}
