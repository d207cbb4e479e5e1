package mat

func use__mult(a, b []float64) ([]float64, int, int) {
	m := NewMatrix(a, 3, 2).Mult(NewMatrix(b, 2, 3))
	return m.Vals, m.Width, m.Height
}

//gtv:equiv use__mult
func spec__mult(a, b []float64) ([]float64, int, int) {
	if len(a) != 6 || len(b) != 6 {
		panic("size")
	}
	out := make([]float64, 4)
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			out[2*y+x] = a[3*y]*b[x] + a[3*y+1]*b[2+x] + a[3*y+2]*b[4+x]
		}
	}
	return out, 2, 2
}

func use__multVec(a, v, out []float64) { MultVec(NewMatrix(a, 3, 2), v, out) }

//gtv:equiv use__multVec
func spec__multVec(a, v, out []float64) {
	if len(a) != 6 || len(v) != 3 || len(out) != 2 {
		panic("size")
	}
	out[0], out[1] = a[0]*v[0]+a[1]*v[1]+a[2]*v[2], a[3]*v[0]+a[4]*v[1]+a[5]*v[2]
}

func use__vecMult(v, a, out []float64) { VecMult(v, NewMatrix(a, 3, 2), out) }

//gtv:equiv use__vecMult
func spec__vecMult(v, a, out []float64) {
	if len(a) != 6 || len(v) != 2 || len(out) != 3 {
		panic("size")
	}
	out[0], out[1], out[2] = a[0]*v[0]+a[3]*v[1], a[1]*v[0]+a[4]*v[1], a[2]*v[0]+a[5]*v[1]
}

func use__transpose(a []float64) ([]float64, int, int) {
	m := NewMatrix(a, 3, 2).Transpose()
	return m.Vals, m.Width, m.Height
}

//gtv:equiv use__transpose
func spec__transpose(a []float64) ([]float64, int, int) {
	if len(a) != 6 {
		panic("size")
	}
	return []float64{a[0], a[3], a[1], a[4], a[2], a[5]}, 2, 3
}

//gtv:equiv NewMatrix
func spec__NewMatrix(vals []float64, width, height int) *Matrix {
	if width <= 0 || height <= 0 || width*height != len(vals) {
		panic("size")
	}
	return &Matrix{Vals: vals, Width: width, Height: height}
}

func use__det(a, b, c, d float64) float64 {
	return NewMatrix([]float64{a, b, c, d}, 2, 2).Determinant()
}

func spec__detDiag(a, b, c, d float64) bool {
	return a > b && b > 0 && d > c && c > 0 && c/a*b < d && c/d < 1
}
func spec__detAnti(a, b, c, d float64) bool {
	return b > a && a > 0 && c > d && d > 0 && a/c*d < b && a/b < 1
}

//gtv:equiv use__det
//gtv:assume spec__detDiag
func spec__det(a, b, c, d float64) float64 { return a*d - b*c }

//gtv:equiv use__det
//gtv:assume spec__detAnti
func spec__detSwap(a, b, c, d float64) float64 { return a*d - b*c }

func use__cycle(a, b, c float64) float64 {
	return NewMatrix([]float64{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).Determinant()
}

func spec__pos3(a, b, c float64) bool { return a > 0 && b > 0 && c > 0 }

//gtv:equiv use__cycle
//gtv:assume spec__pos3
func spec__cycle(a, b, c float64) float64 { return a * b * c }

func use__solveCycle(a, b, c, u, v, w float64) (float64, float64, float64) {
	x := NewMatrix([]float64{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).SolveVector([]float64{u, v, w})
	return x[0], x[1], x[2]
}

func spec__pos6(a, b, c, u, v, w float64) bool { return a > 0 && b > 0 && c > 0 }

//gtv:equiv use__solveCycle
//gtv:assume spec__pos6
func spec__solveCycle(a, b, c, u, v, w float64) (float64, float64, float64) {
	return w / c, u / a, v / b
}

func use__invCycle(a, b, c float64) []float64 {
	return NewMatrix([]float64{0, a, 0, 0, 0, b, c, 0, 0}, 3, 3).Invert().Vals
}

//gtv:equiv use__invCycle
//gtv:assume spec__pos3
func spec__invCycle(a, b, c float64) []float64 {
	return []float64{0, 0, 1 / c, 1 / a, 0, 0, 0, 1 / b, 0}
}

// every row has to move: 0 2 1, 4 1 1, 2 1 3, the determinant is -18
func use__solveFixed(u, v, w float64) (float64, float64, float64) {
	x := NewMatrix([]float64{0, 2, 1, 4, 1, 1, 2, 1, 3}, 3, 3).SolveVector([]float64{u, v, w})
	return x[0], x[1], x[2]
}

//gtv:equiv use__solveFixed
//gtv:tol 1e-9
func spec__solveFixed(u, v, w float64) (float64, float64, float64) {
	return (2*u - 5*v + w) / -18, (-10*u - 2*v + 4*w) / -18, (2*u + 4*v - 8*w) / -18
}

func use__fixed() (float64, []float64) {
	m := NewMatrix([]float64{0, 2, 1, 4, 1, 1, 2, 1, 3}, 3, 3)
	return m.Determinant(), m.Invert().Vals
}

//gtv:equiv use__fixed
//gtv:tol 1e-9
func spec__fixed() (float64, []float64) {
	return -18, []float64{-2.0 / 18, 5.0 / 18, -1.0 / 18, 10.0 / 18, 2.0 / 18, -4.0 / 18, -2.0 / 18, -4.0 / 18, 8.0 / 18}
}

// upper triangle
func use__solveUp(a, b, c, d, e, f, u, v, w float64) (float64, float64, float64) {
	x := NewMatrix([]float64{a, b, c, 0, d, e, 0, 0, f}, 3, 3).SolveVector([]float64{u, v, w})
	return x[0], x[1], x[2]
}

func spec__upper(a, b, c, d, e, f, u, v, w float64) bool {
	return a > b && b > c && c > 0 && d > e && e > 0 && f > 0
}

//gtv:equiv use__solveUp
//gtv:assume spec__upper
func spec__solveUp(a, b, c, d, e, f, u, v, w float64) (float64, float64, float64) {
	z := w / f
	y := (v - e*z) / d
	return (u - b*y - c*z) / a, y, z
}

func use__solve(a, b, c, d, u, v float64) (float64, float64) {
	x := NewMatrix([]float64{a, b, c, d}, 2, 2).SolveVector([]float64{u, v})
	return x[0], x[1]
}

func spec__diag(a, b, c, d, u, v float64) bool {
	return a > b && b > 0 && d > c && c > 0 && c/a*b < d && c/d < 1
}

//gtv:equiv use__solve
//gtv:assume spec__diag
func spec__solve(a, b, c, d, u, v float64) (float64, float64) {
	y := (v - c/a*u) / (d - c/a*b)
	return (u - b*y) / a, y
}

func spec__anti(a, b, c, d, u, v float64) bool {
	return b > a && a > 0 && c > d && d > 0 && a/c*d < b && a/b < 1
}

//gtv:equiv use__solve
//gtv:assume spec__anti
func spec__solveAnti(a, b, c, d, u, v float64) (float64, float64) {
	y := (u - a/c*v) / (b - a/c*d)
	return (v - d*y) / c, y
}

func use__oblong(a []float64) { NewMatrix(a, 3, 2).LU() }

//gtv:equiv use__oblong
func spec__oblong(a []float64) { panic("oblong") }
