package interpolate

// ---- three points: the natural spline is known in closed form

func spec__mid(a, b, c, u, v, w float64) float64 {
	return 3 * ((w-v)/(c-b) - (v-u)/(b-a)) / (c - a)
}

// the cubic with second derivatives p and q at its ends
func spec__cubic(a, b, u, v, p, q, x float64) float64 {
	h := b - a
	s, t := (b-x)/h, (x-a)/h
	return s*u + t*v + h*h/6*((s*s*s-s)*p+(t*t*t-t)*q)
}

func spec__slope(a, b, u, v, p, q, x float64) float64 {
	h := b - a
	s, t := (b-x)/h, (x-a)/h
	return (v-u)/h + h/6*((1-3*s*s)*p+(3*t*t-1)*q)
}

// from a to x
func spec__area(a, b, u, v, p, q, x float64) float64 {
	h := b - a
	s, t := (b-x)/h, (x-a)/h
	return h * ((1-s*s)*u/2 + t*t*v/2 + h*h/6*(((1-s*s*s*s)/4-(1-s*s)/2)*p+(t*t*t*t/4-t*t/2)*q))
}

func use__eval(a, b, c, u, v, w, x float64) float64 {
	return NewSpline([]float64{a, b, c}, []float64{u, v, w}).Eval(x)
}

func spec__left(a, b, c, u, v, w, x float64) bool  { return a < b && b < c && a < x && x < b }
func spec__right(a, b, c, u, v, w, x float64) bool { return a < b && b < c && b < x && x < c }

//gtv:equiv use__eval
//gtv:assume spec__left
func spec__evalLeft(a, b, c, u, v, w, x float64) float64 {
	return spec__cubic(a, b, u, v, 0, spec__mid(a, b, c, u, v, w), x)
}

//gtv:equiv use__eval
//gtv:assume spec__right
func spec__evalRight(a, b, c, u, v, w, x float64) float64 {
	return spec__cubic(b, c, v, w, spec__mid(a, b, c, u, v, w), 0, x)
}

func spec__leftDown(a, b, c, u, v, w, x float64) bool  { return a > b && b > c && a > x && x > b }
func spec__rightDown(a, b, c, u, v, w, x float64) bool { return a > b && b > c && b > x && x > c }

//gtv:equiv use__eval
//gtv:assume spec__leftDown
func spec__evalLeftDown(a, b, c, u, v, w, x float64) float64 {
	return spec__cubic(a, b, u, v, 0, spec__mid(a, b, c, u, v, w), x)
}

//gtv:equiv use__eval
//gtv:assume spec__rightDown
func spec__evalRightDown(a, b, c, u, v, w, x float64) float64 {
	return spec__cubic(b, c, v, w, spec__mid(a, b, c, u, v, w), 0, x)
}

func use__ends(a, b, c, u, v, w float64) (float64, float64, float64) {
	s := NewSpline([]float64{a, b, c}, []float64{u, v, w})
	return s.Eval(a), s.Eval(b), s.Eval(c)
}

func spec__up(a, b, c, u, v, w float64) bool   { return a < b && b < c }
func spec__down(a, b, c, u, v, w float64) bool { return a > b && b > c }

//gtv:equiv use__ends
//gtv:assume spec__up
func spec__ends(a, b, c, u, v, w float64) (float64, float64, float64) { return u, v, w }

//gtv:equiv use__ends
//gtv:assume spec__down
func spec__endsDown(a, b, c, u, v, w float64) (float64, float64, float64) { return u, v, w }

func spec__unsorted(a, b, c, u, v, w, x float64) bool { return a < b && b > c || a > b && b < c }
func spec__outside(a, b, c, u, v, w, x float64) bool  { return a < b && b < c && (x < a || x > c) }

//gtv:equiv use__eval
//gtv:assume spec__unsorted
func spec__unsortedStops(a, b, c, u, v, w, x float64) float64 { panic("unsorted") }

//gtv:equiv use__eval
//gtv:assume spec__outside
func spec__outsideStops(a, b, c, u, v, w, x float64) float64 { panic("outside") }

func use__deriv(a, b, c, u, v, w, x float64) (float64, float64, float64, float64, float64) {
	s := NewSpline([]float64{a, b, c}, []float64{u, v, w})
	return s.Deriv(x, 0), s.Deriv(x, 1), s.Deriv(x, 2), s.Deriv(x, 3), s.Deriv(x, 4)
}

//gtv:equiv use__deriv
//gtv:assume spec__left
func spec__derivLeft(a, b, c, u, v, w, x float64) (float64, float64, float64, float64, float64) {
	m := spec__mid(a, b, c, u, v, w)
	return spec__cubic(a, b, u, v, 0, m, x), spec__slope(a, b, u, v, 0, m, x), m * (x - a) / (b - a), m / (b - a), 0
}

//gtv:equiv use__deriv
//gtv:assume spec__right
func spec__derivRight(a, b, c, u, v, w, x float64) (float64, float64, float64, float64, float64) {
	m := spec__mid(a, b, c, u, v, w)
	return spec__cubic(b, c, v, w, m, 0, x), spec__slope(b, c, v, w, m, 0, x), m * (c - x) / (c - b), -m / (c - b), 0
}

func use__integ(a, b, c, u, v, w, x, y float64) float64 {
	return NewSpline([]float64{a, b, c}, []float64{u, v, w}).Integrate(x, y)
}

func spec__inLeft(a, b, c, u, v, w, x, y float64) bool {
	return a < x && x < y && y < b && b < c
}

//gtv:equiv use__integ
//gtv:assume spec__inLeft
func spec__integLeft(a, b, c, u, v, w, x, y float64) float64 {
	m := spec__mid(a, b, c, u, v, w)
	return spec__area(a, b, u, v, 0, m, y) - spec__area(a, b, u, v, 0, m, x)
}

func spec__across(a, b, c, u, v, w, x, y float64) bool {
	return a < x && x < b && b < y && y < c
}

//gtv:equiv use__integ
//gtv:assume spec__across
func spec__integAcross(a, b, c, u, v, w, x, y float64) float64 {
	m := spec__mid(a, b, c, u, v, w)
	return spec__area(a, b, u, v, 0, m, b) - spec__area(a, b, u, v, 0, m, x) + spec__area(b, c, v, w, m, 0, y)
}

func spec__back(a, b, c, u, v, w, x, y float64) bool {
	return a < y && y < b && b < x && x < c
}

//gtv:equiv use__integ
//gtv:assume spec__back
func spec__integBack(a, b, c, u, v, w, x, y float64) float64 {
	return -spec__integAcross(a, b, c, u, v, w, y, x)
}

// ---- two points: a straight line

func use__two(a, b, u, v, x float64) float64 {
	return NewSpline([]float64{a, b}, []float64{u, v}).Eval(x)
}

func spec__inside(a, b, u, v, x float64) bool { return a < x && x < b }

//gtv:equiv use__two
//gtv:assume spec__inside
func spec__two(a, b, u, v, x float64) float64 { return u + (v-u)*(x-a)/(b-a) }

// ---- tridiagonal systems: the solution solves it

func use__tridiag2(b0, c0, a1, b1, r0, r1 float64) (float64, float64) {
	u := TriDiag([]float64{0, a1}, []float64{b0, b1}, []float64{c0, 0}, []float64{r0, r1})
	return u[0], u[1]
}

func spec__solvable(b0, c0, a1, b1, r0, r1 float64) bool { return b0 != 0 && b1-a1*(c0/b0) != 0 }

//gtv:equiv use__tridiag2
//gtv:assume spec__solvable
func spec__tridiag2(b0, c0, a1, b1, r0, r1 float64) (float64, float64) {
	d := b1 - a1*(c0/b0)
	y := (r1 - a1*(r0/b0)) / d
	return r0/b0 - c0/b0*y, y
}
