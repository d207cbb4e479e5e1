package interpolate

func use__linear(x0, dx float64, vals []float64, x float64) float64 {
	return NewUniformLinear(x0, dx, vals).Eval(x)
}

func use__bilinear(x0, dx float64, nx int, y0, dy float64, ny int, vals []float64, x, y float64) float64 {
	return NewUniformBiLinear(x0, dx, nx, y0, dy, ny, vals).Eval(x, y)
}

func use__trilinear(x0, dx float64, nx int, y0, dy float64, ny int, z0, dz float64, nz int, vals []float64, x, y, z float64) float64 {
	return NewUniformTriLinear(x0, dx, nx, y0, dy, ny, z0, dz, nz, vals).Eval(x, y, z)
}

func spec__up1(x0, dx float64, vals []float64, x float64) bool   { return dx > 0 && len(vals) >= 2 }
func spec__down1(x0, dx float64, vals []float64, x float64) bool { return dx < 0 && len(vals) >= 2 }

// cell and offset within it, as a fraction of the cell
func spec__cell(x0, d float64, n int, x float64) (int, float64) {
	last := x0 + float64(n-1)*d
	if d > 0 && (x < x0 || x > last) || d < 0 && (x > x0 || x < last) {
		panic("outside")
	}
	i := int((x - x0) / d)
	if i == n-1 {
		i = n - 2
	}
	return i, (x - x0 - float64(i)*d) / d
}

//gtv:equiv use__linear
//gtv:assume spec__up1
func spec__linearUp(x0, dx float64, vals []float64, x float64) float64 {
	i, f := spec__cell(x0, dx, len(vals), x)
	return vals[i]*(1-f) + vals[i+1]*f
}

//gtv:equiv use__linear
//gtv:assume spec__down1
func spec__linearDown(x0, dx float64, vals []float64, x float64) float64 {
	i, f := spec__cell(x0, dx, len(vals), x)
	return vals[i]*(1-f) + vals[i+1]*f
}

func spec__up2(x0, dx float64, nx int, y0, dy float64, ny int, vals []float64, x, y float64) bool {
	return dx > 0 && dy > 0 && nx >= 2 && ny >= 2
}

//gtv:equiv use__bilinear
//gtv:assume spec__up2
func spec__bilinear(x0, dx float64, nx int, y0, dy float64, ny int, vals []float64, x, y float64) float64 {
	if len(vals) != nx*ny {
		panic("size")
	}
	i, f := spec__cell(x0, dx, nx, x)
	j, g := spec__cell(y0, dy, ny, y)
	at := func(i, j int) float64 { return vals[i+j*nx] }
	return (at(i, j)*(1-f)+at(i+1, j)*f)*(1-g) + (at(i, j+1)*(1-f)+at(i+1, j+1)*f)*g
}

func spec__up3(x0, dx float64, nx int, y0, dy float64, ny int, z0, dz float64, nz int, vals []float64, x, y, z float64) bool {
	return dx > 0 && dy > 0 && dz > 0 && nx >= 2 && ny >= 2 && nz >= 2
}

//gtv:equiv use__trilinear
//gtv:assume spec__up3
func spec__trilinear(x0, dx float64, nx int, y0, dy float64, ny int, z0, dz float64, nz int, vals []float64, x, y, z float64) float64 {
	if len(vals) != nx*ny*nz {
		panic("size")
	}
	i, f := spec__cell(x0, dx, nx, x)
	j, g := spec__cell(y0, dy, ny, y)
	k, h := spec__cell(z0, dz, nz, z)
	at := func(i, j, k int) float64 { return vals[i+nx*(j+ny*k)] }
	lo := (at(i, j, k)*(1-f)+at(i+1, j, k)*f)*(1-g) + (at(i, j+1, k)*(1-f)+at(i+1, j+1, k)*f)*g
	hi := (at(i, j, k+1)*(1-f)+at(i+1, j, k+1)*f)*(1-g) + (at(i, j+1, k+1)*(1-f)+at(i+1, j+1, k+1)*f)*g
	return lo*(1-h) + hi*h
}

func use__uneven(a, b, c, u, v, w, x float64) float64 {
	return NewLinear([]float64{a, b, c}, []float64{u, v, w}).Eval(x)
}

func spec__between(a, b, c, u, v, w, x float64) bool {
	return a < b && b < c && x != b
}

//gtv:equiv use__uneven
//gtv:assume spec__between
func spec__uneven(a, b, c, u, v, w, x float64) float64 {
	if x < a || x > c {
		panic("outside")
	}
	if x < b {
		return u + (v-u)*(x-a)/(b-a)
	}
	return v + (w-v)*(x-b)/(c-b)
}

func spec__betweenDown(a, b, c, u, v, w, x float64) bool {
	return a > b && b > c && x != b
}

//gtv:equiv use__uneven
//gtv:assume spec__betweenDown
func spec__unevenDown(a, b, c, u, v, w, x float64) float64 {
	if x > a || x < c {
		panic("outside")
	}
	if x > b {
		return u + (v-u)*(x-a)/(b-a)
	}
	return v + (w-v)*(x-b)/(c-b)
}

func use__uneven4(a, b, c, d, s, u, v, w, x float64) float64 {
	return NewLinear([]float64{a, b, c, d}, []float64{s, u, v, w}).Eval(x)
}

func spec__between4(a, b, c, d, s, u, v, w, x float64) bool {
	return a < b && b < c && c < d && x != b && x != c
}

//gtv:equiv use__uneven4
//gtv:assume spec__between4
func spec__uneven4(a, b, c, d, s, u, v, w, x float64) float64 {
	if x < a || x > d {
		panic("outside")
	}
	if x < b {
		return s + (u-s)*(x-a)/(b-a)
	}
	if x < c {
		return u + (v-u)*(x-b)/(c-b)
	}
	return v + (w-v)*(x-c)/(d-c)
}

// the values at the points themselves
func use__knots(a, b, c, u, v, w float64) (float64, float64, float64) {
	lin := NewLinear([]float64{a, b, c}, []float64{u, v, w})
	return lin.Eval(a), lin.Eval(b), lin.Eval(c)
}

func spec__sorted(a, b, c, u, v, w float64) bool { return a < b && b < c }
func spec__falls(a, b, c, u, v, w float64) bool  { return a > b && b > c }

//gtv:equiv use__knots
//gtv:assume spec__sorted
func spec__knots(a, b, c, u, v, w float64) (float64, float64, float64) { return u, v, w }

//gtv:equiv use__knots
//gtv:assume spec__falls
func spec__knotsDown(a, b, c, u, v, w float64) (float64, float64, float64) { return u, v, w }

// a plane grid with uneven lines, 2 by 3
func use__uneven2(a, b, c, d, e float64, v []float64, x, y float64) float64 {
	return NewBiLinear([]float64{a, b}, []float64{c, d, e}, v).Eval(x, y)
}

func spec__between2(a, b, c, d, e float64, v []float64, x, y float64) bool {
	return a < b && c < d && d < e && y != d && x != b && x != a
}

//gtv:equiv use__uneven2
//gtv:assume spec__between2
func spec__uneven2(a, b, c, d, e float64, v []float64, x, y float64) float64 {
	if len(v) != 6 {
		panic("size")
	}
	if x < a || x > b || y < c || y > e {
		panic("outside")
	}
	f := (x - a) / (b - a)
	p, q, r := v[0]*(1-f)+v[1]*f, v[2]*(1-f)+v[3]*f, v[4]*(1-f)+v[5]*f
	if y < d {
		g := (y - c) / (d - c)
		return p*(1-g) + q*g
	}
	g := (y - d) / (e - d)
	return q*(1-g) + r*g
}

// a grid of 2 by 2 by 2 with uneven lines
func use__uneven3(a, b, c, d, e, f float64, v []float64, x, y, z float64) float64 {
	return NewTriLinear([]float64{a, b}, []float64{c, d}, []float64{e, f}, v).Eval(x, y, z)
}

func spec__between3(a, b, c, d, e, f float64, v []float64, x, y, z float64) bool {
	return a < b && c < d && e < f && a < x && x < b && c < y && y < d && e < z && z < f
}

//gtv:equiv use__uneven3
//gtv:assume spec__between3
func spec__uneven3(a, b, c, d, e, f float64, v []float64, x, y, z float64) float64 {
	if len(v) != 8 {
		panic("size")
	}
	p, q, r := (x-a)/(b-a), (y-c)/(d-c), (z-e)/(f-e)
	row := func(i int) float64 { return v[i]*(1-p) + v[i+1]*p }
	lo := row(0)*(1-q) + row(2)*q
	hi := row(4)*(1-q) + row(6)*q
	return lo*(1-r) + hi*r
}

func use__all(x0, dx float64, vals, xs, out []float64) []float64 {
	return NewUniformLinear(x0, dx, vals).EvalAll(xs, out)
}

func spec__upAll(x0, dx float64, vals, xs, out []float64) bool {
	return dx > 0 && len(vals) >= 2 && len(out) == len(xs) && out != nil
}

//gtv:equiv use__all
//gtv:assume spec__upAll
func spec__all(x0, dx float64, vals, xs, out []float64) []float64 {
	for k, x := range xs {
		i, f := spec__cell(x0, dx, len(vals), x)
		out[k] = vals[i]*(1-f) + vals[i+1]*f
	}
	return out
}
