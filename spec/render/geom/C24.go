package geom

import "math"

// ---- references on plain corner arrays

func spec__det(a, b, c, d *Vec) float64 {
	ux, uy, uz := b[0]-a[0], b[1]-a[1], b[2]-a[2]
	vx, vy, vz := c[0]-a[0], c[1]-a[1], c[2]-a[2]
	wx, wy, wz := d[0]-a[0], d[1]-a[1], d[2]-a[2]
	return float64(ux*(vy*wz-vz*wy)-uy*(vx*wz-vz*wx)+uz*(vx*wy-vy*wx)) / 6
}

func spec__mean(a, b, c, d *Vec) Vec {
	return Vec{(a[0] + b[0] + c[0] + d[0]) / 4, (a[1] + b[1] + c[1] + d[1]) / 4, (a[2] + b[2] + c[2] + d[2]) / 4}
}

// the volume is |det|/6 and asking twice gives the same number
func use__volume(a, b, c, d *Vec) (v1, v2 float64, r *Tetra) {
	t := NewTetra(a, b, c, d)
	return t.Volume(), t.Volume(), nil
}

//gtv:equiv use__volume
func spec__volume(a, b, c, d *Vec) (v1, v2 float64, r *Tetra) {
	v := math.Abs(spec__det(a, b, c, d))
	return v, v, nil
}

func use__barycenter(a, b, c, d *Vec) (v1, v2 Vec) {
	t := NewTetra(a, b, c, d)
	v1 = *t.Barycenter()
	return v1, *t.Barycenter()
}

//gtv:equiv use__barycenter
func spec__barycenter(a, b, c, d *Vec) (v1, v2 Vec) {
	v := spec__mean(a, b, c, d)
	return v, v
}

// the four sub-tetrahedra of an inner point have one orientation and fill the volume
func use__contains(a, b, c, d, v *Vec) bool {
	return NewTetra(a, b, c, d).Contains(v)
}

//gtv:equiv use__contains
func spec__contains(a, b, c, d, v *Vec) bool {
	return spec__inside(math.Abs(spec__det(a, b, c, d)),
		spec__det(v, a, b, c), spec__det(v, b, d, c), spec__det(v, a, d, b), spec__det(v, a, c, d))
}

func spec__inside(vol, v0, v1, v2, v3 float64) bool {
	neg := v0 < 0
	if (v1 < 0) != neg || (v2 < 0) != neg || (v3 < 0) != neg {
		return false
	}
	a0, a1, a2, a3 := math.Abs(v0), math.Abs(v1), math.Abs(v2), math.Abs(v3)
	lim := vol * (1 + 5e-5)
	if a0 > lim || a0+a1 > lim || a0+a1+a2 > lim {
		return false
	}
	sum := a0 + a1 + a2 + a3
	if sum == 0 || vol == 0 {
		return sum == 0 && vol == 0
	}
	return math.Abs((sum-vol)/sum) <= 5e-5
}

// re-initialising replaces every derived quantity, whatever was asked before
func use__history(a, b, c, d, e, f, g, h, v *Vec, cw float64, pts, out []Vec) (vol float64, bary Vec, in bool, cb CellBounds) {
	t := NewTetra(a, b, c, d)
	t.Volume()
	t.Barycenter()
	t.Contains(v)
	t.CellBounds(cw)
	t.DistributeTetra(pts, out)
	t.Init(e, f, g, h)
	in = t.Contains(v)
	cb = *t.CellBounds(cw)
	t.DistributeTetra(pts, out)
	vol = t.Volume()
	bary = *t.Barycenter()
	t.Contains(v)
	return
}

//gtv:equiv use__history
func spec__history(a, b, c, d, e, f, g, h, v *Vec, cw float64, pts, out []Vec) (vol float64, bary Vec, in bool, cb CellBounds) {
	t := NewTetra(e, f, g, h)
	vol = math.Abs(spec__det(e, f, g, h))
	bary = spec__mean(e, f, g, h)
	in = spec__contains(e, f, g, h, v)
	cb = *t.CellBounds(cw)
	NewTetra(e, f, g, h).DistributeTetra(pts, out)
	return
}

// asking the other way round changes nothing either
func use__history2(a, b, c, d, v *Vec) (vol float64, bary Vec, in bool, corners [4]Vec) {
	t := &Tetra{}
	t.Init(b, b, c, d)
	t.Contains(v)
	t.Init(a, b, c, d)
	bary = *t.Barycenter()
	in = t.Contains(v)
	vol = t.Volume()
	return vol, bary, in, t.Corners
}

//gtv:equiv use__history2
func spec__history2(a, b, c, d, v *Vec) (vol float64, bary Vec, in bool, corners [4]Vec) {
	return math.Abs(spec__det(a, b, c, d)), spec__mean(a, b, c, d), spec__contains(a, b, c, d, v), [4]Vec{*a, *b, *c, *d}
}
