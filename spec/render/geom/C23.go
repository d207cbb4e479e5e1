package geom

import "math"

// ---- references: plain component formulas on values

func spec__modc(x, w float32) float32 {
	switch {
	case x < 0:
		return x + w
	case x < w:
		return x
	default:
		return x - w
	}
}

// the representative of x-y nearest to zero for x, y in one box of width w
func spec__subc(a, b, w float32) float32 {
	d := a - b
	switch {
	case d > 3*w/2:
		return d - 2*w
	case d > w/2:
		return d - w
	case d < -3*w/2:
		return d + 2*w
	case d < -w/2:
		return d + w
	}
	return d
}

func spec__inBox2(v1, v2 *Vec, width float64) bool {
	// less than two box widths apart
	ok := width > 0
	for i := 0; i < 3; i++ {
		d := v1[i] - v2[i]
		ok = ok && float64(d) < 2*width && float64(d) > -2*width
	}
	return ok
}

func spec__inBox3(v1, v2 *Vec, width float64, out *Vec) bool { return spec__inBox2(v1, v2, width) }

func spec__pos(v *Vec, width float64) bool             { return width > 0 }
func spec__posAt(v *Vec, width float64, out *Vec) bool { return width > 0 }

//gtv:equiv (*Vec).Scale
func spec__Scale(v *Vec, k float64) *Vec {
	return &Vec{float32(float64(v[0]) * k), float32(float64(v[1]) * k), float32(float64(v[2]) * k)}
}

//gtv:equiv (*Vec).ScaleSelf
func spec__ScaleSelf(v *Vec, k float64) *Vec {
	v[2] = float32(float64(v[2]) * k)
	v[1] = float32(float64(v[1]) * k)
	v[0] = float32(float64(v[0]) * k)
	return v
}

//gtv:equiv (*Vec).ScaleAt
func spec__ScaleAt(v *Vec, k float64, out *Vec) *Vec {
	*out = *spec__Scale(v, k)
	return out
}

//gtv:equiv (*Vec).Mod
//gtv:assume spec__pos
func spec__Mod(v *Vec, width float64) *Vec {
	w := float32(width)
	return &Vec{spec__modc(v[0], w), spec__modc(v[1], w), spec__modc(v[2], w)}
}

//gtv:equiv (*Vec).ModSelf
//gtv:assume spec__pos
func spec__ModSelf(v *Vec, width float64) *Vec {
	*v = *spec__Mod(v, width)
	return v
}

//gtv:equiv (*Vec).ModAt
//gtv:assume spec__posAt
func spec__ModAt(v *Vec, width float64, out *Vec) *Vec {
	*out = *spec__Mod(v, width)
	return out
}

//gtv:equiv (*Vec).Add
func spec__Add(v1, v2 *Vec) *Vec {
	return &Vec{v1[0] + v2[0], v1[1] + v2[1], v1[2] + v2[2]}
}

//gtv:equiv (*Vec).AddSelf
func spec__AddSelf(v1, v2 *Vec) *Vec {
	*v1 = *spec__Add(v1, v2)
	return v1
}

//gtv:equiv (*Vec).AddAt
func spec__AddAt(v1, v2, out *Vec) *Vec {
	*out = *spec__Add(v1, v2)
	return out
}

//gtv:equiv (*Vec).Sub
//gtv:assume spec__inBox2
func spec__Sub(v1, v2 *Vec, width float64) *Vec {
	w := float32(width)
	return &Vec{spec__subc(v1[0], v2[0], w), spec__subc(v1[1], v2[1], w), spec__subc(v1[2], v2[2], w)}
}

//gtv:equiv (*Vec).SubSelf
//gtv:assume spec__inBox2
func spec__SubSelf(v1, v2 *Vec, width float64) *Vec {
	*v1 = *spec__Sub(v1, v2, width)
	return v1
}

//gtv:equiv (*Vec).SubAt
//gtv:assume spec__inBox3
func spec__SubAt(v1, v2 *Vec, width float64, out *Vec) *Vec {
	*out = *spec__Sub(v1, v2, width)
	return out
}

//gtv:equiv (*Vec).Norm
func spec__Norm(v *Vec) float64 {
	x, y, z := float64(v[0]), float64(v[1]), float64(v[2])
	return math.Sqrt(x*x + y*y + z*z)
}

//gtv:equiv (*Vec).Dot
func spec__Dot(v1, v2 *Vec) float64 {
	return float64(v1[0])*float64(v2[0]) + float64(v1[1])*float64(v2[1]) + float64(v1[2])*float64(v2[2])
}

//gtv:equiv (*Vec).Cross
func spec__Cross(v1, v2 *Vec) *Vec {
	return &Vec{
		v1[1]*v2[2] - v1[2]*v2[1],
		v1[2]*v2[0] - v1[0]*v2[2],
		v1[0]*v2[1] - v1[1]*v2[0],
	}
}

//gtv:equiv (*Vec).CrossSelf
func spec__CrossSelf(v1, v2 *Vec) *Vec {
	*v1 = *spec__Cross(v1, v2)
	return v1
}

//gtv:equiv (*Vec).CrossAt
func spec__CrossAt(v1, v2, out *Vec) *Vec {
	*out = *spec__Cross(v1, v2)
	return out
}

// ---- outputs written over an operand

func use__AddOver2(v1, v2 *Vec) *Vec { return v1.AddAt(v2, v2) }

//gtv:equiv use__AddOver2
func spec__AddOver2(v1, v2 *Vec) *Vec {
	*v2 = *spec__Add(v1, v2)
	return v2
}

func use__AddSame(v *Vec) *Vec { return v.AddSelf(v) }

//gtv:equiv use__AddSame
func spec__AddSame(v *Vec) *Vec {
	*v = *spec__Scale(v, 2)
	return v
}

func use__CrossOver2(v1, v2 *Vec) *Vec { return v1.CrossAt(v2, v2) }

//gtv:equiv use__CrossOver2
func spec__CrossOver2(v1, v2 *Vec) *Vec {
	*v2 = *spec__Cross(v1, v2)
	return v2
}

func use__CrossSame(v *Vec) *Vec { return v.CrossSelf(v) }

//gtv:equiv use__CrossSame
func spec__CrossSame(v *Vec) *Vec {
	*v = Vec{}
	return v
}

func use__SubOver2(v1, v2 *Vec, width float64) *Vec { return v1.SubAt(v2, width, v2) }

//gtv:equiv use__SubOver2
//gtv:assume spec__inBox2
func spec__SubOver2(v1, v2 *Vec, width float64) *Vec {
	*v2 = *spec__Sub(v1, v2, width)
	return v2
}

func use__ScaleAlias(v *Vec, k float64) *Vec { return v.ScaleAt(k, v) }

//gtv:equiv use__ScaleAlias
func spec__ScaleAlias(v *Vec, k float64) *Vec { return spec__ScaleSelf(v, k) }

// a value already inside the box is left alone, and one box-width outside is
// brought back inside
func use__ModInside(v *Vec, width float64) bool {
	ok := width > 0
	for i := 0; i < 3; i++ {
		ok = ok && float64(v[i]) >= -width && float64(v[i]) < 2*width
	}
	if !ok {
		return true
	}
	r := v.Mod(width)
	for i := 0; i < 3; i++ {
		if r[i] < 0 || float64(r[i]) >= width {
			return false
		}
	}
	return true
}

//gtv:equiv use__ModInside
func spec__ModInside(v *Vec, width float64) bool { return true }
