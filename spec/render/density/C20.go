package density

import "github.com/phil-mansfield/gotetra/render/geom"

// ---- there is one count for every total

func spec__even(b Buffer) {
	switch v := b.(type) {
	case *velocityBuffer:
		v.num = v.num[:len(v.vecs)]
	case *divergenceBuffer:
		v.num = v.num[:len(v.vecs)]
	case *curlBuffer:
		v.num = v.num[:len(v.vecs)]
	}
}

// ---- a buffer's finished form: totals, or totals over counts (0 where
// nothing was counted), or derivatives of those on the periodic grid

func spec__mean(vecs [][3]float64, num []int) (out [3][]float32) {
	for j := range out {
		out[j] = make([]float32, len(vecs))
		for i := range vecs {
			if num[i] != 0 {
				out[j][i] = float32(vecs[i][j]) / float32(num[i])
			}
		}
	}
	return out
}

func spec__all(b Buffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	s, sok = b.FinalizedScalarBuffer()
	if !sok {
		s = nil
	}
	xs, ys, zs, vok = b.FinalizedVectorBuffer()
	if !vok {
		xs, ys, zs = nil, nil, nil
	}
	return s, sok, xs, ys, zs, vok
}

func use__density(b *densityBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	return spec__all(b)
}

//gtv:equiv use__density
func spec__density(b *densityBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	s = make([]float32, len(b.vals))
	for i := range s {
		s[i] = float32(b.vals[i])
	}
	return s, true, nil, nil, nil, false
}

func use__wrapped(rhos []float64) (s []float32, sok bool, q Quantity) {
	b := WrapperDensityBuffer(rhos)
	s, sok = b.FinalizedScalarBuffer()
	return s, sok, b.Quantity()
}

//gtv:equiv use__wrapped
func spec__wrapped(rhos []float64) (s []float32, sok bool, q Quantity) {
	s = make([]float32, len(rhos))
	for i := range s {
		s[i] = float32(rhos[i])
	}
	return s, true, Density
}

func use__gradient(b *gradientBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	return spec__all(b)
}

//gtv:equiv use__gradient
//gtv:effect (*geom.GridLocation).Gradient 2
func spec__gradient(b *gradientBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	n := len(b.vals)
	in := make([]float32, n)
	for i := range in {
		in[i] = float32(b.vals[i])
	}
	out := [3][]float32{make([]float32, n), make([]float32, n), make([]float32, n)}
	b.g.Gradient(in, out, &geom.DerivOptions{Periodic: true, Op: geom.None, Order: 4})
	return nil, false, out[0], out[1], out[2], true
}

func use__velocity(b *velocityBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	return spec__all(b)
}

//gtv:equiv use__velocity
func spec__velocity(b *velocityBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	m := spec__mean(b.vecs, b.num)
	return nil, false, m[0], m[1], m[2], true
}

func use__divergence(b *divergenceBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	return spec__all(b)
}

//gtv:equiv use__divergence
//gtv:effect (*geom.GridLocation).Divergence 2
func spec__divergence(b *divergenceBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	out := make([]float32, len(b.vecs))
	b.g.Divergence(spec__mean(b.vecs, b.num), out, &geom.DerivOptions{Periodic: true, Op: geom.None, Order: 4})
	return out, true, nil, nil, nil, false
}

func use__curl(b *curlBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	return spec__all(b)
}

//gtv:equiv use__curl
//gtv:effect (*geom.GridLocation).Curl 2
func spec__curl(b *curlBuffer) (s []float32, sok bool, xs, ys, zs []float32, vok bool) {
	spec__even(b)
	n := len(b.vecs)
	out := [3][]float32{make([]float32, n), make([]float32, n), make([]float32, n)}
	b.g.Curl(spec__mean(b.vecs, b.num), out, &geom.DerivOptions{Periodic: true, Op: geom.None, Order: 4})
	return nil, false, out[0], out[1], out[2], true
}

// ---- access to what a buffer holds

func use__parts(b Buffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	s, sok = b.ScalarBuffer()
	if !sok {
		s = nil
	}
	v, vok = b.VectorBuffer()
	if !vok {
		v = nil
	}
	n, nok = b.CountBuffer()
	if !nok {
		n = nil
	}
	return s, sok, v, vok, n, nok, b.Length()
}

func use__partsD(b *densityBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return use__parts(b)
}

//gtv:equiv use__partsD
func spec__partsD(b *densityBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return b.vals, true, nil, false, nil, false, len(b.vals)
}

func use__partsG(b *gradientBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return use__parts(b)
}

//gtv:equiv use__partsG
func spec__partsG(b *gradientBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return b.vals, true, nil, false, nil, false, len(b.vals)
}

func use__partsV(b *velocityBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return use__parts(b)
}

//gtv:equiv use__partsV
func spec__partsV(b *velocityBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return nil, false, b.vecs, true, b.num, true, len(b.vecs)
}

func use__partsVD(b *divergenceBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return use__parts(b)
}

//gtv:equiv use__partsVD
func spec__partsVD(b *divergenceBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return nil, false, b.vecs, true, b.num, true, len(b.vecs)
}

func use__partsVC(b *curlBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return use__parts(b)
}

//gtv:equiv use__partsVC
func spec__partsVC(b *curlBuffer) (s []float64, sok bool, v [][3]float64, vok bool, n []int, nok bool, l int) {
	return nil, false, b.vecs, true, b.num, true, len(b.vecs)
}

// ---- clearing empties totals and counts

func use__clear(d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer) {
	for _, b := range []Buffer{d, g, v, dv, c} {
		spec__even(b)
		b.Clear()
	}
}

func spec__zero(vecs [][3]float64, num []int) {
	for i := range vecs {
		vecs[i] = [3]float64{}
		num[i] = 0
	}
}

//gtv:equiv use__clear
func spec__clear(d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer) {
	for i := range d.vals {
		d.vals[i] = 0
	}
	for i := range g.vals {
		g.vals[i] = 0
	}
	spec__even(v)
	spec__zero(v.vecs, v.num)
	spec__even(dv)
	spec__zero(dv.vecs, dv.num)
	spec__even(c)
	spec__zero(c.vecs, c.num)
}

// ---- narrowing keeps totals and counts together

func use__slice(low, high int, d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer) {
	for _, b := range []Buffer{d, g, v, dv, c} {
		b.Slice(low, high)
	}
}

//gtv:equiv use__slice
func spec__slice(low, high int, d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer) {
	d.vals = d.vals[low:high]
	g.vals = g.vals[low:high]
	v.vecs, v.num = v.vecs[low:high], v.num[low:high]
	dv.vecs, dv.num = dv.vecs[low:high], dv.num[low:high]
	c.vecs, c.num = c.vecs[low:high], c.num[low:high]
}

// ---- a new buffer is empty, of the asked kind and length

func use__new(q Quantity, n, w int, g *geom.GridLocation) (Quantity, []float64, [][3]float64, []int, int, int) {
	b := NewBuffer(q, n, w, g)
	s, _, v, _, k, _, l := use__parts(b)
	wl := -1
	switch c := b.(type) {
	case *velocityBuffer:
		wl = len(c.weights.vecs)
	case *divergenceBuffer:
		wl = len(c.weights.vecs)
	case *curlBuffer:
		wl = len(c.weights.vecs)
	}
	return b.Quantity(), s, v, k, l, wl
}

//gtv:equiv use__new
func spec__new(q Quantity, n, w int, g *geom.GridLocation) (Quantity, []float64, [][3]float64, []int, int, int) {
	switch q {
	case Density, DensityGradient:
		return q, make([]float64, n), nil, nil, n, -1
	case Velocity, VelocityDivergence, VelocityCurl:
		return q, nil, make([][3]float64, n), make([]int, n), n, w
	}
	panic("quantity")
}

func use__location(q Quantity, g, g2 *geom.GridLocation, again bool) *geom.GridLocation {
	b := NewBuffer(q, 1, 1, g)
	if again {
		b.SetGridLocation(g2)
	}
	switch c := b.(type) {
	case *gradientBuffer:
		return c.g
	case *divergenceBuffer:
		return c.g
	case *curlBuffer:
		return c.g
	}
	return nil
}

//gtv:equiv use__location
func spec__location(q Quantity, g, g2 *geom.GridLocation, again bool) *geom.GridLocation {
	if q < 0 || q > 4 {
		panic("quantity")
	}
	if q != DensityGradient && q != VelocityDivergence && q != VelocityCurl {
		return nil
	}
	if again {
		return g2
	}
	return g
}

func use__setVectors(d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer, vecs []geom.Vec) (a, b, e, f, h bool) {
	return d.SetVectors(vecs), g.SetVectors(vecs), v.SetVectors(vecs), dv.SetVectors(vecs), c.SetVectors(vecs)
}

//gtv:equiv use__setVectors
func spec__setVectors(d *densityBuffer, g *gradientBuffer, v *velocityBuffer, dv *divergenceBuffer, c *curlBuffer, vecs []geom.Vec) (a, b, e, f, h bool) {
	for _, to := range [][][3]float64{v.vecs, dv.vecs, c.vecs} {
		for i := range vecs {
			for j := range vecs[i] {
				to[i][j] = float64(vecs[i][j])
			}
		}
	}
	return false, false, true, true, true
}
