package geom

// ---- vector operators in terms of single derivatives along one axis

// the caller's options, and a copy that combines with what is already there
func spec__opts(op *DerivOptions) (plain, sub, add *DerivOptions) {
	if op == nil {
		op = &DerivOptions{Periodic: false, Op: None, Order: 4}
	}
	return &DerivOptions{op.Periodic, op.Op, op.Order}, &DerivOptions{op.Periodic, Subtract, op.Order}, &DerivOptions{op.Periodic, Add, op.Order}
}

// curl_i = d_j v_k - d_k v_j for (i,j,k) cyclic; the options and inputs stay as they were
//
//gtv:equiv (*GridLocation).Curl
//gtv:effect (*geom.GridLocation).Deriv 2
func spec__Curl(g *GridLocation, v, out [3][]float32, op *DerivOptions) {
	plain, sub, _ := spec__opts(op)
	for i := 0; i < 3; i++ {
		j, k := (i+1)%3, (i+2)%3
		g.Deriv(v[k], out[i], j, plain)
		g.Deriv(v[j], out[i], k, sub)
	}
}

//gtv:equiv (*GridLocation).Divergence
//gtv:effect (*geom.GridLocation).Deriv 2
func spec__Divergence(g *GridLocation, v [3][]float32, out []float32, op *DerivOptions) {
	plain, _, add := spec__opts(op)
	g.Deriv(v[0], out, 0, plain)
	g.Deriv(v[1], out, 1, add)
	g.Deriv(v[2], out, 2, add)
}

//gtv:equiv (*GridLocation).Gradient
//gtv:effect (*geom.GridLocation).Deriv 2
func spec__Gradient(g *GridLocation, v []float32, out [3][]float32, op *DerivOptions) {
	plain, _, _ := spec__opts(op)
	for i := 2; i >= 0; i-- {
		g.Deriv(v, out[i], i, plain)
	}
}

// asking repeatedly, with shared or default options, gives the same operators
func use__repeat(g *GridLocation, v, out, out2 [3][]float32, d []float32) {
	g.Curl(v, out, nil)
	g.Divergence(v, d, nil)
	g.Curl(v, out2, nil)
}

//gtv:equiv use__repeat
//gtv:effect (*geom.GridLocation).Deriv 2
func spec__repeat(g *GridLocation, v, out, out2 [3][]float32, d []float32) {
	spec__Curl(g, v, out, &DerivOptions{false, None, 4})
	spec__Curl(g, v, out2, &DerivOptions{false, None, 4})
	spec__Divergence(g, v, d, &DerivOptions{false, None, 4})
}

func use__shared(g *GridLocation, v, out, out2 [3][]float32, d []float32, op *DerivOptions) DerivOptions {
	g.Curl(v, out, op)
	g.Divergence(v, d, op)
	g.Gradient(d, out2, op)
	return *op
}

//gtv:equiv use__shared
//gtv:assume spec__given
//gtv:effect (*geom.GridLocation).Deriv 2
func spec__shared(g *GridLocation, v, out, out2 [3][]float32, d []float32, op *DerivOptions) DerivOptions {
	was := *op
	spec__Curl(g, v, out, op)
	spec__Divergence(g, v, d, op)
	spec__Gradient(g, d, out2, op)
	return was
}

func spec__given(g *GridLocation, v, out, out2 [3][]float32, d []float32, op *DerivOptions) bool {
	return op != nil
}
