package io

import "github.com/phil-mansfield/gotetra/render/geom"

// ---- every particle that is appended ends up at its id, the last one last

func use__buffered(size int, xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64, cut int) {
	pb := NewParticleBuffer(xs, vs, size)
	pb.Append(x[:cut], v[:cut], id[:cut])
	pb.Append(x[cut:], v[cut:], id[cut:])
	pb.Flush()
}

func spec__placed(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	for i := range id {
		xs[id[i]-1], vs[id[i]-1] = x[i], v[i]
	}
}

func use__buffered1(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	use__buffered(1, xs, vs, x, v, id, 2)
}

//gtv:equiv use__buffered1
func spec__buffered1(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	spec__placed(xs, vs, x, v, id)
}

func use__buffered2(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	use__buffered(2, xs, vs, x, v, id, 3)
}

//gtv:equiv use__buffered2
func spec__buffered2(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	spec__placed(xs, vs, x, v, id)
}

func use__buffered3(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	use__buffered(3, xs, vs, x, v, id, 3)
}

//gtv:equiv use__buffered3
func spec__buffered3(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	spec__placed(xs, vs, x, v, id)
}

func use__buffered5(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	use__buffered(5, xs, vs, x, v, id, 2)
}

//gtv:equiv use__buffered5
func spec__buffered5(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	spec__placed(xs, vs, x, v, id)
}

func use__buffered9(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	use__buffered(9, xs, vs, x, v, id, 0)
}

//gtv:equiv use__buffered9
func spec__buffered9(xs, vs []geom.Vec, x, v [5]geom.Vec, id [5]int64) {
	spec__placed(xs, vs, x, v, id)
}
