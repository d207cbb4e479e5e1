package render

import (
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

func spec__manager(hd *io.SheetHeader, q density.Quantity, cells int) (*renderer, *Manager) {
	b := &box3D{}
	b.cells = cells
	return &renderer{box: b}, &Manager{hd: *hd, q: q}
}

func use__value(hd *io.SheetHeader, cells int) (density_, gradient, velocity, curl, div float64) {
	vals := [5]float64{}
	for i, q := range [5]density.Quantity{density.Density, density.DensityGradient, density.Velocity, density.VelocityCurl, density.VelocityDivergence} {
		r, m := spec__manager(hd, q, cells)
		vals[i] = r.ptVal(m)
	}
	return vals[0], vals[1], vals[2], vals[3], vals[4]
}

// a particle's mass in units of the mean mass of a pixel
//
//gtv:equiv use__value
func spec__value(hd *io.SheetHeader, cells int) (density_, gradient, velocity, curl, div float64) {
	r := float64(cells) / float64(hd.CountWidth)
	return r * r * r, r * r * r, 1, 1, 1
}

// every worker is given every cube it must handle: together they take each
// cube of the segment once
func use__split(hd *io.SheetHeader, skip, cells, points int, unit [][]geom.Vec) (low, high [3]int) {
	r, m := spec__manager(hd, density.Density, cells)
	r.box.(*box3D).pts = points
	r.over = &domainOverlap3D{}
	m.skip = skip
	m.workers = 3
	m.workspaces = make([]workspace, 3)
	for i := range m.workspaces {
		m.workspaces[i].buf = density.NewBuffer(density.Density, 0, 0, nil)
	}
	r.initWorkspaces(m)
	for i := 0; i < 3; i++ {
		low[i], high[i] = m.workspaces[i].lowX, m.workspaces[i].highX
	}
	return low, high
}

//gtv:equiv use__split
//gtv:opaque density.MonteCarlo
func spec__split(hd *io.SheetHeader, skip, cells, points int, unit [][]geom.Vec) (low, high [3]int) {
	n := int(hd.SegmentWidth) / skip
	density.MonteCarlo(0, 0, 0, 0, nil, nil)
	return [3]int{0, 1, 2}, [3]int{n * n * n, n * n * n, n * n * n}
}
