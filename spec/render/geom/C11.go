package geom

// the four corners of every tetrahedron anchored at one lattice point
func use__tiles(idx, w, skip int64) (out [6][4]int64) {
	for d := 0; d < TetraDirCount; d++ {
		out[d] = *NewTetraIdxs(idx, w, skip, d)
	}
	return out
}

// reused index buffers must not matter
func use__tilesReused(t *TetraIdxs, idx, w, skip int64) (out [6][4]int64) {
	for d := 0; d < TetraDirCount; d++ {
		t.Init(idx, w, skip, d)
		out[d] = *t
	}
	return out
}

func use__tilesCartesian(t *TetraIdxs, x, y, z, w int64) (out [6][4]int64) {
	for d := 0; d < TetraDirCount; d++ {
		t.InitCartesian(x, y, z, w, d)
		out[d] = *t
	}
	return out
}

func use__tilesCentered(t *TetraIdxs, idx, w, skip int64) (out [8][4]int64, ok [8]bool) {
	for d := 0; d < TetraCenteredCount; d++ {
		_, ok[d] = t.InitCentered(idx, w, skip, d)
		out[d] = *t
	}
	return out, ok
}

func use__badDir(t *TetraIdxs, idx, w, skip int64, dir int) {
	if dir < 0 || dir > 5 {
		t.Init(idx, w, skip, dir)
	}
}

//gtv:equiv use__badDir
func spec__badDir(t *TetraIdxs, idx, w, skip int64, dir int) {
	if dir < 0 || dir > 5 {
		panic("rejected")
	}
}

func use__badCentered(t *TetraIdxs, idx, w, skip int64, dir int) {
	if dir < 0 || dir > 7 {
		t.InitCentered(idx, w, skip, dir)
	}
}

//gtv:equiv use__badCentered
//gtv:assume spec__dirOut
func spec__badCentered(t *TetraIdxs, idx, w, skip int64, dir int) {
	panic("rejected")
}

func spec__dirOut(t *TetraIdxs, idx, w, skip int64, dir int) bool { return dir < 0 || dir > 7 }

// an octant is usable exactly if its three neighbours are on the lattice
func use__octant(idx, w, skip int64) (ok [8]bool) {
	t := &TetraIdxs{}
	for d := 0; d < 8; d++ {
		_, ok[d] = t.InitCentered(idx, w, skip, d)
	}
	return ok
}

func spec__lattice(idx, w, skip int64) bool {
	return idx >= 0 && w > 0 && skip > 0 && idx/(w*w) < w
}

//gtv:equiv use__octant
//gtv:assume spec__lattice
func spec__octant(idx, w, skip int64) (ok [8]bool) {
	x, y, z := idx%w, idx%(w*w)/w, idx/(w*w)
	fits := func(c int64, neg bool) bool {
		if neg {
			c -= skip
		} else {
			c += skip
		}
		return c >= 0 && c < w
	}
	for d := 0; d < 8; d++ {
		ok[d] = fits(z, d&4 != 0) && fits(y, d&2 != 0) && fits(x, d&1 != 0)
	}
	return ok
}
