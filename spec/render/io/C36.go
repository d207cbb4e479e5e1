package io

import (
	"encoding/binary"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
)

// The 256 byte header of a Gadget-2 snapshot.
type spec__gadget struct {
	NPart                     [6]uint32
	Mass                      [6]float64
	Time, Redshift            float64
	Sfr, Feedback             int32
	NPartTotal                [6]uint32
	Cooling, NumFiles         int32
	BoxSize, Om0, OmL, Hubble float64
	Age, Tab                  int32
	Padding                   [88]byte
}

func spec__block(f *os.File, order binary.ByteOrder) int32 {
	var n int32
	if err := binary.Read(f, order, &n); err != nil {
		panic(err)
	}
	return n
}

func spec__gadgetOpen(path string, order binary.ByteOrder) (*os.File, *spec__gadget) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	gh := &spec__gadget{}
	spec__block(f, order)
	if err := binary.Read(f, order, gh); err != nil {
		panic(err)
	}
	return f, gh
}

func use__gadgetHeader(path string, big bool, variant string) CatalogHeader {
	return *ReadGadgetHeader(path, use__order(big), variant)
}

// counts of dark matter particles (type 1); type 0 holds the high words
//
//gtv:equiv use__gadgetHeader
func spec__gadgetHeader(path string, big bool, variant string) CatalogHeader {
	_, gh := spec__gadgetOpen(path, use__order(big))
	return spec__standard(gh)
}

func spec__standard(gh *spec__gadget) CatalogHeader {
	h := CatalogHeader{}
	h.Cosmo = CosmologyHeader{gh.Redshift, gh.Om0, gh.OmL, gh.Hubble}
	h.Mass = gh.Mass[1]
	h.Count = int64(gh.NPart[1])
	h.TotalCount = int64(gh.NPartTotal[1])
	h.TotalWidth = gh.BoxSize
	h.Width = -1
	return h
}

func spec__vecs(f *os.File, order binary.ByteOrder, n uint32, size int32, buf []geom.Vec) {
	if size == int32(12*n) {
		if err := binary.Read(f, order, buf); err != nil {
			panic(err)
		}
		return
	}
	if size != 2*int32(12*n) {
		panic("block size")
	}
	xs := make([][3]float64, len(buf))
	if err := binary.Read(f, order, xs); err != nil {
		panic(err)
	}
	for i := range buf {
		for j := 0; j < 3; j++ {
			buf[i][j] = float32(xs[i][j])
		}
	}
}

func use__gadgetLE(path, variant string) (xs, vs []geom.Vec) {
	_, xs, vs, _ = ReadGadget(path, use__order(false), 64, variant)
	return xs, vs
}

//gtv:equiv use__gadgetLE
func spec__gadgetVecsLE(path, variant string) (xs, vs []geom.Vec) {
	xs, vs, _ = spec__snapshot(path, false, 64)
	return xs, vs
}

func use__gadgetIds64LE(path, variant string) []int64 {
	_, _, _, ids := ReadGadget(path, use__order(false), 64, variant)
	return ids
}

//gtv:equiv use__gadgetIds64LE
func spec__gadgetIds64LE(path, variant string) []int64 {
	_, _, ids := spec__snapshot(path, false, 64)
	return ids
}

func use__gadgetIds32LE(path, variant string) []int64 {
	_, _, _, ids := ReadGadget(path, use__order(false), 32, variant)
	return ids
}

//gtv:equiv use__gadgetIds32LE
func spec__gadgetIds32LE(path, variant string) []int64 {
	_, _, ids := spec__snapshot(path, false, 32)
	return ids
}

func use__gadgetBE(path, variant string) (xs, vs []geom.Vec) {
	_, xs, vs, _ = ReadGadget(path, use__order(true), 64, variant)
	return xs, vs
}

//gtv:equiv use__gadgetBE
func spec__gadgetVecsBE(path, variant string) (xs, vs []geom.Vec) {
	xs, vs, _ = spec__snapshot(path, true, 64)
	return xs, vs
}

func use__gadgetIds64BE(path, variant string) []int64 {
	_, _, _, ids := ReadGadget(path, use__order(true), 64, variant)
	return ids
}

//gtv:equiv use__gadgetIds64BE
func spec__gadgetIds64BE(path, variant string) []int64 {
	_, _, ids := spec__snapshot(path, true, 64)
	return ids
}

func use__gadgetIds32BE(path, variant string) []int64 {
	_, _, _, ids := ReadGadget(path, use__order(true), 32, variant)
	return ids
}

//gtv:equiv use__gadgetIds32BE
func spec__gadgetIds32BE(path, variant string) []int64 {
	_, _, ids := spec__snapshot(path, true, 32)
	return ids
}

// header block, position block, velocity block, id block, each between its
// sizes; positions wrapped into the box, velocities times sqrt(a)
func spec__snapshot(path string, big bool, idSize int) (xs, vs []geom.Vec, ids []int64) {
	order := use__order(big)
	f, gh := spec__gadgetOpen(path, order)
	spec__block(f, order)
	n := int(gh.NPart[1])
	xs, vs, ids = make([]geom.Vec, n), make([]geom.Vec, n), make([]int64, n)
	spec__vecs(f, order, gh.NPart[1], spec__block(f, order), xs)
	spec__block(f, order)
	spec__vecs(f, order, gh.NPart[1], spec__block(f, order), vs)
	spec__block(f, order)
	spec__block(f, order)
	if idSize == 64 {
		if err := binary.Read(f, order, ids); err != nil {
			panic(err)
		}
	} else {
		tmp := make([]int32, n)
		if err := binary.Read(f, order, tmp); err != nil {
			panic(err)
		}
		for i := range ids {
			ids[i] = int64(tmp[i])
		}
	}
	for i := range xs {
		for j := 0; j < 3; j++ {
			x := float64(xs[i][j])
			if x < 0 {
				x += gh.BoxSize
			} else if x >= gh.BoxSize {
				x -= gh.BoxSize
			}
			xs[i][j] = float32(x)
			vs[i][j] *= float32(math.Sqrt(gh.Time))
		}
	}
	return xs, vs, ids
}

func use__order(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}
