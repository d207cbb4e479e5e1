package main

import (
	"encoding/binary"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
)

// ---- stand-ins: two snapshot files with one and two particles

func spec__header01(file string, order binary.ByteOrder, kind string) *io.CatalogHeader {
	hd := &io.CatalogHeader{Mass: spec__mass(file), TotalWidth: spec__width(file), Count: 1, TotalCount: 8}
	if file == "b" {
		hd.Count = 2
	}
	if order != binary.ByteOrder(binary.LittleEndian) || kind != "kind" {
		hd.Count = 0
	}
	return hd
}

func spec__mass(file string) float64  { return 0 }
func spec__width(file string) float64 { return 0 }

func spec__particles01(file string, order binary.ByteOrder, xs, vs []geom.Vec, ids []int64, idSize int, kind string) {
	for i := range ids {
		ids[i] = spec__id(file, i, idSize)
		for k := 0; k < 3; k++ {
			xs[i][k], vs[i][k] = spec__pos(file, i, k), spec__vel(file, i, k)
		}
	}
}

func spec__id(file string, i, idSize int) int64 { return 0 }
func spec__pos(file string, i, k int) float32   { return 0 }
func spec__vel(file string, i, k int) float32   { return 0 }

func spec__root(n int64) int64 { return n / 4 }

func use__grid(idSize int, xu, vu, mu float64) (hd io.CatalogHeader, xs, vs []geom.Vec) {
	con := &io.ConvertSnapshotConfig{XUnits: xu, VUnits: vu, MUnits: mu, InputFormat: "kind"}
	h, xs, vs := createGrids([]string{"a", "b"}, idSize, con)
	return *h, xs, vs
}

//gtv:equiv use__grid
//gtv:model io.ReadGadgetHeader spec__header01
//gtv:model io.ReadGadgetParticlesAt spec__particles01
//gtv:model main.intCubeRoot spec__root
//gtv:opaque main.spec__mass main.spec__width main.spec__id main.spec__pos main.spec__vel
func spec__grid(idSize int, xu, vu, mu float64) (hd io.CatalogHeader, xs, vs []geom.Vec) {
	hd.Mass, hd.TotalWidth = spec__mass("a")*mu, spec__width("a")*xu
	hd.Count, hd.TotalCount, hd.CountWidth = 1, 8, 2
	xs, vs = make([]geom.Vec, hd.TotalCount), make([]geom.Vec, hd.TotalCount)
	for i := 0; i < 3; i++ {
		f, j := "a", i
		if i > 0 {
			f, j = "b", i-1
		}
		at := spec__id(f, j, idSize) - 1
		for k := 0; k < 3; k++ {
			xs[at][k] = spec__pos(f, j, k) * float32(xu)
			vs[at][k] = spec__vel(f, j, k) * float32(vu)
		}
	}
	return hd, xs, vs
}

// ---- every snapshot in the range is converted, from its own directory into
// its own directory

type spec__entry struct {
	os.FileInfo
	name string
}

func (e spec__entry) Name() string { return e.name }

type spec__noDir struct{}

func (spec__noDir) Error() string { return "" }

// the directories in3 to in6 and in are there
func spec__list(dir string) ([]os.FileInfo, error) {
	switch dir {
	case "in3", "in4", "in5", "in6", "in":
		return []os.FileInfo{spec__entry{name: "x"}, spec__entry{name: "y"}}, nil
	}
	return nil, spec__noDir{}
}

func spec__mkdir(dir string, perm os.FileMode) error {
	spec__done = spec__did(spec__done, dir, 0)
	return nil
}

var spec__done float64

func spec__did(done float64, what string, n int) float64 { return 0 }

func spec__read01(files []string, idSize int, con *io.ConvertSnapshotConfig) (*io.CatalogHeader, []geom.Vec, []geom.Vec) {
	for _, f := range files {
		spec__done = spec__did(spec__done, f, idSize)
	}
	return &io.CatalogHeader{Count: int64(len(files))}, make([]geom.Vec, len(files)+1), make([]geom.Vec, len(files)+2)
}

func spec__write01(dir string, hd *io.CatalogHeader, cells int, xs, vs []geom.Vec) {
	spec__done = spec__did(spec__done, dir, cells+100*int(hd.Count)+1000*len(xs)+10000*len(vs))
}

func use__convert(con *io.ConvertSnapshotConfig) float64 {
	spec__done = 0
	con.Cells, con.Gadget2IDSize = 7, 32
	lGadget2Main(con)
	d := spec__done
	spec__done = 0
	return d
}

func spec__convert(done float64, in, out string) float64 {
	done = spec__did(done, in+"/x", 32)
	done = spec__did(done, in+"/y", 32)
	done = spec__did(done, out, 0)
	return spec__did(done, out, 7+200+3000+40000)
}

func use__convertOne(start, end int) float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: start, IterationEnd: end}
	con.Input, con.Output = "in", "out"
	return use__convert(con)
}

//gtv:equiv use__convertOne
//gtv:model io/ioutil.ReadDir spec__list
//gtv:model os.MkdirAll spec__mkdir
//gtv:model main.createGrids spec__read01
//gtv:model main.writeGrids spec__write01
//gtv:opaque main.spec__did
func spec__convertOne(start, end int) float64 {
	spec__done = 0
	return spec__convert(0, "in", "out")
}

func use__convertRange() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 3, IterationEnd: 5, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertRange
//gtv:model io/ioutil.ReadDir spec__list
//gtv:model os.MkdirAll spec__mkdir
//gtv:model main.createGrids spec__read01
//gtv:model main.writeGrids spec__write01
//gtv:opaque main.spec__did
func spec__convertRange() float64 {
	spec__done = 0
	d := 0.0
	d = spec__convert(d, "in3", "out003")
	d = spec__convert(d, "in4", "out004")
	d = spec__convert(d, "in5", "out005")
	return d
}

func use__convertSame() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 4, IterationEnd: 4, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertSame
//gtv:model io/ioutil.ReadDir spec__list
//gtv:model os.MkdirAll spec__mkdir
//gtv:model main.createGrids spec__read01
//gtv:model main.writeGrids spec__write01
//gtv:opaque main.spec__did
func spec__convertSame() float64 {
	spec__done = 0
	d := 0.0
	d = spec__convert(d, "in4", "out004")
	return d
}

func use__convertOpen() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 4, IterationEnd: -1, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertOpen
//gtv:model io/ioutil.ReadDir spec__list
//gtv:model os.MkdirAll spec__mkdir
//gtv:model main.createGrids spec__read01
//gtv:model main.writeGrids spec__write01
//gtv:opaque main.spec__did
func spec__convertOpen() float64 {
	spec__done = 0
	d := 0.0
	d = spec__convert(d, "in4", "out004")
	d = spec__convert(d, "in5", "out005")
	d = spec__convert(d, "in6", "out006")
	return d
}

func use__convertMissing() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 6, IterationEnd: 8, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertMissing
//gtv:model io/ioutil.ReadDir spec__list
//gtv:model os.MkdirAll spec__mkdir
//gtv:model main.createGrids spec__read01
//gtv:model main.writeGrids spec__write01
//gtv:opaque main.spec__did
func spec__convertMissing() float64 {
	spec__done = 0
	panic("a snapshot is missing")
}

func use__convertNone() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 2, IterationEnd: -1, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertNone
//gtv:model io/ioutil.ReadDir spec__list
func spec__convertNone() float64 {
	spec__done = 0
	panic("a snapshot is missing")
}

func use__convertZero() float64 {
	con := &io.ConvertSnapshotConfig{IterationStart: 0, IterationEnd: 0, IteratedInput: "in%d", IteratedOutput: "out%03d"}
	return use__convert(con)
}

//gtv:equiv use__convertZero
//gtv:model io/ioutil.ReadDir spec__list
func spec__convertZero() float64 {
	spec__done = 0
	panic("a snapshot is missing")
}
