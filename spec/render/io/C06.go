package io

import (
	"encoding/binary"
	"io"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
)

func use__order(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// a block read in one piece is the block read element by element in the
// file's byte order
func use__readVec(path string, big bool, buf []geom.Vec) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	// what a failed read leaves behind is nobody's business
	tmp := make([]geom.Vec, len(buf))
	if err := readVecAsByte(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

//gtv:equiv use__readVec
func spec__readVec(path string, big bool, buf []geom.Vec) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	tmp := make([]geom.Vec, len(buf))
	if err := binary.Read(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

func use__readVec64(path string, big bool, buf []geom.Vec) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	// what a failed read leaves behind is nobody's business
	tmp := make([]geom.Vec, len(buf))
	if err := readVec64AsByte(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

//gtv:equiv use__readVec64
func spec__readVec64(path string, big bool, buf []geom.Vec) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	xs := make([][3]float64, len(buf))
	if err := binary.Read(f, use__order(big), xs); err != nil {
		return err
	}
	for i := range buf {
		for j := 0; j < 3; j++ {
			buf[i][j] = float32(xs[i][j])
		}
	}
	return nil
}

func use__readInt64(path string, big bool, buf []int64) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	// what a failed read leaves behind is nobody's business
	tmp := make([]int64, len(buf))
	if err := readInt64AsByte(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

//gtv:equiv use__readInt64
func spec__readInt64(path string, big bool, buf []int64) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	tmp := make([]int64, len(buf))
	if err := binary.Read(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

func use__readInt32(path string, big bool, buf []int64) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	// what a failed read leaves behind is nobody's business
	tmp := make([]int64, len(buf))
	if err := readInt32AsByte(f, use__order(big), tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

//gtv:equiv use__readInt32
func spec__readInt32(path string, big bool, buf []int64) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	ids := make([]int32, len(buf))
	if err := binary.Read(f, use__order(big), ids); err != nil {
		return err
	}
	for i := range buf {
		buf[i] = int64(ids[i])
	}
	return nil
}

func use__readOne(path string, big bool) int32 {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	return readInt32(f, use__order(big))
}

//gtv:equiv use__readOne
func spec__readOne(path string, big bool) int32 {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	var n int32
	if err := binary.Read(f, use__order(big), &n); err != nil {
		panic(err)
	}
	return n
}

func use__writeVec(path string, big bool, buf []geom.Vec) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	if err := writeVecAsByte(f, use__order(big), append([]geom.Vec(nil), buf...)); err != nil {
		panic(err)
	}
	f.Close()
}

//gtv:equiv use__writeVec
func spec__writeVec(path string, big bool, buf []geom.Vec) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	if err := binary.Write(f, use__order(big), buf); err != nil {
		panic(err)
	}
	f.Close()
}

//gtv:equiv isSysOrder
func spec__isSysOrder(end binary.ByteOrder) bool {
	return binary.LittleEndian == end
}

// native order is used as is
var _ io.Reader
