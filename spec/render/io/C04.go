package io

import (
	"encoding/binary"
	"fmt"
	"os"

	"github.com/phil-mansfield/gotetra/render/geom"
)

// A sheet file: endianness flag (0, little), header size, header, positions,
// velocities, all little endian.
func use__writeSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
	WriteSheet(file, h, append([]geom.Vec(nil), xs...), append([]geom.Vec(nil), vs...))
}

//gtv:equiv use__writeSheet
func spec__writeSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
	n := h.GridWidth * h.GridWidth * h.GridWidth
	if int64(len(xs)) != n || int64(len(vs)) != n || h.GridCount != n {
		panic("wrong number of vectors")
	}
	f, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	binary.Write(f, binary.LittleEndian, int32(0))
	binary.Write(f, binary.LittleEndian, int32(152))
	binary.Write(f, binary.LittleEndian, h)
	binary.Write(f, binary.LittleEndian, xs)
	binary.Write(f, binary.LittleEndian, vs)
	f.Close()
}

func spec__sheetOrder(f *os.File) binary.ByteOrder {
	var flag int32
	if err := binary.Read(f, binary.LittleEndian, &flag); err != nil {
		panic(err)
	}
	switch flag {
	case 0:
		return binary.LittleEndian
	case -1:
		return binary.BigEndian
	}
	panic("flag")
}

func spec__sheetHeader(file string) (*SheetHeader, *os.File, binary.ByteOrder, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, nil, nil, err
	}
	order := spec__sheetOrder(f)
	var size int32
	if err := binary.Read(f, order, &size); err != nil {
		panic(err)
	}
	if size != 152 {
		return nil, nil, nil, fmt.Errorf("header size")
	}
	hd := &SheetHeader{}
	if err := binary.Read(f, order, hd); err != nil {
		return nil, nil, nil, err
	}
	hd.Count = hd.CountWidth * hd.CountWidth * hd.CountWidth
	return hd, f, order, nil
}

func use__readSheetHeader(file string, h *SheetHeader) error {
	var tmp SheetHeader
	if err := ReadSheetHeaderAt(file, &tmp); err != nil {
		return err
	}
	*h = tmp
	return nil
}

//gtv:equiv use__readSheetHeader
func spec__readSheetHeader(file string, h *SheetHeader) error {
	hd, _, _, err := spec__sheetHeader(file)
	if err != nil {
		return err
	}
	*h = *hd
	return nil
}

func use__readPositions(file string, buf []geom.Vec) error {
	tmp := make([]geom.Vec, len(buf))
	if err := ReadSheetPositionsAt(file, tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

//gtv:equiv use__readPositions
func spec__readPositions(file string, buf []geom.Vec) error {
	h, f, order, err := spec__sheetHeader(file)
	if err != nil {
		return err
	}
	if int64(len(buf)) != h.GridCount {
		return fmt.Errorf("wrong length")
	}
	tmp := make([]geom.Vec, len(buf))
	if err := binary.Read(f, order, tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

func use__readVelocities(file string, buf []geom.Vec) error {
	tmp := make([]geom.Vec, len(buf))
	if err := ReadSheetVelocitiesAt(file, tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}

// velocities follow the positions
//
//gtv:equiv use__readVelocities
func spec__readVelocities(file string, buf []geom.Vec) error {
	h, f, order, err := spec__sheetHeader(file)
	if err != nil {
		return err
	}
	if int64(len(buf)) != h.GridCount {
		return fmt.Errorf("wrong length")
	}
	f.Seek(int64(12*len(buf)), 1)
	tmp := make([]geom.Vec, len(buf))
	if err := binary.Read(f, order, tmp); err != nil {
		return err
	}
	copy(buf, tmp)
	return nil
}
