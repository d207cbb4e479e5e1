package io

import (
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
)

// the cells from the one holding the segment's lower corner to the one holding
// its upper corner
//
//gtv:equiv (*SheetHeader).CellBounds
//gtv:assume spec__sheetOK
func spec__CellBounds(hd *SheetHeader, cells int) *geom.CellBounds {
	cb := &geom.CellBounds{}
	for j := 0; j < 3; j++ {
		first := int(math.Floor(float64(hd.Origin[j]) * float64(cells) / hd.TotalWidth))
		last := int(math.Floor(float64(hd.Origin[j]+hd.Width[j]) * float64(cells) / hd.TotalWidth))
		cb.Origin[j], cb.Width[j] = first, last-first+1
	}
	return cb
}

func spec__sheetOK(hd *SheetHeader, cells int) bool { return cells > 0 && hd.TotalWidth > 0 }
