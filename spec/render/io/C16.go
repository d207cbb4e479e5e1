package io

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/density"
)

// the header, field by field in file order (344 bytes)
type spec__header struct {
	Flag                                                            uint64
	HeaderSize, GridType, IsVector                                  int64
	Z, A, OmegaM, OmegaL, H0, RhoMean, RhoCritical, BoxWidth        float64
	Particles, TotalPixels, SubsampleLength, MinProjectionDepth, Ax int64
	Origin, Span                                                    [3]float64
	PixelOrigin, PixelSpan                                          [3]int64
	PixelWidth                                                      float64
	_, _                                                            [3]float64
	_, _                                                            [3]int64
	_                                                               float64
}

func spec__fill(c *CosmoInfo, r *RenderInfo, l *LocationInfo, q density.Quantity, vec int64) *spec__header {
	h := &spec__header{}
	h.Flag = 0x7ffffffffffffffe
	h.HeaderSize = 344
	h.GridType = int64(q)
	h.IsVector = vec
	h.Z, h.A, h.OmegaM, h.OmegaL, h.H0 = c.Redshift, c.ScaleFactor, c.OmegaM, c.OmegaL, c.Hubble
	h.RhoMean, h.RhoCritical, h.BoxWidth = c.RhoMean, c.RhoCritical, c.BoxWidth
	h.Particles, h.TotalPixels, h.SubsampleLength = r.Particles, r.TotalPixels, r.SubsampleLength
	h.MinProjectionDepth, h.Ax = r.MinProjectionDepth, r.ProjectionAxis
	h.Origin, h.Span, h.PixelOrigin, h.PixelSpan = l.Origin, l.Span, l.PixelOrigin, l.PixelSpan
	h.PixelWidth = l.PixelWidth
	return h
}

func use__writeScalar(path string, rhos []float64, c *CosmoInfo, r *RenderInfo, l *LocationInfo) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	WriteBuffer(density.WrapperDensityBuffer(rhos), *c, *r, *l, f)
	f.Close()
}

//gtv:equiv use__writeScalar
func spec__writeScalar(path string, rhos []float64, c *CosmoInfo, r *RenderInfo, l *LocationInfo) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	binary.Write(f, binary.LittleEndian, spec__fill(c, r, l, density.Density, 0))
	xs := make([]float32, len(rhos))
	for i := range xs {
		xs[i] = float32(rhos[i])
	}
	binary.Write(f, binary.LittleEndian, xs)
	f.Close()
}

func use__writeVector(path string, n int, vecs [][3]float64, num []int, c *CosmoInfo, r *RenderInfo, l *LocationInfo) {
	b := density.NewBuffer(density.Velocity, n, 0, nil)
	v, _ := b.VectorBuffer()
	k, _ := b.CountBuffer()
	for i := 0; i < n; i++ {
		v[i] = vecs[i]
		k[i] = num[i]
	}
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	WriteBuffer(b, *c, *r, *l, f)
	f.Close()
}

// the three components follow one another as separate grids
//
//gtv:equiv use__writeVector
func spec__writeVector(path string, n int, vecs [][3]float64, num []int, c *CosmoInfo, r *RenderInfo, l *LocationInfo) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	binary.Write(f, binary.LittleEndian, spec__fill(c, r, l, density.Velocity, 1))
	for j := 0; j < 3; j++ {
		xs := make([]float32, n)
		for i := range xs {
			if num[i] != 0 {
				xs[i] = float32(vecs[i][j]) / float32(num[i])
			}
		}
		binary.Write(f, binary.LittleEndian, xs)
	}
	f.Close()
}

func use__header(path string) (GridHeader, error) {
	h, err := ReadGridHeader(path)
	if err != nil {
		return GridHeader{}, err
	}
	return *h, nil
}

//gtv:equiv use__header
func spec__readHeader(path string) (GridHeader, error) {
	f, err := os.Open(path)
	if err != nil {
		return GridHeader{}, err
	}
	h := GridHeader{}
	if err := binary.Read(f, binary.LittleEndian, &h); err != nil {
		return GridHeader{}, err
	}
	return h, nil
}

//gtv:equiv ReadGrid
func spec__readGrid(path string) ([]float64, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	h := spec__header{}
	if err := binary.Read(f, binary.LittleEndian, &h); err != nil {
		return nil, err
	}
	if h.IsVector == 1 {
		return nil, fmt.Errorf("vector grid")
	}
	n := int64(1)
	for i := 0; i < 3; i++ {
		if h.Ax != int64(i) {
			n *= h.PixelSpan[i]
		}
	}
	xs := make([]float32, n)
	if err := binary.Read(f, binary.LittleEndian, xs); err != nil {
		return nil, err
	}
	out := make([]float64, n)
	for i := range out {
		out[i] = float64(xs[i])
	}
	return out, nil
}

//gtv:equiv NewCosmoInfo
func spec__cosmo(H0, omegaM, omegaL, z, boxWidth float64) CosmoInfo {
	c := CosmoInfo{}
	c.Redshift = z
	c.ScaleFactor = 1 / (1 + z)
	c.OmegaM = omegaM
	c.OmegaL = omegaL
	c.Hubble = H0
	c.BoxWidth = boxWidth
	c.RhoMean = cosmo.RhoAverage(H0, omegaM, omegaL, z)
	c.RhoCritical = cosmo.RhoCritical(H0, omegaM, omegaL, z)
	return c
}

//gtv:equiv NewRenderInfo
func spec__render(particles, totalCells, skip int, axisStr string) RenderInfo {
	r := RenderInfo{}
	r.Particles = int64(particles)
	r.TotalPixels = int64(totalCells)
	r.SubsampleLength = int64(skip)
	p := 20000 / float64(particles)
	x := float64(totalCells) / 5000
	s := float64(skip)
	r.MinProjectionDepth = int64(math.Ceil(p * (x * x * x) / (s * s * s)))
	switch axisStr {
	case "X":
		r.ProjectionAxis = 0
	case "Y":
		r.ProjectionAxis = 1
	case "Z":
		r.ProjectionAxis = 2
	default:
		r.ProjectionAxis = -1
	}
	return r
}

//gtv:equiv NewLocationInfo
func spec__location(origin, span [3]int, cellWidth float64) LocationInfo {
	l := LocationInfo{}
	l.PixelWidth = cellWidth
	for i := 0; i < 3; i++ {
		l.Origin[i] = cellWidth * float64(origin[i])
		l.Span[i] = cellWidth * float64(span[i])
		l.PixelOrigin[i] = int64(origin[i])
		l.PixelSpan[i] = int64(span[i])
	}
	return l
}
