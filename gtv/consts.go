package main

// Floating-point constants: the compiler has already rounded them to float64, so
// 1.0/3 and 0.1 arrive as dyadic fractions. The value meant by the source is
// recovered as the simplest fraction, or the shortest decimal, that rounds to the
// same float64.

import (
	"math"
	"math/big"
	"strconv"
)

func nearRat(r *big.Rat) *big.Rat {
	f, exact := r.Float64()
	if !exact || math.IsInf(f, 0) || f == 0 || r.IsInt() {
		return r
	}
	if len(r.Denom().Bits()) == 1 && r.Denom().BitLen() <= 24 && r.Num().BitLen() <= 40 {
		return r
	}
	// continued fraction
	neg := f < 0
	x := new(big.Rat).Abs(r)
	p0, q0 := big.NewInt(0), big.NewInt(1)
	p1, q1 := big.NewInt(1), big.NewInt(0)
	y := new(big.Rat).Set(x)
	for i := 0; i < 40; i++ {
		a := new(big.Int).Quo(y.Num(), y.Denom())
		p2 := new(big.Int).Add(new(big.Int).Mul(a, p1), p0)
		q2 := new(big.Int).Add(new(big.Int).Mul(a, q1), q0)
		if p2.BitLen()+q2.BitLen() > 40 {
			break
		}
		c := new(big.Rat).SetFrac(p2, q2)
		if g, _ := c.Float64(); g == math.Abs(f) {
			if neg {
				c.Neg(c)
			}
			return c
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		y.Sub(y, new(big.Rat).SetInt(a))
		if y.Sign() == 0 {
			break
		}
		y.Inv(y)
	}
	s := strconv.FormatFloat(f, 'e', -1, 64)
	if len(s) <= 16 {
		if d, ok := new(big.Rat).SetString(s); ok {
			return d
		}
	}
	return r
}

var coefTol = big.NewRat(1, 1000000000000)

// nearly drops the terms of a - b that are rounding noise against a's own
// coefficients (constants folded in a different order).
func nearly(d, a *T) *T {
	if d.k != KPoly || a.k != KPoly {
		return d
	}
	big12 := coefTol
	var ms []mono
	for _, m := range d.ms {
		noise := false
		for _, n := range a.ms {
			// 64 bit integers are exact
			if sameFacs(m.f, n.f) && !(m.c.IsInt() && n.c.IsInt() && n.c.Num().BitLen() <= 64) {
				lim := new(big.Rat).Mul(big12, new(big.Rat).Abs(n.c))
				noise = new(big.Rat).Abs(m.c).Cmp(lim) <= 0
			}
		}
		if !noise {
			ms = append(ms, m)
		}
	}
	return mkPoly(ms)
}

func sameFacs(a, b []fac) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ratStr(r *big.Rat) string {
	s := r.RatString()
	if len(s) > 24 {
		f, _ := r.Float64()
		return strconv.FormatFloat(f, 'g', 12, 64)
	}
	return s
}
