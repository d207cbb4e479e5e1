package density

// ---- the table of quantities: names both ways, which need velocities, which
// may be projected

//gtv:equiv (Quantity).String
func spec__name(q Quantity) string {
	if q < 0 || q > 4 {
		panic("range")
	}
	return [...]string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"}[q]
}

//gtv:equiv QuantityFromString
func spec__fromString(s string) (Quantity, bool) {
	for i, n := range [...]string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"} {
		if s == n {
			return Quantity(i), true
		}
	}
	return 0, false
}

//gtv:equiv (Quantity).RequiresVelocity
func spec__velocity(q Quantity) bool {
	if q < 0 || q > 4 {
		panic("range")
	}
	return q >= 2
}

//gtv:equiv (Quantity).CanProject
func spec__project(q Quantity) bool {
	if q < 0 || q > 4 {
		panic("range")
	}
	return q == 0 || q == 2
}

func use__roundTrip(q Quantity) (Quantity, bool) {
	return QuantityFromString(q.String())
}

//gtv:equiv use__roundTrip
func spec__roundTrip(q Quantity) (Quantity, bool) {
	if q < 0 || q > 4 {
		panic("range")
	}
	return q, true
}
