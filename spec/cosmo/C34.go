package cosmo

import "math"

// E(z) for a flat matter + Lambda universe.
//
//gtv:equiv HubbleFrac
func spec__HubbleFrac(omegaM, omegaL, z float64) float64 {
	return math.Sqrt(omegaM*(1+z)*(1+z)*(1+z) + omegaL)
}

// rho_c = 3 H^2 / 8 pi G with H = E(z) * 100 h km/s/Mpc, in h^2 solar masses
// per cubic megaparsec: 2.7754e11 E^2.
//
//gtv:equiv RhoCritical
//gtv:assume spec__H0pos
//gtv:tol 2e-3
func spec__RhoCritical(H0, omegaM, omegaL, z float64) float64 {
	return 2.77536627e11 * (omegaM*math.Pow(1+z, 3) + omegaL)
}

func spec__H0pos(H0, omegaM, omegaL, z float64) bool {
	return H0 > 0 && omegaM*math.Pow(1+z, 3)+omegaL >= 0 && omegaM+omegaL >= 0
}

// the mean matter density is the present critical density times OmegaM (1+z)^3
//
//gtv:equiv RhoAverage
//gtv:assume spec__H0pos
//gtv:tol 2e-3
func spec__RhoAverage(H0, omegaM, omegaL, z float64) float64 {
	return 2.77536627e11 * (omegaM + omegaL) * omegaM * (1 + z) * (1 + z) * (1 + z)
}
