#pragma once
#include <cmath>
// Spherical-harmonic normalised associated Legendre function, Condon-Shortley phase included as in GSL.
inline double gsl_sf_legendre_sphPlm(int l, int m, double x) {
  return std::sph_legendre((unsigned)l, (unsigned)m, std::acos(x));
}
