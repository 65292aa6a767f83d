#pragma once
extern "C" {
double gsl_sf_legendre_Pl(int l, double x); double gsl_sf_legendre_Plm(int l, int m, double x); double gsl_sf_legendre_sphPlm(int l, int m, double x); double gsl_sf_legendre_P1(double); double gsl_sf_legendre_P2(double); double gsl_sf_legendre_P3(double);
double gsl_sf_bessel_Jn(int n, double x); double gsl_sf_bessel_J0(double); double gsl_sf_bessel_J1(double); double gsl_sf_bessel_jl(int l, double x); double gsl_sf_bessel_yl(int l, double x); double gsl_sf_bessel_Jnu(double, double); double gsl_sf_bessel_j0(double); double gsl_sf_bessel_j1(double); double gsl_sf_bessel_j2(double);
}
