// flavor: plain
/* Nutation, obliquity, sidereal time */
#include <cstdio>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "P02", "instants from -10000 to +14000 (J2000 exactly, near it, ends of the obliquity formula's range), either output of the nutation omitted, histories of obliquity requests; non-trivial = instant other than J2000",
   "Reference: the 106-term IAU 1980 table with its secular terms, Laskar's obliquity polynomial and the IAU 1982 sidereal time, all in long double; sidereal time also as a count of whole turns",
   "nutation is compared to 2e-7 arcsecond within a few centuries of 2000, more loosely far from it where the arguments' own rounding shows")

static const ld pil = 3.14159265358979323846264338327950288L;

            /* D, M, M', F, Omega; longitude, per century; obliquity, per century (.0001") */
static const struct { int D, M, Mp, F, Om; double l, lt, e, et; } tab[106] = {
   { 0, 0, 0, 0, 1, -171996, -174.2, 92025, 8.9 },
   { -2, 0, 0, 2, 2, -13187, -1.6, 5736, -3.1 },
   { 0, 0, 0, 2, 2, -2274, -0.2, 977, -0.5 },
   { 0, 0, 0, 0, 2, 2062, 0.2, -895, 0.5 },
   { 0, 1, 0, 0, 0, 1426, -3.4, 54, -0.1 },
   { 0, 0, 1, 0, 0, 712, 0.1, -7, 0 },
   { -2, 1, 0, 2, 2, -517, 1.2, 224, -0.6 },
   { 0, 0, 0, 2, 1, -386, -0.4, 200, 0 },
   { 0, 0, 1, 2, 2, -301, 0, 129, -0.1 },
   { -2, -1, 0, 2, 2, 217, -0.5, -95, 0.3 },
   { -2, 0, 1, 0, 0, -158, 0, 0, 0 },
   { -2, 0, 0, 2, 1, 129, 0.1, -70, 0 },
   { 0, 0, -1, 2, 2, 123, 0, -53, 0 },
   { 2, 0, 0, 0, 0, 63, 0, 0, 0 },
   { 0, 0, 1, 0, 1, 63, 0.1, -33, 0 },
   { 2, 0, -1, 2, 2, -59, 0, 26, 0 },
   { 0, 0, -1, 0, 1, -58, -0.1, 32, 0 },
   { 0, 0, 1, 2, 1, -51, 0, 27, 0 },
   { -2, 0, 2, 0, 0, 48, 0, 0, 0 },
   { 0, 0, -2, 2, 1, 46, 0, -24, 0 },
   { 2, 0, 0, 2, 2, -38, 0, 16, 0 },
   { 0, 0, 2, 2, 2, -31, 0, 13, 0 },
   { 0, 0, 2, 0, 0, 29, 0, 0, 0 },
   { -2, 0, 1, 2, 2, 29, 0, -12, 0 },
   { 0, 0, 0, 2, 0, 26, 0, 0, 0 },
   { -2, 0, 0, 2, 0, -22, 0, 0, 0 },
   { 0, 0, -1, 2, 1, 21, 0, -10, 0 },
   { 0, 2, 0, 0, 0, 17, -0.1, 0, 0 },
   { 2, 0, -1, 0, 1, 16, 0, -8, 0 },
   { -2, 2, 0, 2, 2, -16, 0.1, 7, 0 },
   { 0, 1, 0, 0, 1, -15, 0, 9, 0 },
   { -2, 0, 1, 0, 1, -13, 0, 7, 0 },
   { 0, -1, 0, 0, 1, -12, 0, 6, 0 },
   { 0, 0, 2, -2, 0, 11, 0, 0, 0 },
   { 2, 0, -1, 2, 1, -10, 0, 5, 0 },
   { 2, 0, 1, 2, 2, -8, 0, 3, 0 },
   { 0, 1, 0, 2, 2, 7, 0, -3, 0 },
   { -2, 1, 1, 0, 0, -7, 0, 0, 0 },
   { 0, -1, 0, 2, 2, -7, 0, 3, 0 },
   { 2, 0, 0, 2, 1, -7, 0, 3, 0 },
   { 2, 0, 1, 0, 0, 6, 0, 0, 0 },
   { -2, 0, 2, 2, 2, 6, 0, -3, 0 },
   { -2, 0, 1, 2, 1, 6, 0, -3, 0 },
   { 2, 0, -2, 0, 1, -6, 0, 3, 0 },
   { 2, 0, 0, 0, 1, -6, 0, 3, 0 },
   { 0, -1, 1, 0, 0, 5, 0, 0, 0 },
   { -2, -1, 0, 2, 1, -5, 0, 3, 0 },
   { -2, 0, 0, 0, 1, -5, 0, 3, 0 },
   { 0, 0, 2, 2, 1, -5, 0, 3, 0 },
   { 0, 0, -2, 2, 2, -3, 0, 0, 0 },
   { -2, 0, 2, 0, 1, 4, 0, 0, 0 },
   { -2, 1, 0, 2, 1, 4, 0, 0, 0 },
   { 0, 0, 3, 2, 2, -3, 0, 0, 0 },
   { 2, -1, -1, 2, 2, -3, 0, 0, 0 },
   { 0, -1, 1, 2, 2, -3, 0, 0, 0 },
   { 2, -1, 0, 2, 2, -3, 0, 0, 0 },
   { -1, -1, 1, 0, 0, -3, 0, 0, 0 },
   { -1, 0, 1, 0, 0, -4, 0, 0, 0 },
   { -2, 1, 0, 0, 0, -4, 0, 0, 0 },
   { 0, 0, 1, -2, 0, 4, 0, 0, 0 },
   { 1, 0, 0, 0, 0, -4, 0, 0, 0 },
   { 0, 1, 1, 0, 0, -3, 0, 0, 0 },
   { 0, 0, 1, 2, 0, 3, 0, 0, 0 },
   { 1, 0, 0, 2, 2, 2, 0, -1, 0 },
   { 0, 0, 2, 0, 1, 2, 0, -1, 0 },
   { 0, 1, 1, 2, 2, 2, 0, -1, 0 },
   { -2, 0, -1, 2, 1, -2, 0, 1, 0 },
   { -2, -2, 0, 2, 1, -2, 0, 1, 0 },
   { 4, 0, -1, 2, 2, -2, 0, 1, 0 },
   { 0, 0, -2, 0, 1, -2, 0, 1, 0 },
   { 0, 0, 1, 0, 2, -2, 0, 1, 0 },
   { 0, 0, 3, 0, 0, 2, 0, 0, 0 },
   { -2, 0, 2, 2, 1, 1, 0, -1, 0 },
   { -2, 1, 1, 2, 2, 1, 0, -1, 0 },
   { 0, 0, -1, 0, 2, 1, 0, -1, 0 },
   { 2, 0, -2, 2, 2, 1, 0, -1, 0 },
   { 4, 0, -2, 2, 2, -1, 0, 1, 0 },
   { 2, 0, 1, 2, 1, -1, 0, 1, 0 },
   { -4, 0, 1, 0, 0, -1, 0, 0, 0 },
   { 2, 0, 1, -2, 0, -1, 0, 0, 0 },
   { 0, 0, 0, -2, 1, -1, 0, 0, 0 },
   { -2, 0, 1, -2, 0, -1, 0, 0, 0 },
   { -4, 0, 2, 0, 0, -1, 0, 0, 0 },
   { -1, 0, 0, 2, 2, -1, 0, 0, 0 },
   { 2, 1, 0, -2, 0, -1, 0, 0, 0 },
   { 2, 0, 1, 0, 1, -1, 0, 0, 0 },
   { 2, 1, 0, 0, 0, -1, 0, 0, 0 },
   { 2, 0, 2, 2, 2, -1, 0, 0, 0 },
   { -2, 1, 0, 2, 0, -1, 0, 0, 0 },
   { -2, 0, 1, 2, 0, -1, 0, 0, 0 },
   { 0, -1, 0, 2, 1, -1, 0, 0, 0 },
   { 4, 0, 0, 2, 2, -1, 0, 0, 0 },
   { -2, 1, 1, 0, 1, -1, 0, 0, 0 },
   { 2, 0, 0, -2, 1, 1, 0, 0, 0 },
   { 0, 1, 0, 2, 1, 1, 0, 0, 0 },
   { 2, -1, -1, 0, 1, 1, 0, 0, 0 },
   { 0, 0, 2, -2, 1, 1, 0, 0, 0 },
   { -2, -1, 1, 0, 0, 1, 0, 0, 0 },
   { -2, 0, 3, 2, 2, 1, 0, 0, 0 },
   { 0, 0, -1, 4, 2, 1, 0, 0, 0 },
   { -2, 0, 0, 4, 2, 1, 0, 0, 0 },
   { 0, 1, 0, 0, 2, 1, 0, 0, 0 },
   { 2, 0, 2, 0, 0, 1, 0, 0, 0 },
   { 1, 0, -1, 0, 1, 1, 0, 0, 0 },
   { -2, 1, 2, 0, 0, 1, 0, 0, 0 },
   { 1, 1, 0, 0, 0, 1, 0, 0, 0 },
   };

               /* The published secular terms,  or (known finding 'nutation-secular') those that
               were found attached to the wrong terms */
static void ref_nut( ld t, ld &dl, ld &de, bool misapplied)
{
   const ld f[5] = { 297.85036L + 445267.111480L * t - .0019142L * t * t + t * t * t / 189474.L,
                     357.52772L + 35999.050340L * t - .0001603L * t * t - t * t * t / 300000.L,
                     134.96298L + 477198.867398L * t + .0086972L * t * t + t * t * t / 56250.L,
                     93.27191L + 483202.017538L * t - .0036825L * t * t + t * t * t / 327270.L,
                     125.04452L - 1934.136261L * t + .0020708L * t * t + t * t * t / 450000.L };
   static const ld wrong_l[7] = { -174.2L, -1.6L, -3.4L, -.4L, 0.L, 0.L, -.1L }, wrong_e[4] = { 8.9L, -3.1L, -.1L, 0.L };
   dl = de = 0;
   for( int i = 0; i < 106; i++)
      {
      const auto &x = tab[i];
      ld arg = (x.D * f[0] + x.M * f[1] + x.Mp * f[2] + x.F * f[3] + x.Om * f[4]);
      arg = fmodl( arg, 360.L) * pil / 180.L;
      const ld lt = misapplied ? (i < 7 ? wrong_l[i] : 0.L) : (ld)x.lt;
      const ld et = misapplied ? (i < 4 ? wrong_e[i] : 0.L) : (ld)x.et;
      dl += (x.l + lt * t) * sinl( arg);
      de += (x.e + et * t) * cosl( arg);
      }
   dl /= 10000.L;
   de /= 10000.L;
}

static double gen_t( Draw &d)
{
   switch( d.raw( 4))
      {
      case 0: return( d.real( -1., 1.));
      case 1: return( d.special( -100., 100.));
      case 2: return( d.real( -120., 120.));
      case 3: return( (d.flip( ) ? 1. : -1.) * d.logreal( 1e-9, 1.));
      default: return( d.real( -5., 5.));
      }
}

PROP( nutation_series, 200000, 20)
{
   const double t = gen_t( d);
   d.note( "%.17g centuries", t);
   d.nontrivial( t != 0.);
   ld dl, de, wl, we;
   ref_nut( t, dl, de, false);
   ref_nut( t, wl, we, true);
   double l = 1e30, e = 1e30, l2 = 1e30, e2 = 1e30;
   REQUIRE( !nutation( t, &l, &e) && !nutation( t, &l2, NULL) && !nutation( t, NULL, &e2), "return value");
   REQUIRE( l == l2 && e == e2, "results depend on what was asked for");
   const double tol = 2e-7 + 1e-9 * fabs( t);
   if( fabsl( l - dl) < tol && fabsl( e - de) < tol)
      return;
   REQUIRE( !(fabsl( l - wl) < tol && fabsl( e - we) < tol),
         "[nutation-secular] nutation %.7f %.7f, expected %.7Lf %.7Lf", l, e, dl, de);
   REQUIRE( false, "nutation %.7f %.7f, expected %.7Lf %.7Lf", l, e, dl, de);
}

PROP( obliquity_history, 300000, 20)
{
   const int n = 1 + (int)d.raw( 7);
   std::vector<double> ts;
   for( int i = 0; i < n; i++)
      {
      double t = (!ts.empty( ) && d.flip( )) ? ts[d.raw( ts.size( ) - 1)] : (d.rare( 5) ? 0. : (d.rare( 8) ? (d.flip( ) ? 100. : -100.) : gen_t( d)));
      if( d.rare( 10)) t = 300.;
      ts.push_back( t);
      d.note( "%s%.17g", i ? "; " : "", t);
      const ld u = t / 100.L;
      static const ld c[11] = { 84381.448L, -4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L };
      ld r = 0;
      for( int k = 10; k >= 0; k--) r = r * u + c[k];
      r *= pil / (180.L * 3600.L);
      if( t > 100.) r = 22.611485556L * pil / 180.L;
      if( t < -100.) r = 24.232841111L * pil / 180.L;
      const double got = mean_obliquity( t);
      REQUIRE( fabsl( got - r) < 1e-14L + (fabs( t) > 100. ? 0.L : 0.L), "obliquity for %.9f is %.15f, expected %.15Lf", t, got, r);
      REQUIRE( got > .39 && got < .43, "obliquity %.9f", got);
      }
}

PROP( sidereal_time, 1000000, 20)
{
   double jd;
   switch( d.raw( 3))
      {
      case 0: jd = 2451545. + d.special( -36525., 36525.); break;
      case 1: jd = 2451544.5 + (double)d.ival( -40000, 40000) + d.pick( std::vector<double>{ 0., .5, 1e-9, -1e-9, .25 }); break;
      case 2: jd = d.real( 0., 5e6); break;
      default: jd = 2451545. + d.real( -20000., 20000.); break;
      }
   d.note( "JD %.9f", jd);
   const ld u = (ld)jd - 2451545.L, T = u / 36525.L;
               /* IAU 1982:  sidereal time at 0h UT1,  plus the time since at the sidereal rate */
   const ld day = floorl( u - .5L) + .5L, T0 = day / 36525.L, frac = u - day;
   const ld g0 = 24110.54841L + 8640184.812866L * T0 + .093104L * T0 * T0 - 6.2e-6L * T0 * T0 * T0;
   const ld rate = 1.002737909350795L + 5.9006e-11L * T0 - 5.9e-15L * T0 * T0;
   const ld theta = (g0 + frac * 86400.L * rate) * pil / 43200.L;
   const double got = green_sidereal_time( jd);
   const ld diff = remainderl( (ld)got - theta, 2.L * pil);
   const double cen = fabs( (double)T);
   REQUIRE( fabsl( diff) < 2e-9 + cen * 2e-9 + cen * cen * 1e-10 + cen * cen * cen * 1e-11, "sidereal time %.12f, expected %.12Lf", fmod( got, 6.283185307179586), fmodl( theta, 2.L * pil));
   const double dt = d.logreal( 1e-5, 1.), next = green_sidereal_time( jd + dt);
   const ld step = remainderl( (ld)next - got - dt * 1.00273790935L * 2.L * pil, 2.L * pil);
   REQUIRE( fabsl( step) < 5e-7 + 1e-5 * cen * cen * 1e-3, "sidereal time advances unevenly over %.9f days after JD %.9f (by %Lg)", dt, jd, step);
}
