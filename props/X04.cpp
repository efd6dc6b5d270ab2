// flavor: asan
/* Interpolation in tables */
#include <cstdio>
#include <vector>
#include <memory>
#include "watdefs.h"
#include "pbt.h"
typedef long double ld;

double cubic_spline_interpolate_within_table( const double *table, const int n_entries, double x, int *err_code);
double lagrange_interpolate_within_table( const double *table, const int n_entries, double x, const int n_pts, double *deriv);

PROPERTY( "X04", "tables of 4 to 60 entries, random or taken from polynomials, evaluated inside, on entries, in the end intervals and outside; 1 to 12 points for Lagrange, with and without the derivative; non-trivial = x isn't at an entry",
   "Reference in long double: the documented piecewise cubic; Neville's scheme and its derivative over the points nearest x; polynomials of sufficiently low degree are reproduced, also when extrapolating",
   "the derivative is not claimed within 1e-4 of (but not at) an entry, where the formula loses digits")

static ld poly( const std::vector<ld> &c, ld x)
{
   ld r = 0;
   for( size_t i = c.size( ); i--; ) r = r * x + c[i];
   return( r);
}
static ld dpoly( const std::vector<ld> &c, ld x)
{
   ld r = 0;
   for( size_t i = c.size( ); --i; ) r = r * x + c[i] * i;
   return( r);
}
struct table_t { std::unique_ptr<double[]> p; int n; };
static double gen_x( Draw &d, int n)
{
   switch( d.raw( 5))
      {
      case 0: return( (double)d.raw( n - 1));
      case 1: return( (double)d.raw( n - 1) + d.pick( std::vector<double>{ 1e-9, -1e-9, 1e-4, -1e-4, .5 }));
      case 2: return( d.real( -3., 0.));
      case 3: return( n - 1 + d.real( 0., 3.));
      case 4: return( d.flip( ) ? d.real( 0., 2.) : n - 1 - d.real( 0., 2.));
      default: return( d.real( 0., n - 1.));
      }
}

PROP( spline, 300000, 20)
{
   const int n = 4 + (int)d.raw( d.flip( ) ? 3 : 56);
   std::unique_ptr<double[]> t( new double[n]);
   const int kind = (int)d.raw( 1);
   std::vector<ld> c;
   if( kind) for( int i = 0; i < 3; i++) c.push_back( d.special( -10., 10.));
   for( int i = 0; i < n; i++) t[i] = kind ? (double)poly( c, i) : d.special( -100., 100.);
   double x = gen_x( d, n);
   d.note( "%d entries (%s), x=%.12f", n, kind ? "quadratic" : "random", x);
   d.nontrivial( x != floor( x));
   int err = 77;
   const double y = cubic_spline_interpolate_within_table( t.get( ), n, x, &err);
   REQUIRE( cubic_spline_interpolate_within_table( t.get( ), n, x, NULL) == y, "asking for the error code changes the result");
   const int fl = (int)floor( x);
   const int want = (fl < 0 || fl > n - 2) ? -2 : (fl < 1 || fl > n - 3) ? -1 : 0;
   REQUIRE( err == want, "error code %d, expected %d", err, want);
   const int i = std::max( 1, std::min( n - 3, fl));
   const ld f = (ld)x - i, m0 = ((ld)t[i + 1] - t[i - 1]) / 2, m1 = ((ld)t[i + 2] - t[i]) / 2;
   const ld ref = (1 + 2 * f) * (1 - f) * (1 - f) * t[i] + f * (1 - f) * (1 - f) * m0 + f * f * (3 - 2 * f) * t[i + 1] + f * f * (f - 1) * m1;
   ld scale = 1e-3L;
   for( int k = i - 1; k < i + 3; k++) scale = std::max( scale, fabsl( t[k]));
   REQUIRE( fabsl( y - ref) < 4e-15L * scale * (1 + fabsl( f * f * f)) * 4, "value %.15g, expected %.15Lg", y, ref);
   if( kind) REQUIRE( fabsl( y - poly( c, x)) < 1e-12L * scale * (1 + fabsl( f * f * f)), "quadratic isn't reproduced: %.15g, expected %.15Lg", y, poly( c, x));
   if( want == 0 && x == fl) REQUIRE( y == t[fl], "value at an entry is %.17g, not %.17g", y, t[fl]);
}

PROP( lagrange, 300000, 20)
{
   const int pts = 1 + (int)d.raw( 11), n = pts + (int)d.raw( d.flip( ) ? 3 : 40);
   std::unique_ptr<double[]> t( new double[n]);
   const int kind = (int)d.raw( 1);
   double x = gen_x( d, n);
   std::vector<ld> c;
   const ld mid = n / 2;
   if( kind) for( int i = 0; i < pts; i++) c.push_back( d.special( -10., 10.) * powl( .5L, i));
   for( int i = 0; i < n; i++) t[i] = kind ? (double)poly( c, i - mid) : d.special( -100., 100.);
   d.note( "%d points, %d entries (%s), x=%.12f", pts, n, kind ? "polynomial" : "random", x);
   d.nontrivial( x != floor( x));
   double dv = 1e30;
   const bool want_deriv = d.flip( ) && pts > 1;
   const double y = lagrange_interpolate_within_table( t.get( ), n, x, pts, want_deriv ? &dv : NULL);
   if( x == floor( x) && x >= 0 && x < n) REQUIRE( y == t[(int)x], "value at an entry is %.17g, not %.17g", y, t[(int)x]);
               /* Neville:  which points?  the ones nearest x */
   int idx = std::max( 0, std::min( n - pts, (int)floor( x - pts / 2.) + 1));
   std::vector<ld> p( pts), q( pts, 0);
   ld scale = 1e-3L, mag = 1;
   for( int k = 0; k < pts; k++) { p[k] = t[idx + k]; scale = std::max( scale, fabsl( p[k])); }
   for( int m = 1; m < pts; m++)
      for( int k = 0; k + m < pts; k++)
         {
         const ld a = (ld)x - (idx + k), b = (ld)x - (idx + k + m);
         const ld np = (a * p[k + 1] - b * p[k]) / m;
         q[k] = (p[k + 1] - p[k] + a * q[k + 1] - b * q[k]) / m;
         p[k] = np;
         }
   for( int k = 0; k < pts; k++)          /* sum of |Lagrange basis|,  bounds the roundoff */
      {
      ld w = 1;
      for( int j = 0; j < pts; j++) if( j != k) w *= ((ld)x - idx - j) / (k - j);
      mag += fabsl( w);
      }
   REQUIRE( fabsl( y - p[0]) < 1e-14L * scale * mag, "value %.15g, expected %.15Lg", y, p[0]);
   if( kind && fabs( x - (double)mid) < n) REQUIRE( fabsl( y - poly( c, x - mid)) < 1e-13L * scale * mag, "polynomial isn't reproduced: %.15g, expected %.15Lg", y, poly( c, x - mid));
   if( want_deriv)
      {
      const double off = fabs( x - floor( x + .5));
      ld dm = 0;
      for( int k = 0; k < pts; k++)
         for( int l = 0; l < pts; l++) if( l != k)
            {
            ld w = 1.L / (k - l);
            for( int j = 0; j < pts; j++) if( j != k && j != l) w *= ((ld)x - idx - j) / (k - j);
            dm += fabsl( w);
            }
      if( off > 1e-4 - 1e-12) REQUIRE( fabsl( dv - q[0]) < 3e-14L * scale * (mag + dm) / std::max( off, 1e-2) * (off < 1e-2 ? 1e2 : 1.), "derivative %.12g, expected %.12Lg", dv, q[0]);
      else if( off == 0. && pts > 2 && (pts & 1) == 0 && x >= pts / 2 && x < n - pts / 2 && kind)
         REQUIRE( fabsl( dv - dpoly( c, x - mid)) < 1e-9L * scale * mag + 1e-8L * fabsl( dv) + 1e-8L * scale * (1 + dm), "derivative at an entry %.12g, expected %.12Lg", dv, dpoly( c, x - mid));
      }
}
