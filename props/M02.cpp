// flavor: plain
/* Brent minimisation and the parabola fit */
#include <cstdio>
#include "watdefs.h"
#include "brentmin.h"
#include "pbt.h"

PROPERTY( "M02", "one-minimum functions of eleven shapes (parabolas, quartics, kinks, exponentials, steps, one-sided walls, flat bottoms), offsets and scales over many decades, brackets up to 1e4 times lopsided and points in any order, tolerances 1e-2 to 1e-7 of the bracket; non-trivial = all",
   "the minimum's position is known by construction",
   "the tolerance is never below what double precision lets the function resolve")

static double shape( int kind, double u, double k)          /* minimum at u = 0 */
{
   const double a = fabs( u);
   switch( kind)
      {
      case 0: return( u * u);
      case 1: return( u * u * u * u + .01 * u * u);
      case 2: return( a);
      case 3: return( u > 0. ? u : -k * u);                 /* kink,  different slopes */
      case 4: return( a < .01 ? u * u * (.5 + u * (1. / 6. + u * (1. / 24. + u * (1. / 120. + u / 720.)))) : exp( u) - u - 1.);
      case 5: return( u > 0. ? u * u : k * u * u);
      case 6: return( sqrt( a));
      case 7: return( u > 0. ? expm1( k * u) : -u);      /* wall */
      case 8: return( u < 0. ? (u < -.1 ? 1e3 + a : a) : u * u);      /* step */
      case 9: return( k * u * u / (1. + k * u * u));          /* a well in a plain */
      default: return( u * u + .3 * u * u * u * (u > -1. ? 1. : 0.) + (u > 1. ? u - 1. : 0.));
      }
}

PROP( converges, 4000000, 20)
{
   const int kind = (int)d.raw( 10);
   const double x0 = d.rare( 3) ? 0. : d.real( -100., 100.);
   const double k = d.logreal( 1., 30.), yscale = d.logreal( 1e-6, 1e6);
   double left = d.logreal( 1e-3, 1.), right = d.logreal( 1e-3, 1.);
   auto f = [&]( double x) { return( shape( kind, x - x0, k) * yscale); };
            /* bracket:  a middle point lower than both ends */
   const double xa = x0 - left, xb = x0 + right, mid = d.flip( ) ? x0 + d.real( -left, right) : (d.flip( ) ? xa + (right + left) * d.logreal( 1e-4, .5) : xb - (right + left) * d.logreal( 1e-4, .5));
   if( !(f( mid) < f( xa) && f( mid) < f( xb) && mid > xa && mid < xb))
      { d.nontrivial( false); d.cls( "no bracket"); return; }
   const double range = xb - xa, tol = range * d.logreal( 1e-7, 1e-2);
   brent_min_t b;
   double p[3] = { xa, mid, xb };
   const int r = (int)d.raw( 5);
   if( r & 1) std::swap( p[0], p[1]);
   if( r & 2) std::swap( p[1], p[2]);
   if( r & 4) std::swap( p[0], p[2]);
   d.note( "shape %d, k %.6g, minimum at %.12g, bracket %.12g %.12g %.12g, tolerance %.6g", kind, k, x0, xa, mid, xb, tol);
   d.cls( pbt::strf( "shape %d", kind).c_str( ));
   brent_min_init( &b, p[0], f( p[0]), p[1], f( p[1]), p[2], f( p[2]));
   b.tolerance = tol;
   double lowest = f( mid), prev_range = range;
   int n = 0;
   while( b.step_type && n < 1000)
      {
      const double x = brent_min_next( &b);
      if( !b.step_type)
         { REQUIRE( x == b.x[0], "final point is not the best"); break; }
      REQUIRE( x > b.xmin - tol * 1e-9 && x < b.xmax + tol * 1e-9, "step %d to %.12g leaves the bracket %.12g to %.12g", n, x, b.xmin, b.xmax);
      const double y = f( x);
      lowest = std::min( lowest, y);
      const int done = brent_min_add( &b, y);
      n++;
      REQUIRE( b.xmin <= x0 && b.xmax >= x0, "minimum at %.12g is outside the bracket %.12g to %.12g", x0, b.xmin, b.xmax);
      REQUIRE( b.y[0] == lowest && f( b.x[0]) == lowest, "best value %.12g is not the lowest seen, %.12g", b.y[0], lowest);
      REQUIRE( b.xmax - b.xmin <= prev_range, "bracket grew");
      prev_range = b.xmax - b.xmin;
      if( done)
         REQUIRE( fabs( b.x[0] - x0) <= tol, "says it is done at %.12g", b.x[0]);
      }
   REQUIRE( n < 300, "%d evaluations; bracket still %.6g wide around %.12g", n, b.xmax - b.xmin, b.x[0]);
   REQUIRE( fabs( b.x[0] - x0) <= tol, "ended at %.12g, %.6g from the minimum", b.x[0], b.x[0] - x0);
}

PROP( parabola, 400000, 40)
{
   double x[3], y[3], a, b, c, gb, gc;
   const double s = d.logreal( 1e-3, 1e3);
   a = d.real( -10., 10.); b = d.real( -10., 10.); c = d.real( -10., 10.);
   for( int i = 0; i < 3; i++)
      {
      x[i] = d.real( -1., 1.) * s;
      for( int j = 0; j < i; j++) if( fabs( x[i] - x[j]) < .01 * s) x[i] += .03 * s * (1 + i);
      y[i] = (a * x[i] + b) * x[i] + c;
      }
   if( fabs( x[0] - x[1]) < .005 * s || fabs( x[0] - x[2]) < .005 * s || fabs( x[1] - x[2]) < .005 * s) { d.nontrivial( false); return; }
   d.note( "%.9g x^2 + %.9g x + %.9g at %.9g %.9g %.9g", a, b, c, x[0], x[1], x[2]);
   const double ga = fit_parabola( x, y, &gb, &gc), scale = fabs( a) * s * s + fabs( b) * s + fabs( c);
   REQUIRE( fabs( ga - a) * s * s < scale * 1e-9 && fabs( gb - b) * s < scale * 1e-9 && fabs( gc - c) < scale * 1e-9, "got %.9g %.9g %.9g", ga, gb, gc);
   REQUIRE( fit_parabola( x, y, NULL, NULL) == ga, "differs without the lower terms");
}
