// extra: colors.cpp colors2.cpp
/* Conversions among photometric color indices */
#include <cstdio>
#include <cmath>
#include <vector>
#include "colors.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "R03", "color indices over and beyond the ranges of validity, with the ends of the ranges, the nodes of the tables and their neighbours over-weighted; for the inverses, both arbitrary indices and ones computed from a known index; non-trivial = inside the range of validity",
   "Caldwell's polynomials (1993), Bessell's table (2000) interpolated by Neville's scheme and the Hipparcos catalog's nodes joined by straight lines, in long double; round trips through the inverses; agreement of different routes between the same indices",
   "routes between indices agree only roughly by their author's account (0.05 mag, the V-I of M dwarfs excepted)")

struct poly { const char *name; double (*func)( const double); ld lo, hi, c[13]; };

static const poly polys[4] = {
   { "V-I to B-V", v_minus_i_to_b_minus_v, -.23L, 3.7L,
   { -0.06865072L, 0.8837997L, -0.3889774L, -0.004998126L, 0.3867544L, -0.5422331L, -0.08926476L, 0.5194797L, -0.2044681L, -0.1009025L, 0.09543256L, -0.02567529L, 0.002393742L }},
   { "V-I to V-R", v_minus_i_to_v_minus_r, -.3L, 4.L,
   { -0.4708373L, 0.5920728L, -0.01095294L, -0.2281118L, -0.09372892L, 0.1931393L, 0.05077253L, -0.09927284L, 0.008560631L, 0.01922702L, -0.00720188L, 0.0007743020L, 0 }},
   { "V-R to B-V", v_minus_r_to_b_minus_v, -.1L, 1.75L,
   { 0.4860429L, 0.6904008L, -1.229411L, 2.990030L, 7.104513L, -16.37799L, -29.77123L, 43.90751L, 61.45810L, -52.65358L, -61.35921L, 22.97835L, 23.85013L }},
   { "B-V to V-R", b_minus_v_to_v_minus_r, -.23L, 1.95L,
   { -0.4140951L, 0.7357165L, -0.05242979L, -0.6293304L, 2.332871L, 3.812365L, -5.082941L, -6.520325L, 4.817797L, 5.065505L, -1.706011L, -1.568243L, 0 }}};

static ld eval( const poly &p, ld x)
{
   ld r = 0;
   for( int i = 12; i >= 0; i--)
      r = r * (x - 1) + p.c[i];
   return( r + 1);
}

static double near_ends( pbt::Draw &d, double lo, double hi)
{
   switch( d.ival( 0, 9))
      {
      case 0: return( lo);
      case 1: return( hi);
      case 2: return( (d.flip() ? lo : hi) + d.real( -1e-5, 1e-5));
      case 3: return( lo - d.logreal( 1e-12, 1e3));
      case 4: return( hi + d.logreal( 1e-12, 1e3));
      case 5: return( floor( d.real( lo, hi) * 100.) / 100.);
      default: return( d.real( lo, hi));
      }
}

PROP( polynomials, 2000000, 20)
{
   const poly &p = polys[d.ival( 0, 3)];
   const double x = near_ends( d, (double)p.lo, (double)p.hi), y = p.func( x);

   d.note( "%s: %.17g -> %.12g\n", p.name, x, y);
   if( x < (double)p.lo || x > (double)p.hi)
      {
      d.cls( "out of range");
      REQUIRE( y >= 98., "%s: %.17g is out of range,  but gave %.12g", p.name, x, y);
      return;
      }
   d.nontrivial( true);
   d.cls( p.name);
   REQUIRE( fabsl( y - eval( p, x)) < 1e-8L, "%s: %.17g gave %.12g instead of %.12Lg", p.name, x, y, eval( p, x));
}

PROP( inverses, 1000000, 20)
{
   const int which = d.ival( 0, 1);
   const poly &p = polys[which];
   double (*inv)( const double) = (which ? v_minus_r_to_v_minus_i : b_minus_v_to_v_minus_i);
   const ld ylo = eval( p, p.lo), yhi = eval( p, p.hi);
   double y;

   if( d.flip())
      {                    /* known answer */
      double x = d.rare( 3) ? near_ends( d, (double)p.lo, (double)p.hi) : d.real( (double)p.lo, (double)p.hi);
      if( x < (double)p.lo || x > (double)p.hi)
         x = 1.;
      y = p.func( x);
      const double back = inv( y);
      d.note( "%s: %.17g -> %.17g -> %.12g\n", p.name, x, y, back);
      d.nontrivial( true);
      d.cls( which ? "V-R of a known V-I" : "B-V of a known V-I");
               /* at the ends,  roundoff may land just out of range */
      if( back > 98. && (y - ylo < 1e-9L || yhi - y < 1e-9L) && x != (double)p.lo && x != (double)p.hi)
         return;
      REQUIRE( fabs( back - x) < 3e-6, "%s: %.17g -> %.17g -> %.12g", p.name, x, y, back);
      return;
      }
   y = near_ends( d, (double)ylo, (double)yhi);
   const double x = inv( y);
   d.note( "%s^-1: %.17g -> %.12g\n", p.name, y, x);
   if( fabsl( y - ylo) < 1e-9L || fabsl( y - yhi) < 1e-9L)
      return;              /* depends on roundoff */
   if( y < ylo || y > yhi)
      {
      d.cls( "out of range");
      REQUIRE( x >= 98., "%s: no index gives %.17g,  but the inverse said %.12g", p.name, y, x);
      return;
      }
   d.nontrivial( true);
   d.cls( which ? "V-R to V-I" : "B-V to V-I");
   REQUIRE( x >= p.lo - 1e-12L && x <= p.hi + 1e-12L, "%s: inverse of %.17g is %.12g", p.name, y, x);
   REQUIRE( fabsl( eval( p, x) - y) < 3e-6L, "%s: inverse of %.17g is %.12g,  which corresponds to %.12Lg", p.name, y, x, eval( p, x));
}

static ld line( const ld *x, const ld *y, int n, ld at)
{
   int i = 0;
   while( i < n - 2 && at > x[i + 1])
      i++;
   return( y[i] + (y[i + 1] - y[i]) * (at - x[i]) / (x[i + 1] - x[i]));
}

static const short tbl[46 * 3] = {
   38, 31, 66,   30, 21, 51,   22, 11, 36,   15, 5, 21,   8, 2, 6,   1, -5, -11,   -5, -10, -25,   -12, -17, -38,
   -18, -20, -48,   -24, -21, -58,   -29, -23, -69,   -35, -25, -79,   -40, -25, -87,   -45, -26, -94,   -50, -30, -101,   -54, -35, -108,
   -59, -45, -114,   -64, -51, -120,   -68, -60, -127,   -72, -68, -131,   -77, -76, -134,   -81, -85, -137,   -85, -94, -142,   -89, -104, -147,
   -93, -113, -151,   -98, -122, -155,   -102, -131, -158,   -106, -142, -157,   -110, -154, -160,   -115, -166, -162,   -119, -178, -164,   -124, -189, -166,
   -128, -199, -166,   -133, -210, -165,   -138, -222, -164,   -143, -234, -161,   -148, -245, -157,   -154, -256, -153,   -160, -266, -148,   -165, -277, -143,
   -172, -288, -137,   -178, -299, -131,   -185, -309, -125,   -191, -320, -119,   -199, -331, -112,   -206, -342, -106 };

PROP( tycho, 2000000, 20)
{
   const bool bessell = d.flip();
   double x = bessell ? near_ends( d, -.25, 2.) : near_ends( d, -.2, 1.8);

   if( d.rare( 4))               /* nodes and neighbors */
      {
      static const double nodes[5] = { -.2, .1, .5, 1.4, 1.8 };
      x = (bessell ? -.25 + .05 * d.ival( 0, 45) : nodes[d.ival( 0, 4)]) + (d.flip() ? 0. : d.real( -1e-6, 1e-6));
      }
   if( bessell)
      {
      double r[5] = { 7777., 7777., 7777., 7777., 7777. };
      const int rval = tycho_to_johnson_colors( x, r);
      d.note( "BT-VT %.17g: rval %d: %.10g %.10g %.10g\n", x, rval, r[0], r[1], r[2]);
      REQUIRE( r[3] == 7777., "more than three results");
      if( x < -.25 || x > 2.)
         {
         d.cls( "out of range");
         REQUIRE( rval == -1, "out of range,  but returned %d", rval);
         return;
         }
      d.nontrivial( true);
      d.cls( "Bessell");
      REQUIRE( rval == 0, "returned %d for %.17g", rval, x);
      const ld u = (x + .25L) / .05L;
      int i0 = (int)floorl( u) - 1;
      if( i0 < 0) i0 = 0;
      if( i0 > 42) i0 = 42;
      for( int k = 0; k < 3; k++)
         {
         ld p[4];
         for( int i = 0; i < 4; i++)
            p[i] = tbl[(i0 + i) * 3 + k] / 1000.L;
         for( int j = 1; j < 4; j++)
            for( int i = 0; i < 4 - j; i++)
               p[i] = ((u - i0 - i - j) * p[i] - (u - i0 - i) * p[i + 1]) / -(ld)j;
         if( k == 1)
            p[0] += x;
         REQUIRE( fabsl( r[k] - p[0]) < 1e-11L, "BT-VT %.17g: result %d is %.12g instead of %.12Lg", x, k, r[k], p[0]);
         }
      return;
      }
   static const ld xn[5] = { -.2L, .1L, .5L, 1.4L, 1.8L }, bv[5] = { -.006L, 0, .046L, -.008L, -.032L }, vn[5] = { .014L, 0, -.005L, -.005L, -.015L };
   const double vt = d.real( -2., 16.), b = johnson_b_minus_v_from_tycho_b_minus_v( x), v = johnson_v_from_tycho_b_minus_v( x, vt);
   d.note( "BT-VT %.17g, VT %.10g: B-V %.10g V %.10g\n", x, vt, b, v);
   if( x < -.2 || x > 1.8)
      {
      d.cls( "out of range");
      REQUIRE( b >= 98. && v >= 98., "%.17g is out of range,  but gave %.12g, %.12g", x, b, v);
      return;
      }
   d.nontrivial( true);
   d.cls( "Hipparcos catalog");
   REQUIRE( fabsl( b - (.85L * x + line( xn, bv, 5, x))) < 1e-12L, "BT-VT %.17g: B-V = %.12g instead of %.12Lg", x, b, .85L * x + line( xn, bv, 5, x));
   REQUIRE( fabsl( v - (vt - .09L * x + line( xn, vn, 5, x))) < 1e-12L, "BT-VT %.17g: V = %.12g instead of %.12Lg", x, v, vt - .09L * x + line( xn, vn, 5, x));
}

PROP( routes, 1000000, 20)
{
   const int which = d.ival( 0, 2);

   d.nontrivial( true);
   if( which == 2)
      {
      const double x = d.real( -.2, 1.8), vt = d.real( -2., 16.);
      double r[3];
      tycho_to_johnson_colors( x, r);
      d.note( "BT-VT %.12g\n", x);
      d.cls( "Tycho");
      REQUIRE( fabs( r[1] - johnson_b_minus_v_from_tycho_b_minus_v( x)) < .06 && fabs( vt + r[0] - johnson_v_from_tycho_b_minus_v( x, vt)) < .04,
         "BT-VT %.12g: B-V %.6g or %.6g; V-VT %.6g or %.6g", x, r[1], johnson_b_minus_v_from_tycho_b_minus_v( x), r[0], johnson_v_from_tycho_b_minus_v( x, 0.));
      return;
      }
   const double vi = d.real( -.2, which ? 1.6 : 3.7), vr = v_minus_i_to_v_minus_r( vi), bv = v_minus_i_to_b_minus_v( vi);
   d.note( "V-I %.12g\n", vi);
   d.cls( which ? "V-I to B-V to V-R" : "V-I to V-R to B-V");
   if( which)
      REQUIRE( fabs( b_minus_v_to_v_minus_r( bv) - vr) < .02, "V-I %.12g: V-R is %.6g,  or %.6g by way of B-V", vi, vr, b_minus_v_to_v_minus_r( bv));
   else
      REQUIRE( fabs( v_minus_r_to_b_minus_v( vr) - bv) < .05, "V-I %.12g: B-V is %.6g,  or %.6g by way of V-R", vi, bv, v_minus_r_to_b_minus_v( vr));
}
