// flavor: plain
// extra: landgraf.cpp:-Dmain=landgraf_main
/* Near-parabolic orbits by Landgraf's method */
#include <cstdio>
#include <cmath>
#include <cstring>
#include "pbt.h"
#include "orbref.h"
#include "runprog.h"
using pbt::Draw;

int landgraf_main( const int argc, const char **argv);

PROPERTY( "K03", "eccentricities .2 to 4 (nine tenths of them .9 to 1.2, some of them 1 exactly or within 1e-7), perihelia of .005 to 30 AU, times before, at and after perihelion, to 80% of the longest the method is for; with either starting value; non-trivial = not at perihelion",
   "Reference: universal variables in long double; the approximate anomaly shown is compared with Schlyter's formula evaluated in long double",
   "true anomaly to 2e-6 degrees plus the effect of the 1e-9 tolerance; at most 20 s")

typedef long double ld;
static const ld k_gauss = .01720209895L, pi = 3.14159265358979323846264338327950288419716939937510582L;

static ld schlyter( ld e, ld q, ld dt)
{
   const ld a = .75L * dt * k_gauss * sqrtl( (1.L + e) / (q * q * q)), b = sqrtl( 1.L + a * a);
   const ld W = cbrtl( b + a) - cbrtl( b - a), f = (1.L - e) / (1.L + e), W2 = W * W;
   const ld a1 = 2.L / 3.L + 2.L / 5.L * W2, a2 = 7.L / 5.L + 33.L / 35.L * W2 + 37.L / 175.L * W2 * W2;
   const ld a3 = W2 * (432.L / 175.L + 956.L / 1125.L * W2 + 84.L / 1575.L * W2 * W2);
   const ld C = W2 / (1.L + W2), g = f * C * C, w = W * (1.L + f * C * (a1 + a2 * g + a3 * g * g));
   return( 2.L * atanl( w) * 180.L / pi);
}

static double after( const std::string &text, const char *label)
{
   const size_t at = text.find( label);
   REQUIRE( at != std::string::npos, "no '%s' in %s", label, text.c_str( ));
   return( atof( text.c_str( ) + at + strlen( label)));
}

PROP( landgraf, 60000, 30)
{
   rp::own_directory( "landgraf");
   double e = d.rare( 10) ? d.real( .2, 4.) : d.real( .9, 1.2);
   if( d.rare( 6)) e = 1. + (d.flip( ) ? 0. : (d.flip( ) ? 1. : -1.) * d.logreal( 1e-12, 1e-4));
   const double q = d.logreal( .005, 30.);
   double range = d.logreal( 1e-3, 3000.);
   std::string se = pbt::strf( "%.12g", e), sq = pbt::strf( "%.9g", q);
   e = atof( se.c_str( ));
   const ld qq = (ld)atof( sq.c_str( ));
   double t = range * (double)( qq * sqrtl( qq)) / .0172 / 10.;
   double max_t = 0.;
   if( e < 1.)
      {
      const ld a = qq / (1.L - (ld)e);
      max_t = (double)( a * sqrtl( a) / k_gauss * (pi / 2.L - (ld)e));
      if( t > .8 * max_t) t = max_t * d.real( 0., .8);
      }
   else if( e > 1.001)
      {                 /* the series converges to s = max_s only;  hyperbolas reach that at F = 90 degrees */
      const ld a = qq / ((ld)e - 1.L), f = .8L * 1.7L;
      const double lim = (double)( a * sqrtl( a) / k_gauss * ((ld)e * sinhl( f) - f));
      if( t > lim) t = lim * d.real( 0., 1.);
      }
   if( d.rare( 30)) t = 0.;
   if( d.flip( )) t = -t;
   const std::string st = pbt::strf( "%.9g", t);
   t = atof( st.c_str( ));
   std::vector<std::string> args = { "landgraf", se, sq, st };
   const bool other = d.rare( 3);
   if( other) args.push_back( "s");
   d.note( "%s", rp::join( args).c_str( ));
   d.nontrivial( t != 0.);
   const rp::Result r = rp::run( landgraf_main, args)[0];
   REQUIRE( !r.code, "exit code %d: %s", r.code, r.out.substr( 0, 2000).c_str( ));
   ld xy[2], v[2];
   orbref::in_plane( qq, (ld)e, k_gauss * k_gauss, (ld)t, xy, v);
   const ld nu = atan2l( xy[1], xy[0]) * 180.L / pi, rad = hypotl( xy[0], xy[1]);
   ld diff = (ld)after( r.out, "\nTrue anomaly: ") - nu;
   diff -= 360.L * roundl( diff / 360.L);
   REQUIRE( fabsl( diff) < 2e-6L, "true anomaly is %.7Lf,  in %s", nu, r.out.c_str( ));
   REQUIRE( fabsl( (ld)after( r.out, "Radius vector (AU): ") - rad) < 2e-6L + 1e-6L * rad, "radius is %.7Lf,  in %s", rad, r.out.c_str( ));
   if( e < 1.)
      REQUIRE( fabs( after( r.out, "max_t = ") - max_t) < 1e-5 + max_t * 1e-9, "longest time is %.6f, in %s", max_t, r.out.c_str( ));
   const ld s = schlyter( e, qq, t);
   REQUIRE( fabsl( (ld)after( r.out, "Paul Schlyter true anomaly: ") - s) < 2e-6L + 1e-6L * fabsl( s), "Schlyter's value is %.7Lf,  in %s", s, r.out.c_str( ));
}
