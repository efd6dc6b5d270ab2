// flavor: plain
/* Distance and position angle on a sphere */
#include <cstdio>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "S01", "pairs of points on the sphere: arbitrary, coincident, a nanoradian to a radian apart, antipodal or nearly so, at and near the poles, on one meridian or parallel; distances up to a full turn and any position angle; non-trivial = the points differ",
   "Reference: vector cross and dot products in long double; moving from a point by a distance and position angle and measuring again; symmetry in the two points",
   "distances are compared to 4e-16 + 1e-15 relative, plus 2e-8 close to the one or opposite poles where the result is only known through an arcsine; position angles are compared as displacements")

static const ld pil = 3.14159265358979323846264338327950288L;
static double gen_lat( Draw &d)
{
   switch( d.raw( 4))
      {
      case 0: return( d.pick( std::vector<double>{ 0., M_PI / 2., -M_PI / 2., .5, -.5, 1. }));
      case 1: return( (d.flip( ) ? 1. : -1.) * (M_PI / 2. - d.logreal( 1e-12, .1)));
      default: return( asin( d.real( -1., 1.)));
      }
}
struct V { ld x, y, z; };
static V sph( ld lon, ld lat) { return( V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }); }

            /* exact components of p2 as seen from p1:  north,  east (toward larger longitude),  up,
            without cancellation for nearby points */
static void seen( const double *p1, const double *p2, ld &n, ld &e, ld &u)
{
   const ld dl = (ld)p2[0] - (ld)p1[0], h = sinl( dl / 2.L), a = p1[1], b = p2[1], oc = 2.L * h * h;
   e = sinl( dl) * cosl( b);
   n = sinl( b - a) + oc * sinl( a) * cosl( b);
   u = cosl( b - a) - oc * cosl( a) * cosl( b);
}
static void gen_pair( Draw &d, double *p1, double *p2)
{
   p1[0] = d.real( -7., 7.);
   p1[1] = gen_lat( d);
   switch( d.raw( 6))
      {
      case 0: { const double r = d.logreal( 1e-11, 1.); p2[0] = p1[0] + r * d.real( -1., 1.) / fmax( cos( p1[1]), 1e-3); p2[1] = p1[1] + r * d.real( -1., 1.); break; }
      case 1: { const double r = d.logreal( 1e-11, 1.); p2[0] = p1[0] + M_PI + r * d.real( -1., 1.); p2[1] = -p1[1] + r * d.real( -1., 1.); break; }
      case 2: p2[0] = p1[0]; p2[1] = gen_lat( d); break;
      case 3: p2[0] = d.real( -7., 7.); p2[1] = p1[1]; break;
      case 4: p2[0] = p1[0] + (double)d.ival( -2, 2) * M_PI; p2[1] = d.flip( ) ? p1[1] : -p1[1]; break;
      default: p2[0] = d.real( -7., 7.); p2[1] = gen_lat( d); break;
      }
   if( p2[1] > M_PI / 2.) p2[1] = M_PI / 2.;
   if( p2[1] < -M_PI / 2.) p2[1] = -M_PI / 2.;
}

PROP( distance, 1500000, 20)
{
   double p1[2], p2[2], dist = 1e30, pa = 1e30, dist2 = 1e30, back = 1e30;
   gen_pair( d, p1, p2);
   d.note( "%.17g %.17g to %.17g %.17g", p1[0], p1[1], p2[0], p2[1]);
   d.nontrivial( p1[0] != p2[0] || p1[1] != p2[1]);
   ld n, e, u;
   seen( p1, p2, n, e, u);
   const ld s = sqrtl( n * n + e * e), want = atan2l( s, u);
   const int rv = calc_dist_and_posn_ang( p1, p2, &dist, &pa);
   const int rv1 = calc_dist_and_posn_ang( p1, p2, &dist2, NULL);
   REQUIRE( dist2 == dist && rv1 == 0, "distance depends on what was asked for");
               /* longitudes have an ulp of their own */
   const ld tol = 1e-15L * (1.L + fabsl( p1[0]) + fabsl( p2[0]));
   REQUIRE( fabsl( dist - want) < tol + 4e-15L * want, "distance %.17g, expected %.17Lg", dist, want);
   d.cls( want < 1e-3 ? "close pair" : want > 3.14 ? "near-antipodal pair" : "ordinary pair");
   if( p1[0] == p2[0] && p1[1] == p2[1])
      {
      REQUIRE( rv == -1 && pa == 0. && dist == 0., "identical points: returned %d, distance %g, position angle %g", rv, dist, pa);
      return;
      }
   REQUIRE( pa >= 0. && pa < 6.2831853071796, "position angle %.17g", pa);
   if( rv == -1)
      REQUIRE( s < 1e-14L, "position angle said to be undefined at a distance of %.12f", dist);
   else
      {
                  /* position angle runs from north the other way from the longitude */
      const ld gn = s * cosl( (ld)pa), ge = -s * sinl( (ld)pa);
      REQUIRE( fabsl( gn - n) < 2.L * tol + 4e-15L * s && fabsl( ge - e) < 2.L * tol + 4e-15L * s, "position angle %.15f, expected %.15Lf", pa, atan2l( -e, n));
      }
   calc_dist_and_posn_ang( p2, p1, &dist2, &back);
   REQUIRE( fabs( dist2 - dist) < 2. * (double)tol + 8e-15 * dist, "distance %.17g one way, %.17g the other", dist, dist2);
}

PROP( there, 1500000, 20)
{
   double p1[2], p2[2] = { 1e30, 1e30 };
   p1[0] = d.real( -7., 7.);
   p1[1] = gen_lat( d);
   double dist = d.flip( ) ? d.real( 0., 3.14) : d.rare( 4) ? d.real( 3.14, 7.) : d.logreal( 1e-12, 1.);
   if( d.rare( 8)) dist = d.pick( std::vector<double>{ 0., M_PI, M_PI / 2., 1e-9 });
   if( d.rare( 6)) dist = M_PI / 2. - p1[1];                        /* to a pole */
   const double pa = d.rare( 4) ? (double)d.ival( -4, 4) * M_PI / 4. : d.real( -7., 7.);
   d.note( "from %.17g %.17g by %.17g toward %.17g", p1[0], p1[1], dist, pa);
   d.nontrivial( dist != 0.);
   const double f0 = p1[0], f1 = p1[1];
   reverse_dist_and_posn_ang( p2, p1, dist, pa);
   REQUIRE( p1[0] == f0 && p1[1] == f1, "starting point changed");
   REQUIRE( fabs( p2[1]) <= M_PI / 2. && p2[0] - p1[0] < 3.1415926536 && p2[0] - p1[0] > -3.1415926536, "arrived at %.12f %.12f", p2[0], p2[1]);
   const ld cl = cosl( (ld)p1[1]), sl = sinl( (ld)p1[1]);
   const ld n = sinl( (ld)dist) * cosl( (ld)pa), e = -sinl( (ld)dist) * sinl( (ld)pa), u = cosl( (ld)dist);
               /* meridian,  east,  pole */
   const V want = { u * cl - n * sl, e, u * sl + n * cl };
   const V got = sph( (ld)p2[0] - (ld)p1[0], p2[1]);
   const ld tol = 3e-15L * (1.L + fabsl( p1[0]));
   REQUIRE( fabsl( got.x - want.x) < tol && fabsl( got.y - want.y) < tol && fabsl( got.z - want.z) < tol,
         "arrived at %.15f %.15f: off by %.3Lg %.3Lg %.3Lg", p2[0], p2[1], got.x - want.x, got.y - want.y, got.z - want.z);
   if( dist > 1e-9 && dist < 3.1415)
      {
      double d2, pa2;
      calc_dist_and_posn_ang( p1, p2, &d2, &pa2);
      REQUIRE( fabs( d2 - dist) < 1e-14, "measured distance %.15f instead of %.15f", d2, dist);
      }
}
