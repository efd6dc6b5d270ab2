// flavor: plain
// extra: dist.cpp:-Dmain=dist_main
/* Geodesics on an ellipsoid */
#include <cstdio>
#include <algorithm>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

double earth_dist( const double lat1, const double lon1, const double lat2, const double lon2, const double flattening);
double spherical_earth_dist( const double lat1, const double lon1, const double lat2, const double lon2);
double vincenty_earth_dist( const double lat1, const double lon1, const double lat2, const double lon2, const double flat, double *azimuth, double *back_azimuth);
void vincenty_direct( const double lat1, const double lon1, double *lat2, double *lon2, const double flat, const double azimuth, const double dist);

PROPERTY( "S02", "starting points from pole to pole (equator, poles, within a milliarcsecond of them), azimuths all round (cardinal ones exactly), distances from a millimetre to past the antipodes, ellipsoids from the sphere to a flattening of 1/150, longitudes several turns away; pairs of arbitrary, nearby, nearly antipodal points and points sharing a meridian or parallel; non-trivial = more than a metre apart",
   "Reference: Bessel's geodesic integrals by Gauss-Legendre quadrature in long double; every geodesic shorter than pi times the polar radius is the shortest one, so it must be found by the inverse problem; near the antipodes the length is found by bisection for the starting azimuth (Karney)",
   "tolerance .5 mm on the earth (8e-11), as the code promises, times (297 f)^4 for flatter ellipsoids, plus 2 mm near the antipodes; Andoyer's formula is held to one part in 10000 outside five degrees of the antipodes")

static const ld pil = 3.14159265358979323846264338327950288L;
static std::vector<ld> gx, gw;
static void setup_gl( )
{
   const int n = 16;
   for( int i = 0; i < n; i++)
      {
      ld x = cosl( pil * (i + .75L) / (n + .5L)), dp = 1;
      for( int it = 0; it < 50; it++)
         {
         ld p0 = 1, p1 = x;
         for( int k = 2; k <= n; k++) { const ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
         dp = n * (x * p1 - p0) / (x * x - 1);
         x -= p1 / dp;
         }
      gx.push_back( x);
      gw.push_back( 2.L / ((1 - x * x) * dp * dp));
      }
}
template<class F> static ld integ( F f, ld a, ld b)
{
   if( gx.empty( )) setup_gl( );
   const int panels = 1 + (int)( fabsl( b - a) / .8L);
   ld s = 0;
   for( int p = 0; p < panels; p++)
      {
      const ld l = a + (b - a) * p / panels, h = (b - a) / panels / 2.L;
      for( size_t i = 0; i < gx.size( ); i++) s += gw[i] * h * f( l + h * (1.L + gx[i]));
      }
   return( s);
}
struct V { ld x, y, z; };
static V sph( ld lon, ld lat) { return( V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }); }
static ld gap( const V &a, const V &b) { return( sqrtl( (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z))); }

            /* equatorial radius = 1;  'az2' is the azimuth of the geodesic on arrival */
static void ref_direct( ld lat1, ld az1, ld s, ld f, ld &lat2, ld &dlon, ld &az2, ld &sig)
{
   const ld b = 1.L - f, n = f / (2.L - f);
   (void)n;
   const ld sb = b * sinl( lat1), cb = cosl( lat1), hyp = sqrtl( sb * sb + cb * cb);
   const ld sB = sb / hyp, cB = cb / hyp;                        /* reduced latitude */
   const ld sa0 = sinl( az1) * cB, ca0 = sqrtl( cosl( az1) * cosl( az1) + sinl( az1) * sB * sinl( az1) * sB);
   const ld sig1 = (sB == 0 && cosl( az1) == 0) ? 0 : atan2l( sB, cosl( az1) * cB);
   const ld om1 = (sB == 0 && cosl( az1) == 0) ? 0 : atan2l( sa0 * sB, cosl( az1) * cB);
   const ld ep2 = (1 - b * b) / (b * b), k2 = ep2 * ca0 * ca0;
   auto arc = [&]( ld x) { const ld q = sinl( x); return( b * sqrtl( 1 + k2 * q * q)); };
   ld sg = sig1 + s / (b * sqrtl( 1 + k2 / 2));
   for( int i = 0; i < 8; i++)
      {
      const ld err = integ( arc, sig1, sg) - s;
      sg -= err / arc( sg);
      if( fabsl( err) < 1e-18L) break;
      }
   const ld om2 = atan2l( sa0 * sinl( sg), cosl( sg));
   ld dom = om2 - om1;                          /* unwrap:  omega turns with sigma */
   const ld turns = roundl( ((sa0 < 0 ? -(sg - sig1) : sg - sig1) - dom) / (2 * pil));
   dom += turns * 2 * pil;
   dlon = dom - f * sa0 * integ( [&]( ld x) { const ld q = sinl( x); return( (2 - f) / (1 + (1 - f) * sqrtl( 1 + k2 * q * q))); }, sig1, sg);
   const ld sB2 = ca0 * sinl( sg), cB2 = sqrtl( ca0 * cosl( sg) * ca0 * cosl( sg) + sa0 * sa0);
   lat2 = atan2l( sB2, b * cB2);
   az2 = atan2l( sa0, ca0 * cosl( sg));
   sig = sg - sig1;
}
static double gen_lat( Draw &d)
{
   switch( d.raw( 4))
      {
      case 0: return( d.pick( std::vector<double>{ 0., M_PI / 2., -M_PI / 2., .5, -.5, 1e-9, -1e-9 }));
      case 1: return( (d.flip( ) ? 1. : -1.) * (M_PI / 2. - d.logreal( 1e-12, .1)));
      case 2: return( (d.flip( ) ? 1. : -1.) * d.logreal( 1e-10, .1));
      default: return( asin( d.real( -1., 1.)));
      }
}
static double gen_flat( Draw &d)
{
   return( d.rare( 3) ? d.pick( std::vector<double>{ 0., 1. / 298.257223563, 1. / 297., 1. / 150. }) : d.flip( ) ? 1. / 298.257223563 : d.real( 0., 1. / 150.));
}
static double tol_for( double f)
{
   const double r = 297. * f;
   return( 2e-11 + 6e-11 * (r > 1. ? r * r * r * r : 1.));
}

PROP( direct_problem, 200000, 20)
{
   const double f = gen_flat( d), lat = gen_lat( d), lon = d.real( -7., 7.);
   const double az = d.rare( 3) ? (double)d.ival( -8, 8) * M_PI / 4. : d.real( -7., 7.);
   const double s = d.flip( ) ? d.real( 0., 3.13) : d.flip( ) ? d.logreal( 1e-10, 1.) : d.real( 0., 7.);
   d.note( "f=%.9f from lat %.15g lon %.9f, azimuth %.15g, distance %.15g", f, lat, lon, az, s);
   d.nontrivial( s > 1e-7);
   double lat2 = 1e30, lon2 = 1e30;
   ld rlat, rdlon, raz, sig;
   vincenty_direct( lat, lon, &lat2, &lon2, f, az, s);
   ref_direct( lat, az, s, f, rlat, rdlon, raz, sig);
   const ld miss = gap( sph( lon2, lat2), sph( lon + rdlon, rlat));
   REQUIRE( fabs( lat2) <= M_PI / 2., "latitude %.12f", lat2);
   REQUIRE( miss < 2. * tol_for( f), "arrived at lat %.12f lon %.12f, expected %.12Lf %.12Lf (off by %.3Lg)", lat2, lon2, rlat, lon + rdlon, miss);
}

PROP( inverse_problem, 200000, 20)
{
   const double f = gen_flat( d), b = 1. - f, lat1 = gen_lat( d), lon1 = d.real( -7., 7.);
   const double az0 = d.rare( 3) ? (double)d.ival( -8, 8) * M_PI / 4. : d.real( -7., 7.);
   const double s = d.flip( ) ? d.real( 0., 1.) * M_PI * b * .9999 : d.logreal( 1e-10, 1.);
   ld rlat, rdlon, raz, sig;
   ref_direct( lat1, az0, s, f, rlat, rdlon, raz, sig);
   const double lat2 = (double)rlat, lon2 = (double)( lon1 + rdlon + 2. * pil * (ld)d.ival( -2, 2));
   d.note( "f=%.9f from %.15g %.15g to %.15g %.15g: distance %.15g", f, lat1, lon1, lat2, lon2, s);
   d.nontrivial( s > 1e-7);
   d.cls( s < 1e-3 ? "short line" : s > 3.1 ? "long line" : "ordinary line");
   double az = 1e30, back = 1e30;
   const double dist = vincenty_earth_dist( lat1, lon1, lat2, lon2, f, &az, &back);
   const double tol = tol_for( f) + (s > 3.1 ? 1e-9 : 0.);
   REQUIRE( fabs( dist - s) < tol, "distance %.15f, expected %.15f (off by %.3g)", dist, s, dist - s);
   REQUIRE( dist == vincenty_earth_dist( lat1, lon1, lat2, lon2, f, NULL, NULL), "distance depends on what was asked for");
   REQUIRE( az >= 0. && az < 6.2831853072 && back >= 0. && back < 6.2831853072, "azimuths %.9f %.9f", az, back);
   const double rev = vincenty_earth_dist( lat2, lon2, lat1, lon1, f, NULL, NULL);
   REQUIRE( fabs( rev - s) < tol, "distance the other way %.15f, expected %.15f", rev, s);
               /* the azimuth found must lead there;  it's not defined well for short and antipodal lines */
   ld l2, dl, a2;
   ref_direct( lat1, az, dist, f, l2, dl, a2, sig);
   const ld miss = gap( sph( lon1 + dl, l2), sph( lon2, lat2));
   REQUIRE( miss < 4. * tol, "azimuth %.12f leads to lat %.12Lf lon %.12Lf (off by %.3Lg)", az, l2, lon1 + dl, miss);
   if( s > 1e-6)
      {
      const ld da = remainderl( a2 - (ld)back, 2 * pil);
      REQUIRE( fabsl( da) * sinl( fminl( s, pil / 2)) * cosl( l2) < 10. * tol / fmax( 1e-3, fmin( 1., s)) + 1e-9, "arrives with azimuth %.12f, expected %.12Lf", back, a2);
      }
}

            /* Karney's one-dimensional search for the starting azimuth;  the longitude reached is a
            monotonic function of it once the points are arranged so that lat1 < 0, |lat2| <= |lat1| */
static ld ref_inverse( ld lat1, ld lat2, ld dlon, ld f, ld &sin_arc)
{
   if( fabsl( lat1) < fabsl( lat2)) std::swap( lat1, lat2);
   if( lat1 > 0) { lat1 = -lat1; lat2 = -lat2; }
   dlon = fabsl( remainderl( dlon, 2 * pil));
   const ld b = 1 - f, ep2 = (1 - b * b) / (b * b);
   if( lat1 == 0)
      {
      if( dlon <= pil * b) { sin_arc = sinl( dlon / b); return( dlon); }
      lat1 = -1e-17L;
      }
   const ld h1 = hypotl( b * sinl( lat1), cosl( lat1)), sB1 = b * sinl( lat1) / h1, cB1 = cosl( lat1) / h1;
   const ld h2 = hypotl( b * sinl( lat2), cosl( lat2)), sB2 = b * sinl( lat2) / h2, cB2 = cosl( lat2) / h2;
   ld lo = -1, hi = 1, s = 0;
   for( int i = 0; i < 75; i++)
      {
      const ld x = (lo + hi) / 2, ca1 = -powl( x, 9), sa1 = sqrtl( 1 - ca1 * ca1);
      const ld sa0 = sa1 * cB1;
      const ld diff = (sB1 - sB2) * (sB1 + sB2);           /* = cB2^2 - cB1^2,  not negative */
      const ld ca2cB2 = sqrtl( ca1 * cB1 * ca1 * cB1 + (diff > 0 ? diff : 0));
      const ld ca0 = hypotl( ca1, sa1 * sB1), k2 = ep2 * ca0 * ca0;
      const ld sig1 = atan2l( sB1, ca1 * cB1), om1 = atan2l( sa0 * sB1, ca1 * cB1);
      ld sig2 = atan2l( sB2, ca2cB2), om2 = atan2l( sa0 * sB2, ca2cB2);
      if( sig2 < sig1) sig2 += 2 * pil;
      if( om2 < om1) om2 += 2 * pil;
      const ld lam = om2 - om1 - f * sa0 * integ( [&]( ld t) { const ld q = sinl( t); return( (2 - f) / (1 + (1 - f) * sqrtl( 1 + k2 * q * q))); }, sig1, sig2);
      if( lam > dlon) hi = x; else lo = x;
      if( i > 70) { s = integ( [&]( ld t) { const ld q = sinl( t); return( b * sqrtl( 1 + k2 * q * q)); }, sig1, sig2); sin_arc = sinl( sig2 - sig1); }
      }
   return( s);
}

PROP( near_antipodes, 20000, 20)
{
   const double f = gen_flat( d), lat1 = gen_lat( d), lon1 = d.real( -4., 4.);
   const double r = d.logreal( 1e-9, .05);
   double lat2 = -lat1 + (d.rare( 4) ? 0. : r * d.real( -1., 1.)), lon2 = lon1 + M_PI + (d.rare( 4) ? 0. : r * d.real( -1., 1.)) + 2. * M_PI * (double)d.ival( -2, 2);
   lat2 = std::max( -M_PI / 2., std::min( M_PI / 2., lat2));
   d.note( "f=%.9f from %.15g %.15g to %.15g %.15g", f, lat1, lon1, lat2, lon2);
   d.nontrivial( true);
   double az = 1e30, back = 1e30;
   const double dist = vincenty_earth_dist( lat1, lon1, lat2, lon2, f, &az, &back);
   REQUIRE( dist > 3. && dist < 3.2 && az >= 0. && az < 6.2831853072, "distance %.12f azimuth %.12f", dist, az);
   const double tol = 4. * tol_for( f) + 1e-9;
   ld sin_arc = 0;
   const ld want = ref_inverse( lat1, lat2, (ld)lon2 - (ld)lon1, f, sin_arc);
   const ld resol = f * 8e-16L / fmaxl( fabsl( sin_arc), 2.5e-10L);      /* a rounding of the longitude on the auxiliary sphere */
   REQUIRE( fabsl( dist - want) < tol + resol, "distance %.12f, expected %.12Lf (off by %.3Lg)", dist, want, dist - want);
   ld l2, dl, a2, sig;
   ref_direct( lat1, az, dist, f, l2, dl, a2, sig);
   const ld miss = gap( sph( lon1 + dl, l2), sph( lon2, lat2));
               /* the azimuth isn't known to better than this when the arc is almost a half turn */
   const ld slack = 6.L * f * 5e-15L / fmaxl( fabsl( sin_arc), 2.5e-10L);
   REQUIRE( miss < tol * 4. + slack, "azimuth %.12f, distance %.12f leads to lat %.12Lf lon %.12Lf (off by %.3Lg)", az, dist, l2, lon1 + dl, miss);
   const double rev = vincenty_earth_dist( lat2, lon2, lat1, lon1, f, NULL, NULL);
   REQUIRE( fabs( rev - dist) < (tol + resol) * 2., "distance %.12f, the other way %.12f", dist, rev);
}

PROP( sphere, 1000000, 20)
{
   double p1[2], p2[2];
   p1[0] = d.real( -7., 7.);
   p1[1] = gen_lat( d);
   const double r = d.logreal( 1e-11, 1.);
   switch( d.raw( 3))
      {
      case 0: p2[0] = p1[0] + r * d.real( -1., 1.); p2[1] = p1[1] + r * d.real( -1., 1.); break;
      case 1: p2[0] = p1[0] + M_PI + r * d.real( -1., 1.); p2[1] = -p1[1] + r * d.real( -1., 1.); break;
      case 2: p2[0] = d.flip( ) ? p1[0] : d.real( -7., 7.); p2[1] = d.flip( ) ? p1[1] : gen_lat( d); break;
      default: p2[0] = d.real( -7., 7.); p2[1] = gen_lat( d);
      }
   p2[1] = std::max( -M_PI / 2., std::min( M_PI / 2., p2[1]));
   d.note( "%.15g %.15g to %.15g %.15g", p1[1], p1[0], p2[1], p2[0]);
   const ld dl = (ld)p2[0] - (ld)p1[0], h = sinl( dl / 2.L), a = p1[1], b = p2[1], oc = 2.L * h * h;
   const ld e = sinl( dl) * cosl( b), n = sinl( b - a) + oc * sinl( a) * cosl( b), u = cosl( b - a) - oc * cosl( a) * cosl( b);
   const ld want = atan2l( sqrtl( e * e + n * n), u);
   d.nontrivial( want > 1e-7);
   const double got = spherical_earth_dist( p1[1], p1[0], p2[1], p2[0]);
   REQUIRE( fabsl( got - want) < 1e-14L + 2e-15L * want, "distance %.16f, expected %.16Lf", got, want);
   const double f = d.real( 0., 1. / 150.);
   if( want < pil - .09L)
      {
      const double andoyer = earth_dist( p1[1], p1[0], p2[1], p2[0], f);
      const double exact = vincenty_earth_dist( p1[1], p1[0], p2[1], p2[0], f, NULL, NULL);
      REQUIRE( fabs( andoyer - exact) < 3e-12 + (1e-4 * 9e4 * f * f + 1e-9) * exact, "Andoyer %.12f, geodesic %.12f, f=%.9f", andoyer, exact, f);
      }
}
