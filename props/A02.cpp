// flavor: plain
/* Galactic and supergalactic coordinates */
#include <cstdio>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "A02", "directions all over the sphere (poles of both systems, nodes, angles up to several turns), both directions; non-trivial = not at a celestial pole",
   "Reference: rotation from the J2000 pole and node of the galactic system (192.85948, 27.12825, 122.93192 degrees) and the supergalactic pole (l 47.37, b 6.32, node l 137.37), in long double; there-and-back round trip; pole distances",
   "tolerance 1e-7 radian (the matrices are given to eight to ten places), more within a degree of the poles of either system, where those roundings grow through an arcsine")

static const ld pil = 3.14159265358979323846264338327950288L, rad = pil / 180.L;
struct V { ld x, y, z; };
static V sph( ld lon, ld lat) { return( V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }); }
static ld gap( const V &a, const V &b) { return( sqrtl( (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z))); }

               /* system with pole at (lon0, lat0);  the old system's pole is at longitude lonp in the new one */
static V convert( const V &v, ld lon0, ld lat0, ld lonp)
{
   const V p = sph( lon0, lat0);
   const V toward = sph( lon0, lat0 - pil / 2.L), third = { -sinl( lon0), cosl( lon0), 0 };     /* 90 degrees from the pole, away from the old pole */
   const ld z = v.x * p.x + v.y * p.y + v.z * p.z;
   const ld a = -(v.x * toward.x + v.y * toward.y + v.z * toward.z);      /* toward the old pole */
   const ld b = v.x * third.x + v.y * third.y + v.z * third.z;
   return( V{ a * cosl( lonp) + b * sinl( lonp), a * sinl( lonp) - b * cosl( lonp), z });
}
static V to_gal( const V &v) { return( convert( v, 192.85948L * rad, 27.12825L * rad, 122.93192L * rad)); }
static V to_super( const V &v)
{
   const V g = to_gal( v), p = sph( 47.37L * rad, 6.32L * rad), x = sph( 137.37L * rad, 0.L);
   const V y = { p.y * x.z - p.z * x.y, p.z * x.x - p.x * x.z, p.x * x.y - p.y * x.x };
   return( V{ g.x * x.x + g.y * x.y + g.z * x.z, g.x * y.x + g.y * y.y + g.z * y.z, g.x * p.x + g.y * p.y + g.z * p.z });
}
static void draw( Draw &d, double &lon, double &lat)
{
   static const double poles[][2] = { { 192.85948, 27.12825 }, { 12.85948, -27.12825 }, { 266.405, -28.936 }, { 282.859, 0. }, { 283.75, 15.7 }, { 103.75, -15.7 }, { 42.3, 59.5 } };
   lon = d.real( -20., 20.);
   lat = asin( d.real( -1., 1.));
   if( d.rare( 5)) { const auto &p = poles[d.raw( 6)]; lon = p[0] * M_PI / 180. + d.real( -1e-4, 1e-4); lat = p[1] * M_PI / 180. + d.real( -1e-4, 1e-4); }
   if( d.rare( 8)) lat = d.pick( std::vector<double>{ M_PI / 2., -M_PI / 2., 0. });
   if( d.rare( 8)) lon = (double)d.ival( -8, 8) * M_PI / 4.;
   if( d.rare( 10)) lat = (d.flip( ) ? 1. : -1.) * (M_PI / 2. - d.logreal( 1e-9, 1e-3));
}

            /* the matrices aren't quite orthonormal,  and the latitude comes from an arcsine */
static ld slack( bool super, double lat)
{
   const ld delta = super ? 3e-8L : 3e-10L, c = cosl( (ld)lat);
   return( 1e-7L + 2.L * fminl( delta / fmaxl( c, 1e-12L), sqrtl( 2.L * delta)));
}

PROP( systems, 1500000, 20)
{
   double lon, lat, o1 = 1e30, o2 = 1e30, b1 = 1e30, b2 = 1e30;
   draw( d, lon, lat);
   const bool super = d.flip( );
   d.note( "%s %.15g %.15g", super ? "supergalactic" : "galactic", lon, lat);
   d.nontrivial( fabs( lat) < 1.5707);
   d.cls( super ? "supergalactic" : "galactic");
   const V v = sph( lon, lat);
   if( super) { ra_dec_to_supergalactic( lon, lat, &o2, &o1); supergalactic_to_ra_dec( o2, o1, &b1, &b2); }
   else { ra_dec_to_galactic( lon, lat, &o2, &o1); galactic_to_ra_dec( o2, o1, &b1, &b2); }
   REQUIRE( fabs( o2) < 1.5707963268 && fabs( b2) < 1.5707963268, "latitude out of range");
   const V want = super ? to_super( v) : to_gal( v), got = sph( o1, o2);
   REQUIRE( gap( want, got) < slack( super, o2), "lon %.9f lat %.9f, expected %.9Lf %.9Lf", o1, o2, atan2l( want.y, want.x), asinl( want.z));
   REQUIRE( gap( sph( b1, b2), v) < slack( super, o2) + slack( super, lat), "comes back as %.9f %.9f", b1, b2);
   if( super) { supergalactic_to_ra_dec( lat, lon, &b1, &b2); ra_dec_to_supergalactic( b1, b2, &o2, &o1); }
   else { galactic_to_ra_dec( lat, lon, &b1, &b2); ra_dec_to_galactic( b1, b2, &o2, &o1); }
   REQUIRE( gap( super ? to_super( sph( b1, b2)) : to_gal( sph( b1, b2)), v) < slack( super, b2), "RA %.9f dec %.9f isn't at %.9f %.9f", b1, b2, lon, lat);
   REQUIRE( gap( sph( o1, o2), v) < slack( super, b2) + slack( super, lat), "comes back as %.9f %.9f from RA/dec", o1, o2);
}
PROP( matrices, 2000, 5)
{
   const double *m = d.flip( ) ? j2000_to_galactic_matrix( ) : j2000_to_supergalactic_matrix( );
   const int i = (int)d.raw( 2), j = (int)d.raw( 2);
   d.nontrivial( i != j);
   d.note( "rows %d %d", i, j);
   const double s = m[i * 3] * m[j * 3] + m[i * 3 + 1] * m[j * 3 + 1] + m[i * 3 + 2] * m[j * 3 + 2];
   REQUIRE( fabs( s - (i == j ? 1. : 0.)) < 3e-8, "rows %d and %d: product %.12f", i, j, s);
   const double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
   REQUIRE( fabs( det - 1.) < 3e-8, "determinant %.12f", det);
}
