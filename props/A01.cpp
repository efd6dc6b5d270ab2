// flavor: plain
/* Horizon coordinates */
#include <cstdio>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "A01", "directions all over the sky (poles, zenith, meridian, horizon), observers from pole to pole (exactly at the poles and the equator, within a milliarcsecond of the poles), instants from -1000 to 5000, positions for J2000 or of date, every optional argument given or omitted, altitudes beyond the zenith; non-trivial = observer not on the equator",
   "Reference: vectors in long double: the direction (precessed by the library's own matrix, which P01 decides) is dotted with the observer's zenith, north and east vectors, placed by the library's sidereal time plus the equation of the equinoxes; there-and-back round trip",
   "directions are compared as vectors; the tolerance grows to about an arcsecond within an arcsecond of the poles of the earth, where the code's arccosine loses digits")

static const ld pil = 3.14159265358979323846264338327950288L;
static double gen_lat( Draw &d)
{
   switch( d.raw( 5))
      {
      case 0: return( d.pick( std::vector<double>{ 0., M_PI / 2., -M_PI / 2., M_PI / 4., -M_PI / 4. }));
      case 1: return( (d.flip( ) ? 1. : -1.) * (M_PI / 2. - d.logreal( 1e-12, .1)));
      case 2: return( d.special( -1.5, 1.5));
      default: return( asin( d.real( -1., 1.)));
      }
}
struct V { ld x, y, z; };
static ld dot( const V &a, const V &b) { return( a.x * b.x + a.y * b.y + a.z * b.z); }
static V sph( ld lon, ld lat) { return( V{ cosl( lon) * cosl( lat), sinl( lon) * cosl( lat), sinl( lat) }); }

struct setting { double jd, lat, lon; ld lst; };
static setting gen_setting( Draw &d)
{
   setting s;
   s.jd = 2451545. + (d.flip( ) ? d.real( -20000., 20000.) : (d.rare( 5) ? 0. : d.real( -1e6, 1e6)));
   s.lat = gen_lat( d);
   s.lon = d.rare( 6) ? d.pick( std::vector<double>{ 0., M_PI, -M_PI, M_PI / 2. }) : d.real( -6.3, 6.3);
   double dpsi;
   nutation( (s.jd - 2451545.) / 36525., &dpsi, NULL);
   const ld ee = dpsi / 3600.L * pil / 180.L * .917482062L;
   s.lst = (ld)green_sidereal_time( s.jd) + ee + s.lon;
   return( s);
}
static ld slack( const setting &s)     /* how far the arccosine may be off */
{
   const ld cl = fabsl( cosl( (ld)s.lat));
   return( 6e-8L + sqrtl( 2e-15L / (cl > 1e-5L ? cl : 1e-5L)) + (cl < 1.1e-5L ? 1.1e-5L : 0.L));
}

PROP( to_horizon, 1000000, 20)
{
   const setting s = gen_setting( d);
   DPT rd, aa, le, latlon;
   rd.x = d.real( -6.3, 6.3);
   rd.y = gen_lat( d);
   if( d.rare( 3))            /* near the meridian,  or six hours from it */
      {
      rd.x = -(double)remainderl( s.lst + (ld)d.pick( std::vector<double>{ 0., M_PI, M_PI / 2., -M_PI / 2. }) + d.pick( std::vector<double>{ 0., 1e-9, -1e-9, 1e-4, -1e-4 }), 2.L * pil);
      if( d.rare( 3)) rd.y = s.lat;
      }
   const bool of_date = d.flip( ), want_loc = of_date || d.flip( ), want_ha = d.flip( );
   latlon.x = s.lon;
   latlon.y = s.lat;
   d.note( "JD %.9f, lat %.15g lon %.15g, RA %.15g dec %.15g %s%s%s", s.jd, s.lat, s.lon, -rd.x, rd.y, of_date ? "of date" : "J2000", want_loc ? ",loc" : "", want_ha ? ",ha" : "");
   d.nontrivial( s.lat != 0.);
   d.cls( of_date ? "position of date" : "J2000 position");
   if( fabs( cos( s.lat)) < 1e-5) d.cls( "polar observer");
   double ha = 1e30;
   le.x = le.y = 1e30;
   DPT expect = rd;
   if( of_date) le = rd;
   else precess_pt( &expect, &rd, 2000., 2000. + (s.jd - 2451545.) / 365.25);
   const DPT rd0 = rd;
   full_ra_dec_to_alt_az( of_date ? NULL : &rd, &aa, want_loc ? &le : NULL, &latlon, s.jd, want_ha ? &ha : NULL);
   REQUIRE( rd.x == rd0.x && rd.y == rd0.y && latlon.x == s.lon && latlon.y == s.lat, "inputs changed");
   if( want_loc)
      {
      const V a = sph( expect.x, expect.y), b = sph( le.x, le.y);
      REQUIRE( dot( a, b) > 1. - 1e-14L && fabsl( a.x - b.x) + fabsl( a.y - b.y) + fabsl( a.z - b.z) < 1e-7, "position of date %.12f %.12f, expected %.12f %.12f", le.x, le.y, expect.x, expect.y);
      }
   const ld H = s.lst + expect.x;         /* x holds minus the RA */
   if( want_ha)
      {
      const ld diff = remainderl( (ld)ha + H, 2.L * pil);
      REQUIRE( fabsl( diff) < 1e-6L && ha <= 3.1415926536 && ha >= -3.1415926536, "hour angle %.12f, expected %.12Lf", -ha, remainderl( H, 2.L * pil));
      }
               /* object's unit vector,  in the frame with x toward the meridian */
   const V o = sph( -H, expect.y);
   const ld sl = sinl( (ld)s.lat), cl = cosl( (ld)s.lat);
   const V up = { cl, 0, sl }, north = { -sl, 0, cl }, east = { 0, 1, 0 };
   const V want = { dot( o, north), dot( o, east), dot( o, up) };
   REQUIRE( fabs( aa.y) < 1.5707963268 && fabs( aa.x) < 3.1415926536 * 1.0001, "altitude %.9f, azimuth %.9f out of range", aa.y, aa.x);
               /* azimuth is from south through west */
   const ld az = aa.x, alt = aa.y;
   const V got = { -cosl( az) * cosl( alt), -sinl( az) * cosl( alt), sinl( alt) };
   const ld tol = slack( s);
   REQUIRE( fabsl( got.z - want.z) < 2e-7L, "altitude %.9Lf, expected %.9Lf", alt, asinl( want.z));
   REQUIRE( fabsl( got.x - want.x) < tol + 2e-7L && fabsl( got.y - want.y) < tol + 2e-7L,
       "azimuth %.9Lf (altitude %.9Lf), expected %.9Lf", az, alt, atan2l( -want.y, -want.x));
}

PROP( from_horizon, 1000000, 20)
{
   const setting s = gen_setting( d);
   DPT rd, aa, latlon;
   aa.x = d.rare( 4) ? d.pick( std::vector<double>{ 0., M_PI, -M_PI, M_PI / 2., M_PI * 1.5, 1e-9, -1e-9 }) : d.real( -6.3, 6.3);
   aa.y = d.rare( 5) ? d.real( -3., 3.) : gen_lat( d);
   latlon.x = s.lon;
   latlon.y = s.lat;
   d.note( "JD %.9f, lat %.15g lon %.15g, az %.15g alt %.15g", s.jd, s.lat, s.lon, aa.x, aa.y);
   d.nontrivial( s.lat != 0.);
   if( fabs( cos( s.lat)) < 1e-5) d.cls( "polar observer");
   if( fabs( aa.y) > M_PI / 2.) d.cls( "altitude past the zenith");
   full_alt_az_to_ra_dec( &rd, &aa, s.jd, &latlon);
   const ld az = aa.x, alt = aa.y;        /* from north through east */
   const ld n = cosl( az) * cosl( alt), e = sinl( az) * cosl( alt), u = sinl( alt);
   const ld sl = sinl( (ld)s.lat), cl = cosl( (ld)s.lat);
   const V want = { cl * u - sl * n, e, sl * u + cl * n };     /* meridian,  east,  pole */
   DPT loc;
   precess_pt( &loc, &rd, 2000., 2000. + (s.jd - 2451545.) / 365.25);
   const V got = sph( -loc.x - s.lst, loc.y);
   const ld tol = slack( s) + 3e-7L;
   REQUIRE( fabsl( got.x - want.x) < tol && fabsl( got.y - want.y) < tol && fabsl( got.z - want.z) < 4e-7L,
       "RA %.9f dec %.9f is at %.9Lf %.9Lf %.9Lf, expected %.9Lf %.9Lf %.9Lf", -rd.x, rd.y, got.x, got.y, got.z, want.x, want.y, want.z);
               /* and back again */
   DPT aa2;
   full_ra_dec_to_alt_az( &rd, &aa2, NULL, &latlon, s.jd, NULL);
   const V a = sph( az + pil, alt), b = sph( aa2.x, aa2.y);
   REQUIRE( fabsl( a.x - b.x) < 2 * tol && fabsl( a.y - b.y) < 2 * tol && fabsl( a.z - b.z) < 1e-6L, "az %.9Lf alt %.9Lf comes back as az %.9f alt %.9f", az + pil, alt, aa2.x, aa2.y);
}
