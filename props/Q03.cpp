// flavor: plain
// extra: parallax.cpp:@parallax_main
/* parallax:  positions of observatories in all their forms */
#include <cstdio>
#include <cmath>
#include <cstring>
#include "watdefs.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "pbt.h"
#include "runprog.h"
using pbt::Draw;

extern "C" int parallax_main( int argc, const char **argv);

PROPERTY( "Q03", "positions at all longitudes and latitudes, 8 km below to 3000 km above the ellipsoid, as longitude, latitude and altitude (decimal degrees, degrees and minutes, degrees, minutes and seconds), parallax constants in earth radii or metres, x, y and z in earth radii or metres, and observatory codes from lists of 1 to 8 of both kinds; pairs of codes; codes not listed; non-trivial = a position is shown",
   "Reference in long double: geodetic and geocentric coordinates of the WGS84/GRS80 ellipsoid (the inverse by iteration), great-circle distance and initial bearing from vectors; every number shown is compared",
   "altitudes to .5 millimetre (the code has minor axes .1 mm apart); angles in degrees, minutes and seconds are cut, not rounded; the pole (within .1 degree) excluded for x, y, z given in metres")

typedef long double ld;
static const ld pi = 3.14159265358979323846264338327950288419716939937510582L, A = 6378137.L, B = 6356752.314140347L;

struct Spot { ld lon, lat, alt, rc, rs; };         /* radians,  metres,  earth radii */

static void forward( Spot &s)
{
   const ld e2 = 1.L - (B / A) * (B / A), N = A / sqrtl( 1.L - e2 * sinl( s.lat) * sinl( s.lat));
   s.rc = (N + s.alt) * cosl( s.lat) / A;
   s.rs = (N * (1.L - e2) + s.alt) * sinl( s.lat) / A;
}

static void inverse( Spot &s)
{
   const ld e2 = 1.L - (B / A) * (B / A);
   s.lat = atan2l( s.rs, s.rc);
   for( int i = 0; i < 100; i++)
      {
      const ld N = A / sqrtl( 1.L - e2 * sinl( s.lat) * sinl( s.lat));
      s.lat = atan2l( s.rs * A + e2 * N * sinl( s.lat), s.rc * A);
      }
   const ld N = A / sqrtl( 1.L - e2 * sinl( s.lat) * sinl( s.lat));
   s.alt = s.rc * A * cosl( s.lat) + s.rs * A * sinl( s.lat) - N * (1.L - e2 * sinl( s.lat) * sinl( s.lat));
}

static double sexagesimal( const char *p, const std::string &line)
{
   int dd, m;
   double s;
   char sign;
   REQUIRE( sscanf( p, " %c%d %d %lf", &sign, &dd, &m, &s) == 4 && (sign == '+' || sign == '-') && m < 60 && s < 60., "'%s'", line.c_str( ));
   return( (sign == '-' ? -1. : 1.) * (dd + m / 60. + s / 3600.));
}

static void check_output( const std::string &out, const Spot &s, bool has_lon)
{
   int n_lon = 0, seen = 0;
   const double lon = (double)( s.lon * 180.L / pi), lat = (double)( s.lat * 180.L / pi);
   for( const std::string &l : rp::lines( out))
      {
      double a, b, c;
      if( sscanf( l.c_str( ), "Longitude %lf =", &a) == 1)
         {
         double diff = (a - lon) / 360.;
         REQUIRE( fabs( diff - round( diff)) * 360. < 2e-9, "'%s',  longitude is %.9f", l.c_str( ), lon);
         REQUIRE( fabs( sexagesimal( strchr( l.c_str( ), '=') + 1, l) - a) < 2.1e-5 / 3600. + 1e-9, "'%s'", l.c_str( ));
         n_lon++;
         }
      else if( sscanf( l.c_str( ), "Latitude %lf =", &a) == 1)
         {
         REQUIRE( fabs( a - lat) < 2e-9, "'%s',  latitude is %.9f", l.c_str( ), lat);
         REQUIRE( fabs( sexagesimal( strchr( l.c_str( ), '=') + 1, l) - a) < 2.1e-5 / 3600. + 1e-9, "'%s'", l.c_str( ));
         seen |= 1;
         }
      else if( sscanf( l.c_str( ), "Altitude %lf meters", &a) == 1)
         { seen |= 2; REQUIRE( fabs( a - (double)s.alt) < 5e-4, "'%s',  altitude is %.5Lf", l.c_str( ), s.alt); }
      else if( sscanf( l.c_str( ), "Parallax constants %lf %lf", &a, &b) == 2)
         { seen |= 4; REQUIRE( fabs( a - (double)s.rc) < 1e-10 && fabs( b - (double)s.rs) < 1e-10, "'%s',  constants are %.11Lf %.11Lf", l.c_str( ), s.rc, s.rs); }
      else if( sscanf( l.c_str( ), "In meters: %lf %lf", &a, &b) == 2)
         { seen |= 8; REQUIRE( fabs( a - (double)( s.rc * A)) < 5e-4 && fabs( b - (double)( s.rs * A)) < 5e-4, "'%s',  they're %.5Lf %.5Lf", l.c_str( ), s.rc * A, s.rs * A); }
      else if( sscanf( l.c_str( ), "xyz in Earth radii %lf %lf %lf", &a, &b, &c) == 3)
         { seen |= 16; REQUIRE( fabs( a - (double)( s.rc * cosl( s.lon))) < 1.01e-7 && fabs( b - (double)( s.rc * sinl( s.lon))) < 1.01e-7 && fabs( c - (double)s.rs) < 1.01e-7, "'%s'", l.c_str( )); }
      else if( sscanf( l.c_str( ), "xyz in meters %lf %lf %lf", &a, &b, &c) == 3)
         { seen |= 32; REQUIRE( fabs( a - (double)( s.rc * cosl( s.lon) * A)) < 5e-4 && fabs( b - (double)( s.rc * sinl( s.lon) * A)) < 5e-4 && fabs( c - (double)( s.rs * A)) < 5e-4, "'%s',  they're %.5Lf %.5Lf %.5Lf", l.c_str( ), s.rc * cosl( s.lon) * A, s.rc * sinl( s.lon) * A, s.rs * A); }
      }
   REQUIRE( (seen & 15) == 15, "missing lines in %s", out.c_str( ));
   if( has_lon)
      REQUIRE( seen == 63 && n_lon >= 1, "missing lines in %s", out.c_str( ));
}

static Spot any( Draw &d)
{
   Spot s;
   s.lon = (ld)( d.flip( ) ? d.real( -180., 360.) : d.real( 0., 360.)) * pi / 180.L;
   s.lat = (ld)( d.rare( 5) ? (d.flip( ) ? 1. : -1.) * (90. - d.logreal( .001, 5.)) : d.real( -89.9, 89.9)) * pi / 180.L;
   if( d.rare( 8)) s.lat = (ld)d.logreal( 1e-9, .02) * (d.flip( ) ? 1 : -1);
   s.alt = (ld)( d.rare( 5) ? d.real( -8000., 3e+6) : d.real( -100., 5000.));
   if( d.rare( 20)) s.alt = 0.L;
   forward( s);
   return( s);
}

static std::string angle( Draw &d, ld rad, ld &made)        /* in some form;  'made' is what it says */
{
   const double x = (double)( rad * 180.L / pi);
   const char *sign = x < 0. ? "-" : (d.flip( ) ? "+" : "");
   const double ax = fabs( x);
   std::string s;
   switch( d.raw( 2))
      {
      case 0:
         s = pbt::strf( "%.*f", 4 + (int)d.raw( 6), ax);
         made = (ld)atof( s.c_str( ));
         break;
      case 1:
         {
         const std::string m = pbt::strf( "%.5f", (ax - floor( ax)) * 60.);
         s = pbt::strf( "%d %s", (int)ax, m.c_str( ));
         made = (ld)(int)ax + (ld)atof( m.c_str( )) / 60.L;
         break;
         }
      default:
         {
         const int m = (int)( (ax - floor( ax)) * 60.);
         const std::string sec = pbt::strf( "%.4f", ((ax - floor( ax)) * 60. - m) * 60.);
         s = pbt::strf( "%d %02d %s", (int)ax, m, sec.c_str( ));
         made = (ld)(int)ax + m / 60.L + (ld)atof( sec.c_str( )) / 3600.L;
         break;
         }
      }
   if( x < 0.) made = -made;
   made *= pi / 180.L;
   return( sign + s);
}

PROP( positions, 60000, 30)
{
   rp::own_directory( "parallax");
   Spot s = any( d);
   bool has_lon = true;
   std::vector<std::string> args = { "parallax" };
   switch( d.raw( 4))
      {
      case 0:
         {
         const std::string lon = angle( d, s.lon, s.lon), lat = angle( d, s.lat, s.lat), alt = pbt::strf( "%.3f", (double)s.alt);
         s.alt = (ld)atof( alt.c_str( ));
         args.push_back( lon); args.push_back( lat); args.push_back( alt);
         forward( s);
         if( fabsl( s.lon) < 2.1L * pi / 180.L && fabsl( s.lat) < 2.1L * pi / 180.L && fabsl( s.alt) < 3.L)
            { d.nontrivial( false); return; }         /* can't be told from x, y, z in earth radii */
         has_lon = s.lon != 0.L;
         d.cls( "lon lat alt");
         break;
         }
      case 1: case 2:
         {
         const bool radii = d.flip( );
         const std::string a = pbt::strf( radii ? "%.9f" : "%.4f", (double)( s.rc * (radii ? 1.L : A))), b = pbt::strf( radii ? "%+.9f" : "%.4f", (double)( s.rs * (radii ? 1.L : A)));
         s.rc = (ld)atof( a.c_str( )) / (radii ? 1.L : A); s.rs = (ld)atof( b.c_str( )) / (radii ? 1.L : A);
         inverse( s);
         has_lon = false;
         args.push_back( a); args.push_back( b);
         d.cls( "parallax constants");
         break;
         }
      default:
         {
         const bool radii = d.flip( );
         if( !radii && fabsl( s.lat) > 89.9L * pi / 180.L)
            { d.nontrivial( false); return; }
         std::string v[3];
         ld p[3] = { s.rc * cosl( s.lon), s.rc * sinl( s.lon), s.rs };
         for( int i = 0; i < 3; i++)
            {
            v[i] = pbt::strf( radii ? "%.9f" : "%.4f", (double)( p[i] * (radii ? 1.L : A)));
            p[i] = (ld)atof( v[i].c_str( )) / (radii ? 1.L : A);
            args.push_back( v[i]);
            }
         s.lon = atan2l( p[1], p[0]);
         s.rc = hypotl( p[0], p[1]); s.rs = p[2];
         inverse( s);
         has_lon = s.lon != 0.L;
         d.cls( "xyz");
         break;
         }
      }
   d.note( "%s", rp::join( args).c_str( ));
   d.nontrivial( true);
   const rp::Result r = rp::run( parallax_main, args)[0];
   REQUIRE( !r.code, "exit code %d: %s %s", r.code, r.out.c_str( ), r.err.c_str( ));
   check_output( r.out, s, has_lon);
}

struct Listed { std::string code, line, name; Spot s; bool rover; };

static Listed listed( Draw &d)
{
   Listed l;
   l.s = any( d);
   l.code = pbt::strf( "%c%02d", "0A3Zr"[d.raw( 4)], (int)d.raw( 99));
   l.rover = d.flip( );
   l.name = d.pick( std::vector<const char *>{ "Mount Nowhere", "La Palma-X", "Somewhere, 3 km S of elsewhere", "Y" });
   if( l.rover)
      {
      const std::string lon = pbt::strf( "%.8f", (double)( l.s.lon * 180.L / pi)), lat = pbt::strf( "%+.8f", (double)( l.s.lat * 180.L / pi)), alt = pbt::strf( "%.3f", (double)l.s.alt);
      l.s.lon = (ld)atof( lon.c_str( )) * pi / 180.L; l.s.lat = (ld)atof( lat.c_str( )) * pi / 180.L; l.s.alt = (ld)atof( alt.c_str( ));
      forward( l.s);
      l.line = pbt::strf( "%s !%14s  %13s %9s", l.code.c_str( ), lon.c_str( ), lat.c_str( ), alt.c_str( ));
      l.line.resize( 47, ' ');
      }
   else
      {
      if( l.s.lon < 0.L) l.s.lon += 2.L * pi;
      if( l.s.alt > 2e+5L) { l.s.alt = 1234.L; forward( l.s); }
      const std::string lon = pbt::strf( "%9.5f", (double)( l.s.lon * 180.L / pi)), rc = pbt::strf( "%8.6f", (double)l.s.rc), rs = pbt::strf( "%+9.6f", (double)l.s.rs);
      l.s.lon = (ld)atof( lon.c_str( )) * pi / 180.L; l.s.rc = (ld)atof( rc.c_str( )); l.s.rs = (ld)atof( rs.c_str( ));
      inverse( l.s);
      l.line = l.code + " " + lon + rc + rs;
      }
   l.line += l.name;
   return( l);
}

PROP( codes, 30000, 30)
{
   rp::own_directory( "parallax");
   std::vector<Listed> v;
   const int n = (int)d.ival( 1, 8);
   std::string rovers = "# rovers\n", mpc = "<pre>\nCode  Long.   cos      sin    Name\n";
   for( int i = 0; i < n; i++)
      {
      Listed l = listed( d);
      bool dup = false;
      for( const Listed &x : v) dup |= x.code == l.code;
      if( dup) continue;
      (l.rover ? rovers : mpc) += l.line + "\n";
      v.push_back( l);
      }
   rp::write( "rovers.txt", rovers);
   rp::write( "ObsCodes.htm", mpc);
   const bool only_mpc = d.rare( 5);
   std::vector<std::string> args = { "parallax" };
   if( only_mpc) args.push_back( "-f");
   const int what = d.rare( 8) ? 2 : (int)d.raw( 1);
   const Listed &a = v[(size_t)d.raw( (unsigned)v.size( ) - 1)], &b = v[(size_t)d.raw( (unsigned)v.size( ) - 1)];
   if( what == 2)
      {
      args.push_back( "Q77");
      d.note( "%s\n%s%s", rp::join( args).c_str( ), rovers.c_str( ), mpc.c_str( ));
      d.nontrivial( false);
      const rp::Result r = rp::run( parallax_main, args)[0];
      REQUIRE( r.code == -1 && r.out.find( "Couldn't find observatory code (Q77)") != std::string::npos, "exit code %d: %s", r.code, r.out.c_str( ));
      return;
      }
   args.push_back( a.code);
   if( what) args.push_back( b.code);
   d.note( "%s\n%s%s", rp::join( args).c_str( ), rovers.c_str( ), mpc.c_str( ));
   const rp::Result r = rp::run( parallax_main, args)[0];
   if( only_mpc && (a.rover || (what && b.rover)))
      {
      REQUIRE( r.code == -1 && r.out.find( "Couldn't find observatory code") != std::string::npos, "exit code %d: %s", r.code, r.out.c_str( ));
      d.nontrivial( false);
      return;
      }
   d.nontrivial( true);
   REQUIRE( !r.code, "exit code %d: %s %s", r.code, r.out.c_str( ), r.err.c_str( ));
   REQUIRE( r.out.find( a.name) != std::string::npos, "name '%s' isn't in %s", a.name.c_str( ), r.out.c_str( ));
   check_output( r.out, a.s, true);
   if( what)
      {
      const size_t at = r.out.find( pbt::strf( "(%s) is ", b.code.c_str( )));
      double km, bearing;
      char from[10];
      REQUIRE( at != std::string::npos && sscanf( r.out.c_str( ) + at + 9, "%lf km from (%3s), at bearing %lf", &km, from, &bearing) == 3 && a.code == from, "no distance in %s", r.out.c_str( ));
      const ld x = cosl( b.s.lat) * sinl( b.s.lon - a.s.lon), y = cosl( a.s.lat) * sinl( b.s.lat) - sinl( a.s.lat) * cosl( b.s.lat) * cosl( b.s.lon - a.s.lon),
            z = sinl( a.s.lat) * sinl( b.s.lat) + cosl( a.s.lat) * cosl( b.s.lat) * cosl( b.s.lon - a.s.lon);
      const ld dist = atan2l( hypotl( x, y), z);
      REQUIRE( fabsl( km - dist * A / 1000.L) < 2e-3L, "%.3f km,  expected %.3Lf", km, dist * A / 1000.L);
      if( dist > 1e-6L && dist < pi - 1e-6L)
         {
         const ld diff = ((ld)bearing - atan2l( x, y) * 180.L / pi) / 360.L;
         REQUIRE( bearing >= 0. && bearing <= 360. && fabsl( diff - roundl( diff)) * 360.L < .0061L, "bearing %.3f,  expected %.3Lf", bearing, atan2l( x, y) * 180.L / pi);
         }
      }
}
