// flavor: plain
/* observatory locations */
#include <cctype>
#include <cstdio>
#include "watdefs.h"
#include "mpc_func.h"
#include "lunar.h"
#include "pbt.h"

double planet_radius_in_meters( const int planet_idx);
double planet_axis_ratio( const int planet_idx);

PROPERTY( "G01", "geodetic positions (poles, equator and antimeridian favoured) rendered as observatory-code records, rover records, COM lines and free text; points around ellipses; non-trivial = all",
   "Earth ellipsoid: WGS84", "COM/rover/free text numbers carry up to ten decimals",
   "round trip: axis ratios .85 to .998 and the Earth's; near the poles of much flatter ellipsoids the closed formula loses precision")

static const double pi = 3.14159265358979323846264338327950288;
static const double EA = 6378137., EB = 6356752.314140347;

static double gen_lat( Draw &d)
{
   switch( d.raw( 5))
      {
      case 0: return( 0.);
      case 1: return( d.flip( ) ? 90. : -90.);
      case 2: return( (d.flip( ) ? 1. : -1.) * (90. - d.logreal( 1e-9, 1.)));
      case 3: return( (d.flip( ) ? 1. : -1.) * d.logreal( 1e-9, 1.));
      default: return( d.real( -90., 90.));
      }
}

static double ang_diff( double a, double b) { double r = fmod( a - b, 2. * pi); if( r > pi) r -= 2 * pi; if( r < -pi) r += 2. * pi; return( fabs( r)); }

            /* reference:  N(lat) formulation */
static void ref_parallax( double lat, double alt, double a, double b, double *c, double *s)
{
   const double n = a * a / sqrt( a * a * cos( lat) * cos( lat) + b * b * sin( lat) * sin( lat));
   *c = (n + alt) * cos( lat) / a;
   *s = (n * (b * b) / (a * a) + alt) * sin( lat) / a;
}

PROP( parallax_constants, 800000, 30)
{
   const double lat = gen_lat( d) * pi / 180.;
   const double a = d.flip( ) ? EA : d.logreal( 1., 1e8), b = (a == EA) ? EB : a * d.real( .85, .998);
   const double alt = d.flip( ) ? d.real( -500., 9000.) / EA * a : a * d.logreal( 1e-6, 5.);
   double c, s, rc, rs;
   lat_alt_to_parallax( lat, alt, &c, &s, a, b);
   ref_parallax( lat, alt, a, b, &rc, &rs);
   d.note( "lat %.12f alt %.4f on %.4f x %.4f", lat * 180. / pi, alt, a, b);
   const double tol = 4e-16 * (3. + fabs( alt / a));
   REQUIRE( fabs( c - rc) < tol * 4. && fabs( s - rs) < tol * 4., "rho cos %.17f sin %.17f, expected %.17f %.17f", c, s, rc, rs);
            /* and back */
   double dist = -1e30;
   const double lat2 = point_to_ellipse( a, b, c * a, s * a, &dist);
   REQUIRE( fabs( lat2 - lat) < 1e-7 * (2. + fabs( alt / a)), "latitude came back as %.12f", lat2 * 180. / pi);
   REQUIRE( fabs( dist - alt) < 1e-8 * (a + fabs( alt)), "altitude %.6f came back as %.6f", alt, dist);
   REQUIRE( point_to_ellipse( a, b, c * a, s * a, NULL) == lat2, "depends on the distance being asked for");
}

            /* closest point on an ellipse */
PROP( nearest_point, 400000, 30)
{
   const double a = 1., b = d.flip( ) ? EB / EA : d.real( .1, .999);
   double x = d.special( -2., 2.), y = d.special( -2., 2.);
   if( d.rare( 4)) { const double t = d.real( 0., 2. * pi), s = 1. + d.real( -.01, .01); x = a * cos( t) * s; y = b * sin( t) * s; }
   double dist;
   const double lat = point_to_ellipse( a, b, x, y, &dist);
   d.note( "ellipse 1 x %.6f, point %.9f,%.9f", b, x, y);
   REQUIRE( lat == lat && dist == dist, "not a number");
   double best = 1e30;
   for( int i = 0; i < 128; i++)
      {
      const double t = 2. * pi * (double)i / 128.;
      best = std::min( best, hypot( x - a * cos( t), y - b * sin( t)));
      }
   const bool inside = x * x / (a * a) + y * y / (b * b) < 1.;
   const double c2 = a * a - b * b;
         /* foot of the normal at the returned latitude */
   const double n = a * a / sqrt( a * a * cos( lat) * cos( lat) + b * b * sin( lat) * sin( lat));
   const double fx = n * cos( lat), fy = n * b * b / (a * a) * sin( lat);
   if( fabs( x) > 1e-6 && fabs( y) > 1e-6 && (!inside || pow( fabs( x) * a, 2. / 3.) + pow( fabs( y) * b, 2. / 3.) > pow( c2, 2. / 3.) * 1.02))
      {
      REQUIRE( fabs( hypot( x - fx, y - fy) - fabs( dist)) < 1e-6, "distance %.9f, but the foot of the normal is at %.9f", dist, hypot( x - fx, y - fy));
      REQUIRE( fabs( dist) < best + 1e-6, "distance %.9f, but a point at %.9f exists", dist, best);
      REQUIRE( fabs( dist) > best - .06, "distance %.9f, but nothing nearer than %.9f exists", dist, best);
      REQUIRE( (dist < 0.) == inside || fabs( dist) < 1e-6, "sign of distance %.9f", dist);
      d.cls( "outside evolute");
      }
   else
      d.nontrivial( false);
}

static std::string gen_code( Draw &d) { return( d.str( "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 1) + d.str( "0123456789", 2, 2)); }

            /* MPC's list of observatories:  parallax constants */
PROP( mpc_records, 600000, 30)
{
   const std::string code = gen_code( d);
   const int p1 = (int)d.raw( 5), p2 = 1 + (int)d.raw( 5);
   const double lat = gen_lat( d) * pi / 180., alt = d.real( -100., 6000.);
   double c, s;
   ref_parallax( lat, alt, EA, EB, &c, &s);
   double lon = d.special( 0., 359.4);
   if( !d.rare( 20)) ; else c = s = 0.;
   std::string lons = pbt::strf( "%*.*f", 4 + p1 - (p1 ? 0 : 1), p1, lon);
   if( !p1) lons += ".";
   lons.resize( 9, ' ');
   std::string cs = pbt::strf( "%.*f", p2, c), ss = pbt::strf( "%c%.*f", s < 0. ? '-' : (d.rare( 10) ? ' ' : '+'), p2, fabs( s));
   cs.resize( 8, ' ');
   ss.resize( 9, ' ');
   const std::string name = d.str( "ABCdef, -", 1, 30);
   const std::string l = code + " " + lons + cs + ss + name;
   if( p2 < 6 && d.rare( 2)) { }
   mpc_code_t info;
   memset( &info, 0x55, sizeof( info));
   const int rval = get_mpc_code_info( &info, l.c_str( ));
   d.note( "'%s'", l.c_str( ));
   REQUIRE( rval == 3 && info.planet == 3, "returned %d", rval);
   REQUIRE( !strcmp( info.code, code.c_str( )), "code '%s'", info.code);
   REQUIRE( info.format == MPC_CODE_PARALLAXES && info.name == l.c_str( ) + 30, "format %d, name '%s'", info.format, info.name);
   const double wl = atof( lons.c_str( )) * pi / 180., wc = atof( cs.c_str( )), ws = atof( ss.c_str( ));
   REQUIRE( fabs( info.lon - wl) < 1e-13 && fabs( info.rho_cos_phi - wc) < 1e-14 && fabs( info.rho_sin_phi - ws) < 1e-14,
               "lon %.9f rho %.9f %.9f", info.lon * 180. / pi, info.rho_cos_phi, info.rho_sin_phi);
   REQUIRE( info.prec1 == p1 && info.prec2 == p2, "precisions %d %d, expected %d %d", info.prec1, info.prec2, p1, p2);
   if( wc == 0. && ws == 0.)
      REQUIRE( info.lat == 0. && info.alt == 0., "geocentre has lat %f alt %f", info.lat, info.alt);
   else if( hypot( wc, ws) > .9)
      {
      double c2, s2;
      ref_parallax( info.lat, info.alt, EA, EB, &c2, &s2);
      REQUIRE( fabs( c2 - wc) < 1e-8 && fabs( s2 - ws) < 1e-8, "lat %.9f alt %.3f means rho %.9f %.9f", info.lat * 180. / pi, info.alt, c2, s2);
      if( p2 == 6)
         REQUIRE( fabs( info.alt - alt) < 8., "altitude %.2f, expected %.2f", info.alt, alt);
      }
}

static const double radii[15][2] = { { 695700e3, 695700e3 }, { 2440530, 2438260 }, { 6051800, 6051800 }, { 6378137., 6356752.314 }, { 3396190, 3376200 },
      { 71492e3, 66854e3 }, { 60268e3, 54364e3 }, { 25559e3, 24973e3 }, { 24764e3, 24341e3 }, { 1188300, 1188300 }, { 1737400, 1737400 },
      { 1821490, 1821490 }, { 1560800, 1560800 }, { 2631200, 2631200 }, { 2410300, 2410300 } };

            /* rover records:  longitude,  latitude,  altitude,  perhaps base 60,  perhaps on other bodies */
PROP( rover_records, 600000, 30)
{
   const bool four = d.flip( );
   const std::string code = gen_code( d) + (four ? std::string( 1, d.chr( "0123456789abcXYZ")) : " ");
   double lon = d.special( -180., 360.), lat = gen_lat( d);
   const bool base60 = d.rare( 3);
   std::string ls, bs;
   if( base60)
      {
      const bool n1 = d.flip( ), n2 = d.flip( );
      const int a = (int)d.ival( 1, n1 ? 179 : 359), b = (int)d.raw( 59), c = (int)d.raw( 59), e = (int)d.ival( 0, 89), f = (int)d.raw( 59), g = (int)d.raw( 59);
      const int fr1 = (int)d.raw( 99), fr2 = (int)d.raw( 99);
      ls = pbt::strf( "%s%d%02d%02d.%02d", n1 ? "-" : "", a, b, c, fr1);
      bs = pbt::strf( "%s%d%02d%02d.%02d", n2 ? "-" : "", e, f, g, fr2);
      lon = (n1 ? -1. : 1.) * (a + b / 60. + (c + fr1 / 100.) / 3600.);
      lat = (n2 ? -1. : 1.) * (e + f / 60. + (g + fr2 / 100.) / 3600.);
      d.cls( "base 60");
      }
   else
      {
      const int n = (int)d.raw( 10);
      ls = pbt::strf( "%.*f", n, lon);
      bs = pbt::strf( "%.*f", n, lat);
      lon = atof( ls.c_str( ));
      lat = atof( bs.c_str( ));
      }
   const double alt = floor( d.real( -400., 6000.) * 10.) / 10.;
   std::string l = code + "!" + ls + " " + bs + pbt::strf( " %.1f", alt);
   if( l.size( ) > 46) { d.nontrivial( false); return; }
   int planet = 3;
   l.resize( 47, ' ');
   l += "Name of site";
   if( d.rare( 3))
      {
      planet = (int)d.raw( 14);
      l += pbt::strf( " @%d", planet);
      d.cls( "other body");
      }
   else if( d.rare( 10))
      {
      planet = 9001 + (int)d.raw( 50);
      l += pbt::strf( " @%d", planet);
      }
   d.note( "'%s'", l.c_str( ));
   mpc_code_t info;
   memset( &info, 0x55, sizeof( info));
   const int rval = get_mpc_code_info( &info, l.c_str( ));
   REQUIRE( rval == planet && info.planet == planet, "returned %d, planet %d", rval, info.planet);
   REQUIRE( !strcmp( info.code, four ? code.c_str( ) : code.substr( 0, 3).c_str( )), "code '%s'", info.code);
   REQUIRE( info.format == MPC_CODE_LAT_LON_ALT && info.name == l.c_str( ) + 47, "format %d, name '%s'", info.format, info.name);
   if( planet > 9000)
      {
      REQUIRE( info.lat == 0. && info.lon == 0. && info.alt == 0. && info.rho_cos_phi == 0., "dynamical point isn't at the origin");
      return;
      }
   REQUIRE( info.lon >= 0. && info.lon <= 2. * pi + 1e-9 && ang_diff( info.lon, lon * pi / 180.) < 1e-12, "longitude %.12f, expected %.12f", info.lon * 180. / pi, lon);
   REQUIRE( fabs( info.lat - lat * pi / 180.) < 1e-12 && fabs( info.alt - alt) < 1e-9, "latitude %.12f altitude %.3f", info.lat * 180. / pi, info.alt);
   if( lat != 0. || lon != 0.)
      {
      double c, s;
      ref_parallax( info.lat, alt, radii[planet][0], radii[planet][1], &c, &s);
      REQUIRE( fabs( info.rho_cos_phi - c) < 1e-10 && fabs( info.rho_sin_phi - s) < 1e-10, "rho %.12f %.12f, expected %.12f %.12f",
                  info.rho_cos_phi, info.rho_sin_phi, c, s);
      }
   REQUIRE( fabs( planet_radius_in_meters( planet) - radii[planet][0]) < .01, "radius %f", planet_radius_in_meters( planet));
   REQUIRE( fabs( planet_axis_ratio( planet) - radii[planet][1] / radii[planet][0]) < 1e-9, "axis ratio %f", planet_axis_ratio( planet));
}

static std::string render_angle( Draw &d, double max_deg, double *val)
{
   const int fields = 1 + (int)d.raw( 2), n = (int)d.raw( fields == 1 ? 10 : 5);
   const double p = pow( 10., n);
   const long deg = d.flip( ) ? d.ival( 0, (long)max_deg - 1) : d.ival( 0, 9), mi = d.ival( 0, 59), se = d.ival( 0, 59);
   const long fr = d.ival( 0, (long)p - 1);
   std::string s = pbt::strf( "%ld", deg);
   *val = (double)deg;
   if( fields > 1) { s += pbt::strf( d.flip( ) ? " %02ld" : " %ld", mi); *val += (double)mi / 60.; }
   if( fields > 2) { s += pbt::strf( d.flip( ) ? " %02ld" : " %ld", se); *val += (double)se / 3600.; }
   if( n) { s += pbt::strf( ".%0*ld", n, fr); *val += (double)fr / p / (fields == 1 ? 1. : (fields == 2 ? 60. : 3600.)); }
   return( s);
}

            /* "n44 01 12.0, 69.9W, alt. 18m" and the COM form */
PROP( text_locations, 800000, 30)
{
   double lat, lon, alt = 100.;
   std::string a = render_angle( d, 90., &lat);
   const bool south = d.flip( ), west = d.flip( );
   std::string b = render_angle( d, west ? 360. : 360., &lon);
   const bool com = d.rare( 3);
   const char ns = south ? d.chr( "sS") : d.chr( "nN"), ew = west ? d.chr( "wW") : d.chr( "eE");
   auto deco = [&]( const std::string &t, char c)
      {
      const std::string sp = d.flip( ) ? " " : "";
      return( d.flip( ) ? c + sp + t : t + sp + c);
      };
   const std::string la = deco( a, ns), lo = deco( b, ew);
   std::string s, alts;
   const bool has_alt = com || d.flip( );
   if( has_alt)
      {
      const int n = (int)d.raw( 3);
      const double v = floor( d.real( 0., 9000.));
      alts = pbt::strf( "%.*f", n, v + (n ? .25 : 0.));
      alt = atof( alts.c_str( ));
      if( !com && d.rare( 3))
         {
         alts += d.flip( ) ? " ft" : "ft";
         alt *= .3048;
         }
      else
         alts += (com || d.flip( )) ? "m" : " m";
      }
   if( com)
      s = "COM Long. " + lo + ", Lat. " + la + ", Alt. " + alts + (d.flip( ) ? "" : ", Google Earth");
   else
      {
      const std::string sep = d.flip( ) ? ", " : (d.flip( ) ? " " : ",");
               /* two bare numbers with only a space between would be degrees and minutes */
      auto join = [&]( const std::string &x, const std::string &y)
         { return( sep == " " && isdigit( x.back( )) && isdigit( y[0]) ? x + ", " + y : x + sep + y); };
      s = d.flip( ) ? join( la, lo) : join( lo, la);
      if( has_alt) s = join( s, (d.flip( ) ? "" : (d.flip( ) ? "Alt. " : "alt ")) + alts);
      }
   d.note( "'%s'", s.c_str( ));
   mpc_code_t info;
   memset( &info, 0x55, sizeof( info));
   const int rval = com ? get_xxx_location_info( &info, s.c_str( )) : get_lat_lon_info( &info, s.c_str( ));
   REQUIRE( !rval, "returned %d", rval);
   if( south) lat = -lat;
   if( west) lon = -lon;
   REQUIRE( fabs( info.lat - lat * pi / 180.) < 1e-13, "latitude %.12f, expected %.12f", info.lat * 180. / pi, lat);
   REQUIRE( info.lon >= 0. && info.lon <= 2. * pi && ang_diff( info.lon, lon * pi / 180.) < 1e-13, "longitude %.12f, expected %.12f", info.lon * 180. / pi, lon);
   REQUIRE( fabs( info.alt - alt) < 1e-9, "altitude %.6f, expected %.6f", info.alt, alt);
   double c, t;
   ref_parallax( info.lat, alt, EA, EB, &c, &t);
   REQUIRE( fabs( info.rho_cos_phi - c) < 1e-12 && fabs( info.rho_sin_phi - t) < 1e-12, "rho %.12f %.12f, expected %.12f %.12f", info.rho_cos_phi, info.rho_sin_phi, c, t);
   REQUIRE( info.planet == 3 && info.format == MPC_CODE_LAT_LON_ALT && !strcmp( info.code, com ? "XXX" : "Rov") && !info.prec1 && !info.prec2,
               "planet %d format %d code %s", info.planet, info.format, info.code);
}

            /* things that are not locations are refused */
PROP( rejected, 400000, 30)
{
   mpc_code_t info;
   double v;
   std::string s, a = render_angle( d, 90., &v), b = render_angle( d, 360., &v);
   memset( &info, 0x55, sizeof( info));
   switch( d.raw( 5))
      {
      case 0:                 /* both latitudes or both longitudes */
         {
         const char *cc = d.flip( ) ? "nNsS" : "eEwW";
         s = a + d.chr( cc) + ", " + a + d.chr( cc);
         break;
         }
      case 1: s = a + "n, " + pbt::strf( "%ld %ld %ld", d.ival( 0, 300), d.ival( 61, 999), d.ival( 0, 59)) + "w"; break;
      case 2: s = a + "s, " + pbt::strf( "%ld %ld %ld", d.ival( 0, 300), d.ival( 0, 59), d.ival( 61, 999)) + "e"; break;
      case 3: s = pbt::strf( "%.4fn, 20e", d.real( 90.001, 1000.)); break;
      case 4: s = pbt::strf( "20 n, %.4fe", d.real( 360.001, 1000.)); break;
      default: s = a + "," + b; break;
      }
   d.note( "'%s'", s.c_str( ));
   const int rval = get_lat_lon_info( &info, s.c_str( ));
   REQUIRE( rval == -1, "returned %d: lat %f lon %f", rval, info.lat * 180. / pi, info.lon * 180. / pi);
   const std::string c = "COM Long. " + b + (d.flip( ) ? "n" : "") + ", Lat. " + a + "s, Alt. 10m";
   REQUIRE( get_xxx_location_info( &info, c.c_str( )) < 0, "'%s' accepted", c.c_str( ));
            /* too short,  or neither layout */
   std::string r = gen_code( d) + " " + d.str( "abc ,", 0, 60);
   REQUIRE( get_mpc_code_info( &info, r.c_str( )) < 0 , "'%s' accepted", r.c_str( ));
}

            /* region rectangles */
PROP( regions, 60000, 30)
{
   std::string file;
   struct R { double a, b, c, e; std::string n; };
   std::vector<R> v;
   const int n = 1 + (int)d.raw( 5);
   for( int i = 0; i < n; i++)
      {
      R r;
      r.a = (double)d.ival( -180, 359);
      r.c = r.a + (double)d.ival( 1, 120);
      r.b = (double)d.ival( -90, 80);
      r.e = r.b + (double)d.ival( 1, 60);
      if( d.flip( )) std::swap( r.b, r.e);
      r.n = pbt::strf( "Region %d", i);
      if( d.rare( 5)) file += "# comment\n";
      file += pbt::strf( "%10.3f%10.3f%10.3f%10.3f%s\n", r.a, r.b, r.c, r.e, r.n.c_str( ));
      v.push_back( r);
      }
   const double lat = d.real( -90., 90.), lon = d.real( -180., 360.);
   d.note( "%.5f %.5f in\n%s", lon, lat, file.c_str( ));
   FILE *fp = fmemopen( (void *)file.data( ), file.size( ), "rb");
   char buff[100];
   strcpy( buff, "junk");
   const int rval = extract_region_data_for_lat_lon( fp, buff, lat, lon);
   fclose( fp);
   std::string want;
   for( auto &r : v)
      if( want.empty( ) && (lat - r.b) * (lat - r.e) < 0.)
         {
         double dl = fmod( lon - r.a, 360.);
         if( dl < 0.) dl += 360.;
         if( dl < r.c - r.a) want = r.n;
         }
   REQUIRE( want == buff && rval == (want.empty( ) ? -2 : 0), "found '%s' (%d), expected '%s'", buff, rval, want.c_str( ));
}
