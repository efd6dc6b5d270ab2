// flavor: plain
// extra: astcheck.cpp:-Dmain=astcheck_main
/* astcheck:  which known objects are near an observed position */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include "watdefs.h"
#include "date.h"
#include "comets.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "pbt.h"
#include "orbref.h"
#include "runprog.h"
using pbt::Draw;

int astcheck_main( const int argc, const char **argv);
int get_earth_loc( const double t_millennia, double *results);
int lat_alt_to_parallax( const double lat, const double ht_in_meters, double *rho_cos_phi, double *rho_sin_phi, const double major_axis_in_meters, const double minor_axis_in_meters);

PROPERTY( "Q01", "files of 4 to 45 orbits (main belt and beyond, any inclination, comets and objects without magnitudes among them), clustered around the observed place; observations of 1 to 6 objects, alone or in pairs, over 1950 to 2050, all right ascensions (0h and 12h over-weighted) and declinations to 70 degrees, from observatories given by parallax constants or by latitude; search radii from 20 arcseconds to 5 degrees, limits on magnitude and motion; the leftovers of earlier runs: files for other orbits, cut short, or empty, and runs at the same time; non-trivial = at least one object is to be listed",
   "Reference: every orbit propagated by universal variables in long double, light time, parallax, H-G magnitude; each line listed must be such an object with these offsets, magnitude and motion, each object clearly within the limits must be listed, in order of distance",
   "the offsets are differences in right ascension (times the cosine of the observed declination) and declination, as shown; objects within 1.5 arcseconds (.02 magnitudes, .1 arcsecond an hour) of a limit may be listed or not; to be listed is only required of objects which stay beyond .7 AU")

typedef long double ld;
static const double pi = 3.141592653589793238462643383279502884, deg = pi / 180., asec = deg / 3600.;
static const double k_gauss = .01720209895, au_km = 1.495978707e+8, c_au_day = 299792.458 * 86400. / au_km;

struct Object { std::string name, line; double Tp, q, incl, node, argp, ecc, H, G; bool comet; };
struct Site { std::string code, line; double lon, rc, rs; bool rover; };
struct Seen { double ra, dec, dist, mag; };

static double jd_from( int y, int m, int d) { return( (double)dmy_to_day( d, m, y, CALENDAR_GREGORIAN) - .5); }

static double wrap( double x) { return( x - 2. * pi * round( x / (2. * pi))); }

static void where( const Object &o, double jd, ld *p)
{
   ld v[3];
   orbref::state( o.q, o.ecc, o.incl, o.node, o.argp, (ld)k_gauss * k_gauss, jd - o.Tp, p, v);
}

static void observer( const Site *s, double jd, double *loc, double ut_offset)
{
   double e[6];
   get_earth_loc( (jd - 2451545.) / 365250., e);
   for( int i = 0; i < 3; i++)
      loc[i] = e[i];
   if( s)
      {
      const double ang = s->lon + green_sidereal_time( jd - ut_offset), r = 6378.14 / au_km, eps = 84381.448 * asec;
      const double x = r * s->rc * cos( ang), y = r * s->rc * sin( ang), z = r * s->rs;
      loc[0] += x;
      loc[1] += y * cos( eps) + z * sin( eps);
      loc[2] += z * cos( eps) - y * sin( eps);
      }
}

static Seen look( const Object &o, const double *obs, double jd)
{
   ld p[3], d[3], r = 0., dist = 0.;
   const ld eps = 84381.448 * asec;
   for( int it = 0; it < 6; it++)
      {
      where( o, jd - (double)( dist / c_au_day), p);
      dist = r = 0.;
      for( int i = 0; i < 3; i++)
         { d[i] = p[i] - obs[i]; dist += d[i] * d[i]; r += p[i] * p[i]; }
      dist = sqrtl( dist); r = sqrtl( r);
      }
   const ld y = d[1] * cosl( eps) - d[2] * sinl( eps), z = d[1] * sinl( eps) + d[2] * cosl( eps);
   Seen s;
   s.ra = (double)atan2l( y, d[0]);
   s.dec = (double)asinl( z / dist);
   s.dist = (double)dist;
   const double R2 = obs[0] * obs[0] + obs[1] * obs[1] + obs[2] * obs[2];
   if( !o.H) s.mag = 5. * log10( s.dist);
   else if( o.comet) s.mag = o.H + 5. * log10( s.dist) + o.G * log10( (double)r);
   else
      {
      double c = (double)( r * r + dist * dist - R2) / (double)( 2. * r * dist);
      const double phase = acos( c > 1. ? 1. : c), t = tan( phase / 2.);
      s.mag = o.H + 5. * log10( (double)r * s.dist) - 2.5 * log10( (1. - o.G) * exp( -3.33 * pow( t, .63)) + o.G * exp( -1.87 * pow( t, 1.22)));
      }
   return( s);
}

static const char *sof_head = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";

static std::string ymd( double jd, int places)
{
   long day = (long)floor( jd + .5), y;
   int d, m;
   day_to_dmy( day, &d, &m, &y, CALENDAR_GREGORIAN);
   std::string frac = pbt::strf( "%.*f", places, jd + .5 - (double)day);
   return( pbt::strf( "%04ld%02d%02d%s", y, m, d, places ? frac.c_str( ) + 1 : ""));
}

static double rounded( double x, double scale) { return( round( x * scale) / scale); }

static void finish( Object &o, double epoch)         /* round as the file does */
{
   o.Tp = floor( o.Tp + .5) - .5 + (double)( long)( (o.Tp + .5 - floor( o.Tp + .5)) * 1e+6) * 1e-6 + 5e-8;
   const long day = (long)floor( o.Tp + .5);
   const int frac = (int)( (o.Tp + .5 - (double)day) * 1e+7);
   o.Tp = (double)day - .5 + frac * 1e-7;
   o.q = rounded( o.q, 1e+8);
   o.ecc = rounded( o.ecc, 1e+8);
   if( o.ecc > .99) o.ecc = .99;
   o.H = rounded( o.H, 100.); o.G = rounded( o.G, 100.);
   const double i = rounded( o.incl / deg, 1e+6), n = rounded( fmod( o.node / deg + 720., 360.), 1e+6), w = rounded( fmod( o.argp / deg + 720., 360.), 1e+6);
   o.incl = i * deg; o.node = n * deg; o.argp = w * deg;
   o.line = pbt::strf( "%-12.12s %s.%07d %s %11.8f %10.6f %10.6f %10.6f %10.8f %.2f %5d %s %s M-v 3Ek %5.2f %4.2f \n", o.name.c_str( ), ymd( (double)day - .5, 0).c_str( ), frac,
         ymd( epoch, 0).c_str( ), o.q, i, n, w, o.ecc, .45, 123, "19990101", "20200202", o.H, o.G);
}

static Object any_object( Draw &d, double jd, int n)
{
   Object o;
   o.comet = d.rare( 6);
   o.q = d.real( 1.72, 4.) + (d.rare( 8) ? d.real( 0., 30.) : 0.);
   o.ecc = d.real( 0., o.comet ? .8 : .3);
   o.incl = (d.rare( 3) ? d.real( 0., 180.) : d.real( 0., 30.)) * deg;
   o.node = d.real( 0., 360.) * deg;
   o.argp = d.real( 0., 360.) * deg;
   o.Tp = jd + d.real( -700., 700.);
   if( o.comet)
      { o.H = d.real( 3., 14.); o.G = (double)d.ival( 5, 9); o.name = d.flip( ) ? pbt::strf( "C/20%02d A%d", n % 100, n) : pbt::strf( "%3dP", n); }
   else
      { o.H = d.rare( 10) ? 0. : d.real( 3., 20.); o.G = d.rare( 3) ? d.real( 0., .5) : .15; o.name = d.flip( ) ? pbt::strf( "%11d", n * 977 + 1) : pbt::strf( "20%02d Q%c%d", n % 100, 'B' + n % 20, n); }
   return( o);
}

struct World { std::vector<Object> obj; double epoch; };

static std::vector<Object> make_objects( Draw &d, double jd, int n)
{
   std::vector<Object> v;
   for( int i = 0; i < n; i++)
      {
      Object o = any_object( d, jd, i + 1);
      if( i && !d.rare( 3))                    /* near an earlier one in the sky */
         {
         const Object &b = v[(size_t)d.raw( (unsigned)i - 1)];
         const double spread = d.logreal( 1e-5, .1);
         o.q = b.q; o.ecc = b.ecc; o.Tp = b.Tp + (d.unit( ) - .5) * spread * 500.;
         o.incl = fabs( b.incl + (d.unit( ) - .5) * spread); o.node = b.node + (d.unit( ) - .5) * spread;
         if( o.incl > pi) o.incl = pi;
         o.argp = b.argp + (d.unit( ) - .5) * spread;
         }
      finish( o, floor( jd) + .5);
      v.push_back( o);
      }
   return( v);
}

static void write_objects( const char *name, const std::vector<Object> &v)
{
   std::string s = sof_head;
   for( const Object &o : v)
      {
      REQUIRE( o.line.size( ) == s.find( '\n') + 1, "harness: %d columns in '%s'", (int)o.line.size( ), o.line.c_str( ));
      s += o.line;
      }
   rp::write( name, s);
}

struct Obs { std::string desig; double jd, ra, dec; int site; std::string line; };

static void make_line( Obs &o, const std::vector<Site> &sites)
{
   long ms = (long)round( o.ra / deg / 15. * 3600000.), cs = (long)round( fabs( o.dec) / deg * 360000.);
   ms = ((ms % 86400000) + 86400000) % 86400000;
   const int day_frac = (int)round( (o.jd + .5 - floor( o.jd + .5)) * 1e+6);
   long y;
   int dd, m;
   day_to_dmy( (long)floor( o.jd + .5), &dd, &m, &y, CALENDAR_GREGORIAN);
   o.jd = floor( o.jd + .5) - .5 + day_frac * 1e-6;
   const bool neg = o.dec < 0.;
   o.ra = ms / 3600000. * 15. * deg;
   o.dec = (neg ? -cs : cs) / 360000. * deg;
   o.line = pbt::strf( "%-12.12s  C%04ld %02d %02d.%06d%02ld %02ld %06.3f%c%02ld %02ld %05.2f                     %s", o.desig.c_str( ), y, m, dd, day_frac,
         ms / 3600000, ms / 60000 % 60, (ms % 60000) / 1000., neg ? '-' : '+', cs / 360000, cs / 6000 % 60, (cs % 6000) / 100., sites[(size_t)o.site].code.c_str( ));
}

struct Limits { double radius, mag, motion; int most; };

struct Group { std::string desig; double jd, ra, dec, jd2, ra_rate, dec_rate; int site; bool single; };

            /* check one listing against the truth */
static int check_listing( const std::vector<std::string> &text, const Group &g, const std::vector<Object> &objs, const std::vector<Site> &sites, bool parallax,
      const Limits &lim, bool list_mode)
{
   const double dt = td_minus_ut( g.jd) / 86400.;
   const double jd = g.jd + dt, jd2 = g.jd2 + dt;
   double loc[3], loc2[3];
   const Site *s = parallax ? &sites[(size_t)g.site] : NULL;
   observer( s, jd, loc, dt);
   observer( s, jd2, loc2, dt);
   std::vector<int> listed( objs.size( ), 0);
   double prev = -1.;
   int n_sure = 0;
   for( const std::string &l : text)
      {
      size_t which = 0;
      while( which < objs.size( ) && pbt::strf( "%-12.12s", objs[which].name.c_str( )) != l.substr( 0, 12))
         which++;
      REQUIRE( which < objs.size( ), "line '%s' names none of the objects", l.c_str( ));
      REQUIRE( !listed[which]++, "'%s' listed twice", objs[which].name.c_str( ));
      const Object &o = objs[which];
      const Seen a = look( o, loc, jd), b = look( o, loc2, jd2);
      const double dra = wrap( a.ra - g.ra) * cos( g.dec) / asec, ddec = (a.dec - g.dec) / asec, dist = hypot( dra, ddec), hours = (jd2 - jd) * 24.;
      const double vra = wrap( b.ra - a.ra) * cos( g.dec) / asec / hours, vdec = (b.dec - a.dec) / asec / hours;
      REQUIRE( dist < lim.radius + 1.5, "'%s' is %.1f arcseconds away", l.c_str( ), dist);
      REQUIRE( a.mag < lim.mag + .02, "'%s' is of magnitude %.2f", l.c_str( ), a.mag);
      REQUIRE( l.size( ) > 60 && l.substr( 12, 14) == std::string( 14, ' '), "line '%s'", l.c_str( ));
      char mag[20];
      if( list_mode)
         {
         double ra, dec, v1, v2;
         REQUIRE( sscanf( l.c_str( ) + 26, "%lf %lf %19s %lf %lf", &ra, &dec, mag, &v1, &v2) == 5, "line '%s'", l.c_str( ));
         REQUIRE( ra >= 0. && ra <= 360. && fabs( wrap( ra * deg - a.ra)) * cos( a.dec) < .5 * asec && fabs( dec * deg - a.dec) < .5 * asec, "line '%s',  position is %.6f %.6f", l.c_str( ), a.ra / deg, a.dec / deg);
         REQUIRE( fabs( v1 - vra / 60.) < .01 && fabs( v2 - vdec / 60.) < .01, "line '%s',  motion is %.4f %.4f", l.c_str( ), vra / 60., vdec / 60.);
         if( o.H)
            REQUIRE( fabs( atof( mag) - a.mag) < .012, "line '%s',  magnitude is %.3f", l.c_str( ), a.mag);
         else
            REQUIRE( mag[0] == '-' && mag[1] == '-', "line '%s' has no magnitude", l.c_str( ));
         }
      else
         {
         double d1, d2, dd, v1, v2;
         REQUIRE( sscanf( l.substr( 26, 6).c_str( ), "%lf", &d1) == 1 && sscanf( l.substr( 32, 7).c_str( ), "%lf", &d2) == 1 && sscanf( l.substr( 39, 8).c_str( ), "%lf", &dd) == 1
               && sscanf( l.substr( 47, 7).c_str( ), "%19s", mag) == 1 && sscanf( l.substr( 54, 5).c_str( ), "%lf", &v1) == 1 && sscanf( l.substr( 59).c_str( ), "%lf", &v2) == 1, "line '%s'", l.c_str( ));
         REQUIRE( fabs( d1 + dra) < .8 && fabs( d2 + ddec) < .8 && fabs( dd - dist) < .8, "line '%s',  offsets are %.2f %.2f %.2f", l.c_str( ), -dra, -ddec, dist);
         REQUIRE( fabs( v1 - vra) < .7 && fabs( v2 - vdec) < .7, "line '%s',  motion is %.2f %.2f", l.c_str( ), vra, vdec);
         if( o.H)
            REQUIRE( fabs( atof( mag) - a.mag) < .07, "line '%s',  magnitude is %.3f", l.c_str( ), a.mag);
         else
            REQUIRE( mag[0] == '-' && mag[1] == '-', "line '%s' has no magnitude", l.c_str( ));
         REQUIRE( dd >= prev, "'%s' is nearer than the line before", l.c_str( ));
         prev = dd;
         if( !g.single)
            REQUIRE( fabs( vra - g.ra_rate) < lim.motion + .1 && fabs( vdec - g.dec_rate) < lim.motion + .1, "'%s' moves by %.2f %.2f,  the observed object by %.2f %.2f", l.c_str( ), vra, vdec, g.ra_rate, g.dec_rate);
         }
      }
   for( size_t i = 0; i < objs.size( ); i++)
      {
      const Seen a = look( objs[i], loc, jd), b = look( objs[i], loc2, jd2);
      const double dra = wrap( a.ra - g.ra) * cos( g.dec) / asec, ddec = (a.dec - g.dec) / asec, dist = hypot( dra, ddec), hours = (jd2 - jd) * 24.;
      const double vra = wrap( b.ra - a.ra) * cos( g.dec) / asec / hours, vdec = (b.dec - a.dec) / asec / hours;
      if( dist < lim.radius - 1.5 && a.mag < lim.mag - .02 && a.dist > .7
               && (g.single || (fabs( vra - g.ra_rate) < lim.motion - .1 && fabs( vdec - g.dec_rate) < lim.motion - .1)))
         {
         n_sure++;
         if( !listed[i])
            REQUIRE( (int)text.size( ) >= lim.most && dist > prev - 1.5, "'%s' at %.1f arcseconds (%.1f %.1f), magnitude %.2f, motion %.2f %.2f, isn't listed", objs[i].name.c_str( ), dist, dra, ddec, a.mag, vra, vdec);
         }
      }
   REQUIRE( (int)text.size( ) <= lim.most, "%d lines", (int)text.size( ));
   return( n_sure);
}

static Obs observe( Draw &d, const Object &o, double jd, const std::vector<Site> &sites, int site, bool parallax, double scatter)
{
   Obs v;
   const double dt = td_minus_ut( jd) / 86400.;
   double loc[3];
   observer( parallax ? &sites[(size_t)site] : NULL, jd + dt, loc, dt);
   const Seen s = look( o, loc, jd + dt);
   v.jd = jd;
   v.site = site;
   v.dec = s.dec + (d.unit( ) - .5) * 2. * scatter;
   v.ra = s.ra + (d.unit( ) - .5) * 2. * scatter / cos( s.dec);
   return( v);
}

static std::vector<Site> make_sites( Draw &d, bool &rovers)
{
   std::vector<Site> v;
   const int n = (int)d.ival( 1, 3);
   rovers = false;
   for( int i = 0; i < n; i++)
      {
      Site s;
      s.code = pbt::strf( "%c%02d", "0A3Z"[i], (int)d.raw( 99));
      s.rover = d.rare( 3);
      if( s.rover)
         {
         const double lon = rounded( d.real( -180., 360.), 1e+4), lat = rounded( d.real( -89., 89.), 1e+4), alt = rounded( d.real( 0., 4000.), 1.);
         s.line = s.code + pbt::strf( " ! %.4f %.4f %.0f                      a rover\n", lon, lat, alt);
         s.lon = lon * deg;
         lat_alt_to_parallax( lat * deg, alt, &s.rc, &s.rs, 6378137., 6356752.314);
         rovers = true;
         }
      else
         {
         const double lon = rounded( d.real( 0., 359.9), 1e+5), lat = d.real( -1.5, 1.5);
         s.rc = rounded( cos( lat), 1e+6); s.rs = rounded( sin( lat), 1e+6);
         if( d.rare( 5)) s.rc = s.rs = 0.;
         s.line = s.code + pbt::strf( " %9.5f%8.6f%+9.6f", lon, s.rc, s.rs) + "A place\n";
         s.lon = lon * deg;
         }
      v.push_back( s);
      }
   return( v);
}

static void write_sites( const std::vector<Site> &v, bool html)
{
   std::string a = "<pre>\nCode  Long.   cos      sin    Name\n", b = "# rovers\n";
   for( const Site &s : v)
      (s.rover ? b : a) += s.line;
   rp::write( html ? "ObsCodes.html" : "ObsCodes.htm", a);
   rp::write( "rovers.txt", b);
}

static std::vector<std::string> result_lines( const std::vector<std::string> &text, size_t i)
{
   std::vector<std::string> v;
   for( ; i < text.size( ) && text[i].size( ) > 40 && text[i].substr( 12, 14) == std::string( 14, ' '); i++)
      v.push_back( text[i]);
   return( v);
}

static void spoil_caches( Draw &d, double jd, const std::vector<Object> &objs)
{
   for( int i = -1; i < 3; i++)
      {
      const std::string name = ymd( floor( jd) + i, 0) + ".chk";
      int32_t head[4] = { 1314159266, (int32_t)d.raw( 1000), (int32_t)objs.size( ), -1 };
      std::string s( (const char *)head, 16);
      switch( d.raw( 5))
         {
         case 0: break;
         case 1: rp::write( name.c_str( ), ""); d.cls( "empty file"); break;
         case 2: rp::write( name.c_str( ), s.substr( 0, 1 + (size_t)d.raw( 14))); d.cls( "cut header"); break;
         case 3: rp::write( name.c_str( ), s); d.cls( "header only"); break;
         case 4: rp::write( name.c_str( ), s + std::string( objs.size( ) * 4, (char)d.raw( 255))); d.cls( "foreign checksum"); break;
         case 5: s[0] = 1; rp::write( name.c_str( ), s + std::string( objs.size( ) * 4, 'x')); d.cls( "foreign file"); break;
         }
      }
}

static void cut_short( Draw &d, double jd)            /* as if the program or machine had stopped while writing */
{
   for( int i = -1; i < 3; i++)
      {
      const std::string name = ymd( floor( jd) + i, 0) + ".chk";
      const std::string s = rp::slurp( name.c_str( ));
      if( !s.empty( ) && d.flip( ))
         { rp::write( name.c_str( ), s.substr( 0, (size_t)d.raw( (unsigned)s.size( ) - 1))); d.cls( "stopped while writing"); }
      }
}

static void bind( double jd0, Draw &d, std::vector<Object> &objs)
{
   const int n = (int)d.ival( 4, d.rare( 5) ? 45 : 14);
   objs = make_objects( d, jd0, n);
}

PROP( identify, 12000, 30)
{
   rp::own_directory( "astcheck");
   rp::clean( );
   const double jd0 = jd_from( (int)d.ival( 1950, 2050), (int)d.ival( 1, 12), (int)d.ival( 1, 28)) + rounded( d.unit( ), 1e+6);
   std::vector<Object> objs;
   bind( jd0, d, objs);
   bool rovers;
   const std::vector<Site> sites = make_sites( d, rovers);
   const bool parallax = !d.rare( 5);
   Limits lim;
   lim.radius = d.flip( ) ? 18000. : rounded( d.logreal( 20., 18000.), 1.);
   lim.mag = d.flip( ) ? 22. : rounded( d.real( 8., 25.), 10.);
   lim.motion = d.flip( ) ? 10. : rounded( d.logreal( 1., 50.), 10.);
   lim.most = d.rare( 5) ? (int)d.ival( 1, 5) : 100;
   const int runs = (int)d.ival( 1, 3);
   int n_sure = 0;
   for( int run = 0; run < runs; run++)
      {
      if( run && d.flip( ))
         {
         d.cls( "other orbits");
         const size_t n = objs.size( );
         if( d.flip( )) objs = make_objects( d, jd0, (int)n);     /* as many as before */
         else bind( jd0, d, objs);
         }
      if( run ? d.rare( 3) : d.flip( )) spoil_caches( d, jd0, objs);
      else if( run && d.rare( 3)) cut_short( d, jd0);
      write_objects( d.flip( ) ? "mpcorb.sof" : "other.sof", objs);
      const bool other = !rp::exists( "mpcorb.sof") || rp::slurp( "mpcorb.sof").find( objs[0].line) == std::string::npos;
      if( parallax) write_sites( sites, d.flip( ));
      std::vector<Obs> obs;
      std::vector<Group> groups;
      const int n_groups = (int)d.ival( 1, 6);
      for( int g = 0; g < n_groups; g++)
         {
         const Object &o = objs[(size_t)d.raw( (unsigned)objs.size( ) - 1)];
         const int site = (int)d.raw( (unsigned)sites.size( ) - 1);
         const double jd = jd0 + (d.flip( ) ? 0. : rounded( d.real( 0., 2.), 1e+4)), scatter = d.rare( 4) ? 0. : d.logreal( .5, 20000.) * asec;
         Obs a = observe( d, o, jd, sites, site, parallax, scatter);
         if( d.rare( 4)) a.ra = (d.flip( ) ? 0. : pi) + (d.unit( ) - .5) * .02;
         if( fabs( a.dec) > 70. * deg) continue;
         a.desig = pbt::strf( "     K%02dA%02d%c", g + 10, (int)d.raw( 99), 'A' + g);
         make_line( a, sites);
         Group gr = { a.desig, a.jd, a.ra, a.dec, a.jd + 1e-6, 0., 0., site, true };
         if( d.flip( ))
            {
            Obs b = a;
            b.jd = a.jd + rounded( d.flip( ) ? d.real( .002, .1) : d.real( .1, 5.), 1e+6);
            const double dt = td_minus_ut( b.jd) / 86400.;
            double loc[3];
            observer( parallax ? &sites[(size_t)site] : NULL, b.jd + dt, loc, dt);
            const Seen s = look( o, loc, b.jd + dt);
            observer( parallax ? &sites[(size_t)site] : NULL, a.jd + dt, loc, dt);
            const Seen s0 = look( o, loc, a.jd + dt);
            b.ra = a.ra + wrap( s.ra - s0.ra) + (d.unit( ) - .5) * lim.motion * (b.jd - a.jd) * 24. * 2. * asec / cos( a.dec);
            b.dec = a.dec + s.dec - s0.dec;
            if( d.rare( 4)) b.site = (int)d.raw( (unsigned)sites.size( ) - 1);
            if( fabs( b.dec) > 80. * deg) continue;
            make_line( b, sites);
            if( b.site == site && fabs( wrap( b.ra - a.ra)) < 4.9 * deg && fabs( b.dec - a.dec) < 4.9 * deg)
               {
               gr.jd2 = b.jd;
               gr.ra_rate = wrap( b.ra - a.ra) * cos( a.dec) / asec / ((b.jd - a.jd) * 24.);
               gr.dec_rate = (b.dec - a.dec) / asec / ((b.jd - a.jd) * 24.);
               gr.single = false;
               }
            else if( b.site == site) continue;
            obs.push_back( b);
            }
         obs.push_back( a);
         groups.push_back( gr);
         }
      if( groups.empty( )) continue;
      std::string file;
      for( size_t i = obs.size( ); i > 1; i--)
         std::swap( obs[i - 1], obs[(size_t)d.raw( (unsigned)i - 1)]);
      for( const Obs &o : obs) file += o.line + "\n";
      rp::write( "obs.txt", file);
      std::vector<std::string> args = { "astcheck", "obs.txt" };
      if( lim.radius != 18000.) args.push_back( pbt::strf( "-r%.0f", lim.radius));
      if( lim.mag != 22.) { args.push_back( "-m"); args.push_back( pbt::strf( "%.1f", lim.mag)); }
      if( lim.motion != 10.) args.push_back( pbt::strf( "-z%.1f", lim.motion));
      if( lim.most != 100) args.push_back( pbt::strf( "-M%d", lim.most));
      if( other) args.push_back( "-fother.sof");
      const bool header = !d.rare( 3);
      if( !header) args.push_back( "-h");
      d.note( "run %d: %s\n%s%s", run, rp::join( args).c_str( ), file.c_str( ), rp::slurp( other ? "other.sof" : "mpcorb.sof").c_str( ));
      const int at_once = d.rare( 6) ? 3 : 1;
      if( at_once > 1) d.cls( "at the same time");
      std::vector<rp::Result> res = rp::run( astcheck_main, args, at_once);
      for( const rp::Result &r : res)
         {
         REQUIRE( !r.code, "exit code %d,  output %s", r.code, r.out.c_str( ));
         const std::vector<std::string> text = rp::lines( r.out);
         for( const Group &g : groups)
            {
            size_t i = 0;
            while( i < text.size( ) && text[i].compare( 0, 13, g.desig + ":"))
               i++;
            REQUIRE( i < text.size( ), "nothing about '%s' in %s", g.desig.c_str( ), r.out.c_str( ));
            if( g.single || (fabs( g.ra_rate) < .01 && fabs( g.dec_rate) < .01))
               REQUIRE( text[i].find( "only one observation") != std::string::npos || !g.single, "'%s'", text[i].c_str( ));
            else
               {
               double r1, r2, hours;
               REQUIRE( sscanf( text[i].c_str( ) + 13, "%lf\"/hr in RA, %lf\"/hr in dec (%lf hours)", &r1, &r2, &hours) == 3, "'%s',  the motion is %.2f %.2f", text[i].c_str( ), g.ra_rate, g.dec_rate);
               REQUIRE( fabs( r1 - g.ra_rate) < .6 && fabs( r2 - g.dec_rate) < .6 && fabs( hours - (g.jd2 - g.jd) * 24.) < .0061, "'%s',  the motion is %.2f %.2f (%.3f hours)", text[i].c_str( ), g.ra_rate, g.dec_rate, (g.jd2 - g.jd) * 24.);
               }
            n_sure += check_listing( result_lines( text, i + 1), g, objs, sites, parallax, lim, false);
            }
         }
      remove( "other.sof");
      remove( "mpcorb.sof");
      }
   d.nontrivial( n_sure > 0);
}

         /* -c:  what's within a given area */
PROP( area, 6000, 30)
{
   rp::own_directory( "astcheck");
   rp::clean( );
   const double jd0 = jd_from( (int)d.ival( 1950, 2050), (int)d.ival( 1, 12), (int)d.ival( 1, 28)) + rounded( d.unit( ), 1e+5);
   std::vector<Object> objs;
   bind( jd0, d, objs);
   bool rovers;
   const std::vector<Site> sites = make_sites( d, rovers);
   const bool parallax = !d.rare( 5);
   Limits lim;
   lim.radius = rounded( d.logreal( 20., 18000.), 1.);
   lim.mag = rounded( d.real( 8., 30.), 10.);
   lim.motion = 10.;
   lim.most = 20000;
   Obs a = observe( d, objs[(size_t)d.raw( (unsigned)objs.size( ) - 1)], jd0, sites, 0, parallax, d.rare( 4) ? 0. : d.logreal( .5, 20000.) * asec);
   if( d.rare( 4)) a.ra = (d.flip( ) ? 0. : pi) + (d.unit( ) - .5) * .02;
   if( fabs( a.dec) > 70. * deg)
      { d.nontrivial( false); return; }
   const double ra = rounded( fmod( a.ra / deg + 720., 360.), 1e+5), dec = rounded( a.dec / deg, 1e+5);
   write_objects( "mpcorb.sof", objs);
   if( parallax) write_sites( sites, d.flip( ));
   std::vector<std::string> args = { "astcheck", "-c", pbt::strf( "JD%.5f", jd0), pbt::strf( "%.5f", ra), pbt::strf( "%.5f", dec), sites[0].code, pbt::strf( "-r%.0f", lim.radius), pbt::strf( "-m%.1f", lim.mag) };
   d.note( "%s\n%s", rp::join( args).c_str( ), rp::slurp( "mpcorb.sof").c_str( ));
   const std::vector<rp::Result> res = rp::run( astcheck_main, args, 1);
   REQUIRE( !res[0].code, "exit code %d,  output %s", res[0].code, res[0].out.c_str( ));
   const std::vector<std::string> text = rp::lines( res[0].out);
   std::vector<std::string> found;
   for( const std::string &l : text)
      if( l.size( ) > 60 && l.substr( 12, 14) == std::string( 14, ' ') && isdigit( l[26]) && isdigit( l[27]) && isdigit( l[28]) && l[29] == '.')
         found.push_back( l);
   const Group g = { "dummy", rounded( jd0, 1e+5), ra * deg, dec * deg, rounded( jd0, 1e+5) + 1e-6, 0., 0., 0, true };
   d.nontrivial( check_listing( found, g, objs, sites, parallax, lim, true) > 0);
   REQUIRE( !rp::any_left( ".tmp"), "a temporary file is left");
}
