// flavor: asan
// extra: astephem.cpp:-Dmain=astephem_main mpcorb.cpp
/* astephem:  ephemerides of objects in a file of orbits */
#include <cstdio>
#include <algorithm>
#include <cmath>
#include <cstring>
#include "watdefs.h"
#include "date.h"
#include "comets.h"
#include "afuncs.h"
#include "pbt.h"
#include "orbref.h"
#include "runprog.h"
using pbt::Draw;

int astephem_main( const int argc, const char **argv);
int get_earth_loc( const double t_millennia, double *results);

PROPERTY( "Q02", "files of 1 to 60 orbits (numbered ones first, the others by designation; near-earth to distant, any inclination), each asked for by number or designation, and objects not in the file; starting times 1900 to 2100 in various forms, steps of minutes to months, backward as well, 1 to 60 lines; non-trivial = an object which is in the file",
   "Reference: the orbit propagated by universal variables in long double, light time, spherical coordinates and H-G magnitude, compared with each column as printed",
   "right ascension is cut, not rounded, to tenths of seconds; light time is iterated to 5 seconds, by design")

typedef long double ld;
static const double pi = 3.141592653589793238462643383279502884, deg = pi / 180.;
static const double k_gauss = .01720209895, c_au_day = 299792.458 * 86400. / 1.495978707e+8;

struct Rec { std::string num, desig, line; double M, w, node, incl, ecc, a, H, G, epoch, Tp; };

static double rounded( double x, double scale) { return( round( x * scale) / scale); }

static void put( std::string &s, size_t at, const std::string &t) { s.replace( at, t.size( ), t); }

static Rec any( Draw &d)
{
   Rec r;
   r.a = rounded( d.rare( 4) ? d.real( .7, 1.5) : (d.rare( 6) ? d.real( 5., 60.) : d.real( 1.8, 4.)), 1e+8);
   r.ecc = rounded( d.flip( ) ? d.real( 0., .3) : d.real( 0., .9), 1e+8);
   r.incl = rounded( d.rare( 3) ? d.real( 0., 180.) : d.real( 0., 30.), 1e+6);
   r.M = rounded( d.real( 0., 359.99), 1e+6); r.w = rounded( d.real( 0., 359.99), 1e+6); r.node = rounded( d.real( 0., 359.99), 1e+6);
   r.H = rounded( d.real( 3., 28.), 100.);
   r.G = d.flip( ) ? .15 : rounded( d.real( 0., .5), 100.);
   const int y = (int)d.ival( 1990, 2030), m = (int)d.ival( 1, 12), day = (int)d.ival( 1, 28);
   r.epoch = (double)dmy_to_day( day, m, y, CALENDAR_GREGORIAN) - .5;
   r.line = std::string( 267, ' ') + "\n";
   put( r.line, 42, pbt::strf( "%5.2f %5.2f", r.H, r.G));
   put( r.line, 106, pbt::strf( "%04d%02d%02d", y, m, day));
   put( r.line, 115, pbt::strf( "%10.6f %10.6f %10.6f%10.6f %10.8f %12.8f", r.M, r.w, r.node, r.incl, r.ecc, r.a));
   const double n = k_gauss / (r.a * sqrt( r.a)), M = (r.M > 180. ? r.M - 360. : r.M) * deg;
   r.Tp = r.epoch - M / n;
   return( r);
}

static std::string provisional( Draw &d)
{
   if( d.rare( 8)) return( pbt::strf( "%d %s", (int)d.ival( 1001, 9999), d.pick( std::vector<const char *>{ "P-L", "T-1", "T-2", "T-3" })));
   std::string s = pbt::strf( "%d %c%c", (int)d.ival( d.flip( ) ? 1998 : 1900, d.flip( ) ? 2001 : 2030), "ABCDEFGHJKLMNOPQRSTUVWXY"[d.raw( d.flip( ) ? 2 : 23)], "ABCDEFGHJKLMNOPQRSTUVWXYZ"[d.raw( 24)]);
   if( !d.rare( 4)) s += pbt::strf( "%d", (int)d.ival( 1, d.flip( ) ? 30 : 400));
   return( s);
}

PROP( ephemeris, 12000, 30)
{
   rp::own_directory( "astephem");
   rp::clean( );
   std::vector<Rec> v;
   const int n_num = (int)d.ival( 0, d.flip( ) ? 3 : 30), n_prov = (int)d.ival( n_num ? 0 : 1, d.flip( ) ? 3 : 30);
   for( int i = 0; i < n_num; i++)
      {
      Rec r = any( d);
      r.num = pbt::strf( "%d", i + 1);
      r.desig = d.flip( ) ? "Ceres" : provisional( d);
      v.push_back( r);
      }
   std::vector<std::string> des;
   for( int tries = 0; (int)des.size( ) < n_prov && tries < 4 * n_prov; tries++)
      {
      const std::string s = provisional( d);
      if( std::find( des.begin( ), des.end( ), s) == des.end( )) des.push_back( s);
      }
   std::sort( des.begin( ), des.end( ));
   for( const std::string &s : des)
      { Rec r = any( d); r.desig = s; v.push_back( r); }
   std::string file;
   for( Rec &r : v)
      {
      put( r.line, 0, pbt::strf( "%6s %-18s ", r.num.c_str( ), r.desig.c_str( )));
      file += r.line;
      }
   rp::write( "astorb.dat", file);
   std::vector<std::string> args = { "astephem" };
   const Rec *r = NULL;
   if( d.rare( 6))
      {
      std::string nm;
      switch( d.raw( 2))
         {
         case 0: nm = pbt::strf( "%d", n_num + 1 + (int)d.raw( 40)); break;
         case 1: nm = "0"; break;
         default: nm = provisional( d);
            if( std::find( des.begin( ), des.end( ), nm) != des.end( )) nm += "9999";
            break;
         }
      args.push_back( "-o" + nm);
      d.cls( "absent");
      }
   else
      {
      r = &v[(size_t)d.raw( (unsigned)v.size( ) - 1)];
      if( r->num != "1" || d.flip( ))
         args.push_back( "-o" + (r->num.empty( ) ? r->desig : r->num));
      }
   double t = rounded( 2415020.5 + d.real( 0., 73000.), 1e+5);
   switch( d.raw( 2))
      {
      case 0: args.push_back( pbt::strf( "-tJD%.5f", t)); break;
      case 1: args.push_back( "-tMJD"); t = rounded( t - 2400000.5, 1e+5) + 2400000.5; args.push_back( pbt::strf( "%.5f", t - 2400000.5)); break;
      default:
         {
         t = floor( t) + .5;
         int day, m;
         long y;
         day_to_dmy( (long)( t + .5), &day, &m, &y, CALENDAR_GREGORIAN);
         args.push_back( pbt::strf( "-t%ld", y)); args.push_back( set_month_name( m, NULL)); args.push_back( pbt::strf( "%d", day));
         }
      }
   double dt = 1.;
   int n = 20;
   if( d.flip( )) { dt = rounded( d.logreal( .01, 100.) * (d.rare( 3) ? -1. : 1.), 1e+4); args.push_back( pbt::strf( "-s%.4f", dt)); }
   if( d.flip( )) { n = (int)d.ival( 1, 60); args.push_back( pbt::strf( "-n%d", n)); }
   d.note( "%s\n%s", rp::join( args).c_str( ), file.c_str( ));
   const rp::Result res = rp::run( astephem_main, args)[0];
   d.nontrivial( r != NULL);
   const std::vector<std::string> text = rp::lines( res.out);
   if( !r)
      {
      REQUIRE( res.code == -2 && text.size( ) == 1 && text[0].find( "not found") != std::string::npos, "absent object:  code %d, %s", res.code, res.out.c_str( ));
      return;
      }
   REQUIRE( !res.code, "exit code %d,  output %s %s", res.code, res.out.c_str( ), res.err.c_str( ));
   REQUIRE( (int)text.size( ) == n + (n + 23) / 24, "%d lines", (int)text.size( ));
   size_t at = 0;
   for( int i = 0; i < n; i++, at++)
      {
      if( i % 24 == 0)
         {
         REQUIRE( text[at].find( "RA") != std::string::npos && text[at].find( "dec") != std::string::npos, "header '%s'", text[at].c_str( ));
         at++;
         }
      const std::string &l = text[at];
      const double jd = t + dt * i;
      double e[6];
      get_earth_loc( (jd - 2451545.) / 365250., e);
      ld p[3], vel[3], geo[3], dist = 0., rad = 0.;
      for( int it = 0; it < 6; it++)
         {
         orbref::state( (ld)r->a * (1.L - r->ecc), r->ecc, r->incl * deg, r->node * deg, r->w * deg, (ld)k_gauss * k_gauss, jd - (double)( dist / c_au_day) - r->Tp, p, vel);
         dist = rad = 0.;
         for( int k = 0; k < 3; k++)
            { geo[k] = p[k] - e[k]; dist += geo[k] * geo[k]; rad += p[k] * p[k]; }
         dist = sqrtl( dist); rad = sqrtl( rad);
         }
      const ld eps = 84381.448L / 3600. * deg, y = geo[1] * cosl( eps) - geo[2] * sinl( eps), z = geo[1] * sinl( eps) + geo[2] * cosl( eps);
      double ra = (double)atan2l( y, geo[0]) / deg, dec = (double)asinl( z / dist) / deg;
      if( ra < 0.) ra += 360.;
      const double speed = (double)sqrtl( vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]);
      const double tol = (.01 / c_au_day * speed / (double)dist + 2e-8) / deg;      /* light time */
      int dd, h, m, ddeg;
      long yr;
      char mon[10], mn[10], sgn[20];
      double sec, dm, gd, gr, mag, elong;
      day_to_dmy( (long)floor( jd + .50001), &dd, &h, &yr, CALENDAR_GREGORIAN);
      strcpy( mon, set_month_name( h, NULL));
      int pd; long py;
      REQUIRE( sscanf( l.c_str( ), "%d %9s %ld: %dh%dm%lfs %19s %lf' %lf %lf %lf %lf", &pd, mn, &py, &h, &m, &sec, sgn, &dm, &gd, &gr, &mag, &elong) == 12, "line '%s'", l.c_str( ));
      if( fabs( jd + .50001 - round( jd + .50001)) > 2e-6)
         REQUIRE( pd == dd && py == yr && !strcmp( mn, mon), "line '%s' should be for %d %s %ld", l.c_str( ), dd, mon, yr);
      REQUIRE( h >= 0 && h < 24 && m >= 0 && m < 60 && sec >= 0. && sec < 60. && dm >= 0. && dm < 60., "line '%s':  units out of range", l.c_str( ));
      const double pra = (h + m / 60. + sec / 3600.) * 15.;
      double dra = ra - pra;
      dra -= 360. * floor( dra / 360. + .5);
      const double rt = tol / cos( dec * deg) + 1e-7;
      REQUIRE( dra > -rt && dra < 1.5 / 3600. + rt, "line '%s',  right ascension is %.6f degrees or %.6f hours", l.c_str( ), ra, ra / 15.);
      ddeg = abs( atoi( sgn));
      const double pdec = (strchr( sgn, '-') ? -1. : 1.) * (ddeg + dm / 60.);
      REQUIRE( fabs( pdec - dec) < .0051 / 60. + tol, "line '%s',  declination is %.5f", l.c_str( ), dec);
      REQUIRE( fabs( gd - (double)dist) < .00051 + tol * deg * (double)dist && fabs( gr - (double)rad) < .00051 + tol * deg * (double)dist, "line '%s',  distances are %.5Lf %.5Lf", l.c_str( ), dist, rad);
      const double R = e[5];
      double c = (double)( rad * rad + dist * dist - R * R) / (double)( 2. * rad * dist), ce = (double)( R * R + dist * dist - rad * rad) / (double)( 2. * R * dist);
      c = c > 1. ? 1. : (c < -1. ? -1. : c); ce = ce > 1. ? 1. : (ce < -1. ? -1. : ce);
      const double phase = acos( c), th = tan( phase / 2.);
      const double true_mag = r->H + 5. * log10( (double)( rad * dist)) - 2.5 * log10( (1. - r->G) * exp( -3.33 * pow( th, .63)) + r->G * exp( -1.87 * pow( th, 1.22)));
      if( phase < 3.1 && phase > 1e-4)
         REQUIRE( fabs( mag - true_mag) < .0501 + .001 + (phase > 2.8 ? .02 : 0.) + tol * 30., "line '%s',  magnitude is %.3f (phase angle %.2f)", l.c_str( ), true_mag, phase / deg);
      REQUIRE( fabs( elong - acos( ce) / deg) < .0501 + tol + 1e-4, "line '%s',  elongation is %.2f", l.c_str( ), acos( ce) / deg);
      }
}
