// flavor: plain
// extra: jevent.cpp:@jevent_main
/* Events of the satellites of Jupiter: 'jevent' */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
#include "runprog.h"
#include "vsopgen.h"
using pbt::Draw;

extern "C" int jevent_main( int argc, char **argv);

PROPERTY( "V05", "spans of up to 60 days in the years 1600 to 2400, either calendar, any set of the four satellites, all options; non-trivial = events listed",
   "Earth and Jupiter from their main terms (Meeus, of date) in long double, satellites by the library (N02); the disc of Jupiter, flattened by 1.071374, as seen from the sun and earth light time later, scanned in steps of six degrees of the satellite's orbit",
   "limb and shadow met to .04 Jovian radii; grazing passages (over .93 radii from the center) and events within some minutes of a hiding's start or end may be listed or not")

static const double jupiter_terms[22][3] = { {59954691,0,0}, {9695899,5.0619179,529.6909651}, {573610,1.444062,7.113547}, {306389,5.417347,1059.381930},
   {97178,4.14265,632.78374}, {72903,3.64043,522.57742}, {64264,3.41145,103.09277}, {39806,2.29377,419.48464}, {38858,1.27232,316.39187}, {52993480757.,0,0}, {489741,4.220667,529.690965}, {228919,6.026475,7.113547},
   {2268616,3.5585261,529.6909651}, {110090,0,0}, {109972,3.908093,1059.381930}, {520887429,0,0}, {25209327,3.49108640,529.69096509}, {610600,3.841154,1059.381930}, {282029,2.574199,632.783739}, {187647,2.075904,522.577418}, {86793,.71001,419.48464}, {72063,.21466,536.80451} };
static const double earth_terms[10][3] = { {175347046,0,0}, {3341656,4.6692568,6283.0758500}, {34894,4.6261,12566.1517}, {3497,2.7441,5753.3849}, {3418,2.8289,3.5231},
   {628331966747.,0,0}, {206059,2.678235,6283.07585}, {100013989,0,0}, {1670700,3.0984635,6283.07585}, {13956,3.05525,12566.1517} };

static const vg::Image &image( )
{
   static vg::Image im;
   if( im.bytes.empty( ))
      {
      im.synthetic( 1, 0);
      int n = im.head[10] = 120;
      for( int i = 11; i < 134; i++)
         {
         const int s = i - 1;          /* earth 36 to 53,  Jupiter 72 to 89 */
         n += (s == 36 ? 5 : s == 37 ? 2 : s == 48 ? 3 : s == 72 ? 9 : s == 73 ? 3 : s == 78 ? 3 : s == 84 ? 7 : 0);
         im.head[i] = n;
         }
      for( int i = 0; i < 32; i++)
         {
         const double *t = i < 10 ? earth_terms[i] : jupiter_terms[i - 10];
         im.term[120 + i] = vg::Term{ t[0], t[1], t[2] };
         }
      im.serialize( );
      }
   return( im);
}

struct P3 { double x[3]; };
static P3 planet( int p, double jd)
{
   const vg::ld t = (jd - 2451545.) / 36525.;
   const vg::ld lon = image( ).vsop( p, 0, t, nullptr) * 1e-8L, lat = image( ).vsop( p, 1, t, nullptr) * 1e-8L, r = image( ).vsop( p, 2, t, nullptr) * 1e-8L;
   return( P3{ { (double)( r * cosl( lon) * cosl( lat)), (double)( r * sinl( lon) * cosl( lat)), (double)( r * sinl( lat)) } });
}

static const double light_day = 173.144632674;     /* AU */

struct View { double x, y, along; double d( ) const { return( hypot( x, y)); } };

            /* satellite against Jupiter's disc,  at an instant there;  planets interpolated, as they hardly move */
struct Sky
{
   double t0; P3 j[3], e[3];
   void load( double t)
      {
      t0 = t;
      for( int i = 0; i < 3; i++) { j[i] = planet( 5, t + i - 1); e[i] = planet( 3, t + i - 1); }
      }
   P3 at( const P3 *p, double t)
      {
      P3 r;
      const double u = t - t0;
      for( int i = 0; i < 3; i++) r.x[i] = p[1].x[i] + u * (p[2].x[i] - p[0].x[i]) / 2. + u * u * (p[2].x[i] + p[0].x[i] - 2. * p[1].x[i]) / 2.;
      return( r);
      }
   View see( int sat, bool from_earth, double t)
      {
      if( fabs( t - t0) > .5) load( floor( t + .5));
      double s[15];
      calc_jsat_loc( t, s, 1 << (sat - 1), 0L);
      const double *v = s + 3 * (sat - 1);
      P3 u = at( j, t);
      const P3 ee = at( e, t);
      if( from_earth)
         for( int i = 0; i < 3; i++) u.x[i] -= ee.x[i];
      const double r = sqrt( u.x[0] * u.x[0] + u.x[1] * u.x[1] + u.x[2] * u.x[2]), h = hypot( u.x[0], u.x[1]);
      const double e1[3] = { -u.x[1] / h, u.x[0] / h, 0. };
      const double e2[3] = { -u.x[0] * u.x[2] / (h * r), -u.x[1] * u.x[2] / (h * r), h / r };
      View w = { 0., 0., 0. };
      for( int i = 0; i < 3; i++) { w.x += v[i] * e1[i]; w.y += v[i] * e2[i]; w.along += v[i] * u.x[i] / r; }
      w.y *= 1.071374;
      return( w);
      }
   double light_time( double t)
      {
      if( fabs( t - t0) > .5) load( floor( t + .5));
      const P3 a = at( j, t), b = at( e, t);
      return( sqrt( (a.x[0] - b.x[0]) * (a.x[0] - b.x[0]) + (a.x[1] - b.x[1]) * (a.x[1] - b.x[1]) + (a.x[2] - b.x[2]) * (a.x[2] - b.x[2])) / light_day);
      }
};

struct Ev { double t; int sat, type; bool start; };         /* type: 0 occ, 1 transit, 2 eclipse, 3 shadow;  t TT at the earth */
static const char *type_names[4] = { "Occ", "Tra", "Ecl", "Sha" };
static const double minute = 1. / 1440.;

static std::vector<Ev> parse( const std::vector<std::string> &l, size_t from)
{
   std::vector<Ev> v;
   static const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
   for( size_t i = from; i < l.size( ); i++)
      {
      int sat, day, y, h, m;
      char what[10], edge[10], mm[10];
      REQUIRE( sscanf( l[i].c_str( ), "sat %d: %3s %5[a-z] : %d %3s %d %d:%d", &sat, what, edge, &day, mm, &y, &h, &m) == 8
            || sscanf( l[i].c_str( ), "sat %d: %3s %5[a-z]: %d %3s %d %d:%d", &sat, what, edge, &day, mm, &y, &h, &m) == 8, "can't read '%s'", l[i].c_str( ));
      Ev e;
      e.sat = sat;
      e.type = -1;
      for( int k = 0; k < 4; k++) if( !strcmp( what, type_names[k])) e.type = k;
      e.start = !strcmp( edge, "start");
      const char *p = strstr( mon, mm);
      REQUIRE( e.type >= 0 && (e.start || !strcmp( edge, "end")) && p && sat > 0 && sat < 5, "can't read '%s'", l[i].c_str( ));
      const double ut = (double)dmy_to_day( day, (int)( p - mon) / 3 + 1, y, CALENDAR_GREGORIAN) - .5 + (h + (m + .5) / 60.) / 24.;
      e.t = ut + td_minus_ut( ut) / 86400.;
      v.push_back( e);
      }
   return( v);
}

struct Pass { double a, b, lat; };        /* a satellite behind or before Jupiter: from a to b,  TT at the earth;  hit by this much */

static void passages( Sky &sky, int sat, bool earth, bool front, double t1, double t2, std::vector<Pass> &v)
{
   static const double speeds[4] = { 203.488955, 101.374724, 50.317609, 21.571071 };
   const double step = 6. / speeds[sat - 1];
   double prev = 0.;
   for( double t = t1; t < t2; t += step)
      {
      const View w = sky.see( sat, earth, t);
      if( t > t1 && prev * w.x < 0. && (w.along < 0.) == front)
         {
         double lo = t - step, hi = t;
         for( int k = 0; k < 30; k++)
            {
            const double m = (lo + hi) / 2.;
            if( sky.see( sat, earth, m).x * prev > 0.) lo = m; else hi = m;
            }
         Pass p;
         p.lat = fabs( sky.see( sat, earth, lo).y);
         if( p.lat > 1.1) { prev = w.x; continue; }
         const double lt = sky.light_time( lo);
         double edge[2];
         for( int side = 0; side < 2; side++)
            {
            double in = lo, out = lo + (side ? 1. : -1.) * step * 5.;
            if( p.lat < 1.)
               for( int k = 0; k < 30; k++)
                  {
                  const double m = (in + out) / 2.;
                  if( sky.see( sat, earth, m).d( ) < 1.) in = m; else out = m;
                  }
            edge[side] = in + lt;
            }
         p.a = edge[0];
         p.b = edge[1];
         v.push_back( p);
         }
      prev = w.x;
      }
}

PROP( lists, 700, 20)
{
   rp::own_directory( "jevent");
   rp::clean( );
   rp::write( "vsop.bin", std::string( image( ).bytes.begin( ), image( ).bytes.end( )));
   const int y = (int)d.ival( 1600, 2400), m = (int)d.ival( 1, 12), day = (int)d.ival( 1, 28);
   const bool julian = d.rare( 5), quiet = d.rare( 6), to_file = d.rare( 3) || quiet, data = d.rare( 3);
   const int n_days = d.flip( ) ? 30 : (int)d.ival( 1, 60), mask = d.flip( ) ? 15 : (int)d.ival( 1, 15);
   std::vector<std::string> args = { "jevent", pbt::strf( "%d", day), pbt::strf( "%d", m), pbt::strf( "%d", y) };
   const double frac = d.rare( 4) ? (double)d.ival( 0, 99) / 100. : 0.;
   if( frac) args[1] += pbt::strf( ".%02d", (int)( frac * 100. + .5));
   if( n_days != 30 || d.rare( 4)) args.push_back( pbt::strf( "-d%d", n_days));
   if( mask != 15 || d.rare( 4)) args.push_back( pbt::strf( "-s%d", mask));
   if( julian) args.push_back( d.flip( ) ? "-j" : "-J");
   if( quiet) args.push_back( "-q");
   if( to_file) args.push_back( "-fevents.txt");
   if( data) args.push_back( "-revents.dat");
   d.note( "%s", rp::join( args).c_str( ));
   const rp::Result r = rp::run( [&]( int argc, const char **argv) { return( jevent_main( argc, (char **)argv)); }, args)[0];
   REQUIRE( r.code == 0, "ended with code %d", r.code);
   const std::vector<std::string> lines = rp::lines( r.out);
   std::vector<Ev> got;
   size_t at = 0;
   while( at < lines.size( ) && lines[at] != "Final results:") at++;
   REQUIRE( quiet == (at == lines.size( )), quiet ? "not quiet" : "no results");
   if( !quiet) got = parse( lines, at + 1);
   if( to_file)
      {
      const std::vector<Ev> in_file = parse( rp::lines( rp::slurp( "events.txt")), 0);
      if( quiet) got = in_file;
      REQUIRE( got.size( ) == in_file.size( ), "%d events on the screen, %d in the file", (int)got.size( ), (int)in_file.size( ));
      for( size_t i = 0; i < got.size( ); i++)
         REQUIRE( got[i].t == in_file[i].t && got[i].sat == in_file[i].sat && got[i].type == in_file[i].type && got[i].start == in_file[i].start, "file differs from screen");
      }
   if( data)
      {
      const std::string bin = rp::slurp( "events.dat");
      REQUIRE( bin.size( ) == got.size( ) * 5, "%d bytes of data for %d events", (int)bin.size( ), (int)got.size( ));
      for( size_t i = 0; i < got.size( ); i++)
         {
         int32_t t;
         memcpy( &t, &bin[i * 5], 4);
         const int flags = bin[i * 5 + 4];
         REQUIRE( fabs( 2451545. + (double)t / 1440. - got[i].t) < 2.1 * minute, "time in the data %.4f, in the list %.4f", 2451545. + (double)t / 1440., got[i].t);
         REQUIRE( flags == (got[i].type ^ (got[i].start ? 4 : 0) ^ (got[i].sat << 3)), "flags %d in the data for %s of satellite %d", flags, type_names[got[i].type], got[i].sat);
         }
      }
   d.nontrivial( !got.empty( ));
   const double t1 = (double)dmy_to_day( 0, m, y, julian ? CALENDAR_JULIAN : CALENDAR_GREGORIAN) - .5 + day + frac, t2 = t1 + n_days;
   static Sky sky;
   sky.load( floor( t1));
            /* whatever is listed happens */
   for( size_t i = 0; i < got.size( ); i++)
      {
      const Ev &e = got[i];
      const std::string name = pbt::strf( "satellite %d, %s %s, TT %.4f", e.sat, type_names[e.type], e.start ? "start" : "end", e.t);
      REQUIRE( mask & (1 << (e.sat - 1)), "%s: not asked for", name.c_str( ));
      REQUIRE( e.t > t1 - minute && e.t < t2 + minute, "%s: not within the span", name.c_str( ));
      REQUIRE( !i || e.t > got[i - 1].t - 1e-6, "%s: out of order", name.c_str( ));
      const double t = e.t - sky.light_time( e.t - sky.light_time( e.t));
      const bool earth = (e.type < 2);
      const View w = sky.see( e.sat, earth, t), w2 = sky.see( e.sat, earth, t + (e.start ? 1. : -1.) * 20. * minute);
      REQUIRE( fabs( w.d( ) - 1.) < .04, "%s: %.3f radii from the center of Jupiter", name.c_str( ), w.d( ));
      REQUIRE( (w.along < 0.) == (e.type & 1), "%s: wrong side of Jupiter", name.c_str( ));
      REQUIRE( fabs( w2.x) < fabs( w.x) + .02 || fabs( w.x) < .12, "%s: isn't one", name.c_str( ));
      d.cls( type_names[e.type]);
      for( size_t k = 0; k < i; k++)
         REQUIRE( got[k].sat != e.sat || got[k].type != e.type || got[k].start != e.start || e.t - got[k].t > 1., "%s: listed twice", name.c_str( ));
      }
            /* and what happens,  if not hidden,  is listed */
   for( int sat = 1; sat <= 4; sat++)
      if( mask & (1 << (sat - 1)))
         {
         std::vector<Pass> p[4];
         for( int type = 0; type < 4; type++) passages( sky, sat, type < 2, type & 1, t1 - .9, t2 + .9, p[type]);
         for( int type = 0; type < 4; type++)
            for( const Pass &x : p[type])
               if( x.lat < .93)
                  for( int side = 0; side < 2; side++)
                     {
                     const double t = side ? x.b : x.a;
                     if( t < t1 + 25. * minute || t > t2 - 25. * minute) continue;
                     bool hidden = false, unsure = false;
                     for( int k = 0; k < 4; k += 2)
                        for( const Pass &h : p[k])
                           if( &h != &x)
                              {
                              const double grow = (h.lat < .93 ? 25. : h.lat < 1. ? 60. : 200.) * minute;
                              if( h.lat < .93 && t > h.a + 25. * minute && t < h.b - 25. * minute) hidden = true;
                              else if( t > h.a - grow && t < h.b + grow) unsure = true;
                              }
                     if( unsure && !hidden) continue;
                     bool found = false;
                     for( const Ev &e : got)
                        if( e.sat == sat && e.type == type && e.start == !side && fabs( e.t - t) < 25. * minute) found = true;
                     REQUIRE( found == !hidden, "satellite %d, %s %s at TT %.4f is %s", sat, type_names[type], side ? "end" : "start", t, found ? "listed, though hidden" : "missing");
                     }
         }
}
