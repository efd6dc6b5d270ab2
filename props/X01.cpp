// flavor: asan
/* ADES (PSV and XML) to 80-column astrometry */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <csetjmp>
#include <unistd.h>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "X01", "documents mixing PSV blocks, XML documents, Tholen-style and plain 80-column lines and free text; 1 to 8 observations per block with any subset of the fields, in any column order (mode, system, position and velocity kept in sequence), any precision, padding, tag layout and line ends; satellite, roving and fixed observers; for robustness, damaged documents and tag soup; non-trivial = at least two observations, or one with an optional field",
   "Model: each observation's fields, placed by an independent writer into the extended 80-column format and its comment lines; dates read back as instants; second lines by numeric value; for damaged documents, no memory error and no endless output (address sanitizer, assertions tolerated)",
   "one XML observation per line at most; values without XML entities; satellite offsets below 10 million km or 100 AU; observations give both or neither of the RA and dec uncertainties")

typedef std::vector<std::pair<std::string, std::string>> fields;
static const std::string *get( const fields &f, const char *name)
{
   for( auto &x : f) if( x.first == name) return( &x.second);
   return( NULL);
}
static std::string num( Draw &d, double lo, double hi, int dec) { return( pbt::strf( "%.*f", dec, d.real( lo, hi))); }
static long civil( int y, int m, int dd)           /* days from 1970 Jan 1 */
{
   y -= m <= 2;
   const long era = (y >= 0 ? y : y - 399) / 400;
   const unsigned yoe = (unsigned)( y - era * 400), doy = (153u * (unsigned)( m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)dd - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return( era * 146097 + (long)doe - 719468);
}
struct expect
{
   std::vector<std::string> exact;         /* with "\1time" for a t2k value to be checked numerically */
   ld t2k;
   bool has_line2, satellite;
   double pos[3], vel[3], unit;
   int dec[3], ctr;
   bool has_vel;
};
static char base62( int v) { return( v < 10 ? (char)( '0' + v) : v < 36 ? (char)( 'A' + v - 10) : (char)( 'a' + v - 36)); }

static fields gen_obs( Draw &d)
{
   fields f;
   auto add = [&]( const char *n, const std::string &v) { f.push_back( { n, v }); };
   const int kind = (int)d.raw( 5);
   if( kind == 0 || d.rare( 6)) add( "permID", pbt::strf( "%d", (int)d.ival( 1, d.flip( ) ? 99999 : 619999)));
   if( kind == 1 || d.rare( 6)) add( "provID", pbt::strf( "%d %c%c%s", (int)d.ival( 1801, 2099), "ABCDEFGHJKLMNOPQRSTUVWXY"[d.raw( 23)], "ABCDEFGHJKLMNOPQRSTUVWXYZ"[d.raw( 24)], d.flip( ) ? "" : pbt::strf( "%d", (int)d.ival( 1, 619)).c_str( )));
   if( kind > 1)
      {
      std::string s;
      const int n = 1 + (int)d.raw( d.flip( ) ? 6 : 11);
      for( int i = 0; i < n; i++) s += "ABCxyz0123456789_"[d.raw( 16)];
      add( d.rare( 5) ? "artSat" : "trkSub", s);
      }
   if( d.rare( 4)) add( "obsID", pbt::strf( "L%d", (int)d.raw( 1000000)) + std::string( d.raw( 16), 'q'));
   if( d.rare( 4)) add( "trkID", pbt::strf( "0000%d", (int)d.raw( 1000000)));
   static const char *modes[] = { "CCD", "CMO", "VID", "PHO", "ENC", "PMT", "MIC", "MER", "TDI", "OCC", "UNK" };
   add( "mode", modes[d.flip( ) ? 0 : d.raw( 10)]);
   add( "stn", pbt::strf( "%c%02d", "0123456789ABCFGTWZ"[d.raw( 17)], (int)d.raw( 99)));
   if( d.rare( 4))
      {
      const int sys = (int)d.raw( 2);
      add( "sys", sys == 0 ? "ICRF_KM" : sys == 1 ? "ICRF_AU" : "WGS84");
      if( d.flip( )) add( "ctr", d.flip( ) ? "399" : pbt::strf( "%d", (int)d.ival( 0, 99999)));
      if( sys < 2)
         for( int i = 0; i < 3; i++)
            {
            const double lim = sys ? d.pick( std::vector<double>{ .01, 1., 9.9, 99. }) : d.pick( std::vector<double>{ 5., 90., 999., 9000., 90000., 900000., 9000000. });
            const double v = d.flip( ) ? d.real( -lim, lim) : (d.flip( ) ? -1 : 1) * d.real( lim * .5, lim);
            std::string s = d.rare( 8) ? pbt::strf( "%.*e", (int)d.ival( 3, 7), v) : d.rare( 8) ? pbt::strf( "%.0f", v) : pbt::strf( "%.*f", (int)d.ival( 1, 9), v);
            if( s[0] != '-' && d.flip( )) s = "+" + s;
            add( i == 0 ? "pos1" : i == 1 ? "pos2" : "pos3", s);
            }
      else
         {
         add( "pos1", d.rare( 6) ? pbt::strf( "%d", (int)d.raw( 359)) : num( d, 0., 359.99999, (int)d.ival( 1, 6)));
         std::string lat = d.rare( 6) ? pbt::strf( "%d", (int)d.ival( -89, 89)) : num( d, -89.9, 89.9, (int)d.ival( 1, 6));
         if( lat[0] != '-' && d.flip( )) lat = "+" + lat;
         add( "pos2", lat);
         add( "pos3", d.flip( ) ? pbt::strf( "%d", (int)d.ival( -400, 8000)) : num( d, 0., 99.9, 1));
         }
      if( sys < 2 && d.flip( ))
         for( int i = 0; i < 3; i++) add( i == 0 ? "vel1" : i == 1 ? "vel2" : "vel3", num( d, sys ? -.01 : -20., sys ? .01 : 20., (int)d.ival( 4, 8)));
      }
   if( d.rare( 6)) add( "prog", pbt::strf( d.flip( ) ? "%02d" : "%d", (int)d.raw( 34)));
   const int nd = d.flip( ) ? (int)d.raw( 3) : (int)d.raw( 7);
   const int yr = d.rare( 12) ? (int)d.ival( 2095, 3500) : d.flip( ) ? (int)d.ival( 2000, 2030) : (int)d.ival( 1801, 2099), mo = 1 + (int)d.raw( 11);
   const int mlen = mo == 2 ? 28 : mo == 4 || mo == 6 || mo == 9 || mo == 11 ? 30 : 31;
   std::string sec = pbt::strf( "%02d", (int)d.raw( 59));
   if( nd) { sec += "."; for( int i = 0; i < nd; i++) sec += (char)( '0' + d.raw( 9)); }
   add( "obsTime", pbt::strf( "%d-%02d-%02dT%02d:%02d:%s%s", yr, mo, 1 + (int)d.raw( mlen - 1), (int)d.raw( 23), (int)d.raw( 59), sec.c_str( ), "Z"));
   if( d.rare( 4)) add( "rmsTime", num( d, .001, 2., (int)d.ival( 1, 3)));
   std::string ra = num( d, d.flip( ) ? 0. : 300., d.flip( ) ? 12. : 359.9, (int)( d.flip( ) ? d.ival( 3, 7) : d.ival( 1, 12)));
   if( d.rare( 8)) ra = "+" + ra;
   add( "ra", ra);
   std::string dec = num( d, d.flip( ) ? -9. : -89., d.flip( ) ? 9. : 89., (int)( d.flip( ) ? d.ival( 3, 7) : d.ival( 1, 12)));
   if( dec[0] != '-' && d.flip( )) dec = "+" + dec;
   add( "dec", dec);
   if( d.flip( ))
      {
      const std::string r = num( d, .01, 2., (int)d.ival( 1, 4));
      add( "rmsRA", r);
      add( "rmsDec", d.flip( ) ? r : num( d, .01, 2., (int)d.ival( 1, 4)));
      if( d.flip( )) add( "rmsCorr", d.rare( 4) ? "0.0" : num( d, -1., 1., (int)d.ival( 1, 4)));
      }
   static const char *cats[] = { "Gaia2", "Gaia1", "UCAC4", "PPMXL", "2MASS", "USNOA2", "Gaia3" };
   if( d.flip( )) add( "astCat", cats[d.raw( 6)]);
   if( d.flip( ))
      {
      add( "mag", num( d, d.rare( 5) ? -2. : 9., 26., (int)d.ival( 1, 4)));
      if( d.flip( )) add( "rmsMag", num( d, .01, 1., (int)d.ival( 1, 3)));
      static const char *bands[] = { "V", "R", "G", "Gr", "Gb", "Pg", "Pw", "Sr", "Si", "Ao", "Ac", "Vj", "Rc", "o", "c", "UNK", "Pi", "Sz", "w" };
      if( d.flip( )) add( "band", bands[d.raw( 18)]);
      }
   if( d.rare( 5))
      {
      const int r = (int)d.raw( 4);
      add( "ref", r == 3 ? std::string( "!AbC12xyz").substr( 0, d.ival( 2, 9)) : r == 4 ? pbt::strf( "AJ %d, %d", (int)d.ival( 1, 200), (int)d.ival( 1, 2000)) : r == 0 ? pbt::strf( "MPEC %d-%c%d", (int)d.ival( 1993, 2030), "ABCDEFGHJKLMNOPQRSTUVWXY"[d.raw( 23)], (int)d.ival( 1, 999))
                : r == 1 ? pbt::strf( "MPS %d", d.rare( 6) ? 259999 + (int)d.raw( 2) : (int)d.raw( d.flip( ) ? 259999 : 2000000)) : pbt::strf( "MPC %d", d.rare( 6) ? 109999 + (int)d.raw( 2) : d.rare( 6) ? 99999 + (int)d.raw( 2) : (int)d.raw( d.flip( ) ? 109999 : 400000)));
      }
   if( d.rare( 6)) add( "disc", "*");
   if( d.rare( 5) && !get( f, "prog"))
      {
      std::string s;
      for( int i = (int)d.raw( 5); i >= 0; i--) s += "ADEFIKNOSTUX"[d.raw( 11)];
      add( "notes", s);
      }
   if( d.rare( 5)) add( "remarks", pbt::strf( "Clouds%d", (int)d.raw( 9)) + std::string( d.raw( 60), '.'));
   if( d.rare( 6)) add( "logSNR", num( d, .1, 3., 2));
   if( d.rare( 6)) add( "exp", "30.0");
               /* any order,  but for these */
   if( d.flip( ))
      {
      std::vector<size_t> seq;
      for( size_t i = 0; i < f.size( ); i++)
         if( f[i].first == "mode" || f[i].first == "sys" || f[i].first == "ctr" || !f[i].first.compare( 0, 3, "pos") || !f[i].first.compare( 0, 3, "vel")) seq.push_back( i);
      fields g = f;
      for( size_t i = g.size( ) - 1; i > 0; i--) std::swap( g[i], g[d.raw( i)]);
      size_t k = 0;
      for( auto &x : g)
         if( x.first == "mode" || x.first == "sys" || x.first == "ctr" || !x.first.compare( 0, 3, "pos") || !x.first.compare( 0, 3, "vel")) x = f[seq[k++]];
      f = g;
      }
   return( f);
}
static void put( std::string &l, size_t col, const std::string &s) { l.replace( col, s.size( ), s); }
static std::string angle( const std::string &s, int lead, bool &overlong)
{
   const size_t pt = s.find( '.');
   overlong = s.size( ) - pt > 8;
   if( overlong) return( pbt::strf( lead == 2 ? "%11.8f" : "%12.8f", strtod( s.c_str( ), NULL)));
   return( std::string( lead - pt, '0') + s);
}
static expect model( const fields &f, bool ignore_artsat)
{
   expect e;
   std::string l( 80, ' ');
   const std::string *p;
   memset( e.pos, 0, sizeof( e.pos));
   e.has_line2 = e.has_vel = e.satellite = false;
   e.ctr = 399;
   e.unit = 1;
   e.t2k = 0;
               /* designation:  permanent,  provisional,  temporary */
   if( (p = get( f, "permID")) != NULL)
      {
      const int n = atoi( p->c_str( ));
      put( l, 0, n < 100000 ? pbt::strf( "%05d", n) : pbt::strf( "%c%04d", base62( n / 10000), n % 10000));
      }
   else if( (p = get( f, "provID")) != NULL)
      {
      const int yr = atoi( p->c_str( )), cyc = atoi( p->c_str( ) + 7);
      put( l, 5, pbt::strf( "%c%02d%c%c%d%c", base62( yr / 100), yr % 100, (*p)[5], base62( cyc / 10), cyc % 10, (*p)[6]));
      }
   else if( (p = get( f, "trkSub")) != NULL) put( l, p->size( ) < 8 ? 5 : 12 - p->size( ), *p);
   else if( (p = get( f, "artSat")) != NULL && !ignore_artsat) put( l, 0, *p);
   if( get( f, "disc")) l[12] = '*';
   if( (p = get( f, "notes")) != NULL) l[13] = (*p)[0];
   if( (p = get( f, "prog")) != NULL) l[13] = "0123456789!\"#$%&'()*+,-./[\\]^_`{|}~"[atoi( p->c_str( ))];
   static const std::map<std::string, char> modes = { { "CCD", 'C' }, { "CMO", 'B' }, { "VID", 'n' }, { "PHO", 'P' }, { "ENC", 'e' }, { "PMT", 'p' }, { "MIC", 'M' }, { "MER", 'T' }, { "TDI", 'C' }, { "OCC", 'E' }, { "UNK", '?' } };
   l[14] = modes.at( *get( f, "mode"));
   if( (p = get( f, "sys")) != NULL)
      {
      e.has_line2 = true;
      e.satellite = (*p != "WGS84");
      l[14] = e.satellite ? 'S' : 'V';
      e.unit = (*p == "ICRF_AU") ? AU_IN_KM / 86400. : 1.;
      for( int i = 0; i < 3; i++)
         {
         const std::string &v = *get( f, pbt::strf( "pos%d", i + 1).c_str( ));
         e.pos[i] = atof( v.c_str( ));
         const size_t pt = v.find( '.');
         e.dec[i] = v.find( 'e') != std::string::npos ? 9 : pt == std::string::npos ? 0 : (int)( v.size( ) - pt - 1);
         if( (p = get( f, pbt::strf( "vel%d", i + 1).c_str( ))) != NULL) { e.has_vel = true; e.vel[i] = atof( p->c_str( )); }
         }
      if( (p = get( f, "ctr")) != NULL) e.ctr = atoi( p->c_str( ));
      }
   put( l, 77, *get( f, "stn"));
   const std::string &t = *get( f, "obsTime");
   std::string packed( 1, base62( atoi( t.substr( 0, 2).c_str( ))));
   for( char c : t.substr( 2)) if( isdigit( c)) packed += c; else if( c == 'T') packed += ':';
   const bool far_future = atoi( t.c_str( )) > 2099;      /* such times go to a comment line,  the record having that of 20xx */
   const bool long_time = packed.size( ) > 17 || far_future;
   if( far_future) packed[0] = 'K';
   put( l, 15, packed.substr( 0, 17));
   e.t2k = (ld)( civil( atoi( t.c_str( )), atoi( t.c_str( ) + 5), atoi( t.c_str( ) + 8)) - 10957) - .5L
            + (atoi( t.c_str( ) + 11) * 3600.L + atoi( t.c_str( ) + 14) * 60.L + strtold( t.c_str( ) + 17, NULL)) / 86400.L;
   bool long_ra, long_dec;
   std::string ra = *get( f, "ra"), dec = *get( f, "dec");
   if( ra[0] == '+') ra.erase( 0, 1);
   const char sign = (dec[0] == '-' ? '-' : '+');
   if( dec[0] == '-' || dec[0] == '+') dec.erase( 0, 1);
   put( l, 32, angle( ra, 3, long_ra));
   l[44] = sign;
   put( l, 45, angle( dec, 2, long_dec));
   if( (p = get( f, "mag")) != NULL) put( l, 65, p->substr( 0, 5));
   std::string tags;
   if( (p = get( f, "band")) != NULL)
      {
      const std::string &b = *p;
      const bool two = b.size( ) > 1 && (((b[0] == 'P' || b[0] == 'S') && strchr( "grizwy", b[1])) || (b[0] == 'A' && (b[1] == 'o' || b[1] == 'c')) || (b[0] == 'G' && (b[1] == 'b' || b[1] == 'r')));
      l[70] = b[two];
      if( b.size( ) > 1) tags += " band:" + b;
      }
   static const std::map<std::string, char> cats = { { "Gaia2", 'V' }, { "Gaia1", 'U' }, { "UCAC4", 'q' }, { "PPMXL", 't' }, { "2MASS", 'L' }, { "USNOA2", 'c' }, { "Gaia3", 'W' } };
   if( (p = get( f, "astCat")) != NULL) l[71] = cats.at( *p);
   if( (p = get( f, "ref")) != NULL)
      {
      const int n = atoi( p->c_str( ) + 4);
      std::string r;
      if( !p->compare( 0, 4, "MPEC")) r = pbt::strf( "E%c%03d", (*p)[10], atoi( p->c_str( ) + 11));
      else if( (*p)[0] == '!') r = p->substr( 0, 5);
      else if( (*p)[0] == 'A') r = "";
      else
         {
         const bool mps = (*p)[2] == 'S';
         const int lim = mps ? 260000 : 110000;
         if( n < lim) r = mps ? pbt::strf( "%c%04d", 'a' + n / 10000, n % 10000) : pbt::strf( n < 100000 ? "%05d" : "@%04d", n % 100000);
         else
            {
            int v = n - lim;
            r = std::string( 1, mps ? '~' : '#') + "0000";
            for( int i = 4; i > 0; i--, v /= 62) r[i] = base62( v % 62);
            }
         }
      put( l, 72, r);
      }
               /* lines,  in order */
   if( (p = get( f, "rmsRA")) != NULL)
      {
      const std::string &dd = *get( f, "rmsDec"), *c = get( f, "rmsCorr"), *m = get( f, "rmsMag"), *tt = get( f, "rmsTime");
      std::string s = "COM Sigmas " + *p;
      if( dd != *p) { s += "x" + dd; if( c && atof( c->c_str( )) != 0.) s += "," + *c; }
      if( m) s += " m:" + *m;
      if( tt) s += " t:" + *tt;
      e.exact.push_back( s);
      }
   std::string ids;
   if( (p = get( f, "trkSub")) != NULL) ids += " trkSub:" + *p;
   if( (p = get( f, "obsID")) != NULL) ids += " obsID:" + *p;
   if( (p = get( f, "trkID")) != NULL) ids += " trkID:" + *p;
   if( !ids.empty( )) e.exact.push_back( "COM IDs" + ids);
   if( long_ra || long_dec || long_time)
      e.exact.push_back( "COM RA/dec " + (long_ra ? ra : "-") + " " + (long_dec ? sign + dec : "-") + (long_time ? " \1" : ""));
   if( (p = get( f, "mag")) != NULL && p->size( ) > 5) e.exact.push_back( "COM full mag " + *p);
   if( (p = get( f, "notes")) != NULL) tags += " notes:" + *p;
   if( (p = get( f, "prog")) != NULL) tags += " progcode:" + *p;
   if( !tags.empty( )) e.exact.push_back( "COM ADES tags" + tags);
   if( e.has_vel) e.exact.push_back( "\2");
   e.exact.push_back( l);
   if( e.has_line2) e.exact.push_back( "\3");
   return( e);
}
static double field( const std::string &s, const char *what)
{
   std::string t = s;
   while( !t.empty( ) && t[0] == ' ') t.erase( 0, 1);
   while( !t.empty( ) && t.back( ) == ' ') t.pop_back( );
   REQUIRE( !t.empty( ) && t.find( ' ') == std::string::npos, "%s is given as %s", what, pbt::quoted( s).c_str( ));
   char *end;
   const double v = strtod( t.c_str( ), &end);
   REQUIRE( !*end, "%s is given as %s", what, pbt::quoted( s).c_str( ));
   return( v);
}
static int decimals( const std::string &s) { const size_t p = s.find( '.'), q = s.find_last_not_of( ' '); return( p == std::string::npos ? 0 : (int)( q - p)); }
static void match( const expect &e, const std::string &want, const std::string &got, const std::string &rec)
{
   const size_t tm = want.find( '\1');
   if( want == "\2")
      {
      REQUIRE( !got.compare( 0, 15, "COM vel (km/s) ") && got.substr( 15, 14) == rec.substr( 15, 14) && got.size( ) == 74, "velocity line is %s", pbt::quoted( got).c_str( ));
      REQUIRE( got.substr( 71) == rec.substr( 77), "velocity line is for another station: %s", pbt::quoted( got).c_str( ));
      for( int i = 0; i < 3; i++)
         REQUIRE( fabs( field( got.substr( 31 + i * 13, 13), "velocity") - e.vel[i] * e.unit) < 6e-8, "velocity component %d is %s, expected %.7f", i, got.substr( 31 + i * 13, 13).c_str( ), e.vel[i] * e.unit);
      }
   else if( want == "\3")
      {
      REQUIRE( got.size( ) == 80 && got[14] == (e.satellite ? 's' : 'v') && got.substr( 0, 12) == rec.substr( 0, 12) && got.substr( 15, 17) == rec.substr( 15, 17) && got.substr( 77) == rec.substr( 77), "second line %s doesn't match the first", pbt::quoted( got).c_str( ));
      REQUIRE( got[32] == (e.unit == 1. ? '1' : '2'), "units are '%c'", got[32]);
      if( e.satellite)
         for( int i = 0; i < 3; i++)
            {
            const std::string s = got.substr( 34 + i * 12 + 1, 10);
            const char sg = got[34 + i * 12];
            const double v = field( s, "offset");
            const double a = fabs( e.pos[i]);
            const int need = std::min( e.dec[i], e.unit == 1. ? (a < 99999.5 ? 4 : a < 999999.5 ? 3 : 2) : a < 9.9999999 ? 8 : 7);
            REQUIRE( sg == '+' || sg == '-', "offset %d has sign '%c': %s", i, sg, pbt::quoted( got).c_str( ));
            REQUIRE( decimals( s) >= need, "offset %d, %s, lost digits (of %.9f)", i, s.c_str( ), e.pos[i]);
            REQUIRE( fabs( (sg == '-' ? -v : v) - e.pos[i]) < 1.0001 * pow( 10., -decimals( s)) + 1e-12, "offset %d is %c%s, expected %.9f", i, sg, s.c_str( ), e.pos[i]);
            }
      else
         {
         const std::string lo = got.substr( 34, 10), la = got.substr( 46, 9), al = got.substr( 55, 6);
         REQUIRE( fabs( field( lo, "longitude") - e.pos[0]) < 1e-9, "longitude is %s, expected %.6f", lo.c_str( ), e.pos[0]);
         REQUIRE( (got[45] == '+' || got[45] == '-') && fabs( field( la, "latitude") * (got[45] == '-' ? -1 : 1) - e.pos[1]) < 1e-9, "latitude is %c%s, expected %.6f", got[45], la.c_str( ), e.pos[1]);
         REQUIRE( fabs( field( al, "altitude") - e.pos[2]) < 1e-9, "altitude is %s, expected %.1f", al.c_str( ), e.pos[2]);
         }
      const std::string c = got.substr( 69, 8);
      if( e.ctr != 399) REQUIRE( field( c, "center") == e.ctr, "center is %s, expected %d", c.c_str( ), e.ctr);
      }
   else if( tm != std::string::npos)
      {
      REQUIRE( got.size( ) > tm && got.substr( 0, tm) == want.substr( 0, tm), "line is %s, expected %s", pbt::quoted( got).c_str( ), pbt::quoted( want).c_str( ));
      REQUIRE( fabsl( field( got.substr( tm), "time") - e.t2k) < 2e-11L + fabsl( e.t2k) * 1.2e-16L, "time is %s, expected %.15Lf", got.substr( tm).c_str( ), e.t2k);
      }
   else
      REQUIRE( got == want, "line is\n   %s, expected\n   %s", pbt::quoted( got).c_str( ), pbt::quoted( want).c_str( ));
}
struct doc { std::string text; std::vector<std::pair<int, std::string>> want; std::vector<expect> obs; };       /* (index into obs or -1,  text) */

static std::string eol;
static void plain( doc &o, const std::string &s) { o.text += s + eol; o.want.push_back( { -1, s }); }
static void observe( doc &o, const fields &f, bool ia)
{
   o.obs.push_back( model( f, ia));
   for( auto &l : o.obs.back( ).exact) o.want.push_back( { (int)o.obs.size( ) - 1, l });
}
static std::string pad( Draw &d) { return( d.rare( 3) ? std::string( 1 + d.raw( 3), ' ') : ""); }
static void header( Draw &d, doc &o, bool xml)
{
   static const struct { const char *cont, *tag, *out; } h[] = { { "observatory", "mpcCode", "COD " }, { "observatory", "name", "COM Observatory name " }, { "submitter", "name", "CON " },
            { "observers", "name", "OBS " }, { "measurers", "name", "MEA " }, { "comment", "line", "COM " } };
   std::string cont;
   for( int i = (int)d.raw( 5); i > 0; i--)
      {
      const auto &x = h[d.raw( 5)];
      std::string v = std::string( x.tag) == "mpcCode" ? pbt::strf( "%c%02d", "0123456789ABCFGTWZ"[d.raw( 17)], (int)d.raw( 99)) : pbt::strf( "J. Doe %d", (int)d.raw( 999)) + std::string( d.raw( 60), 'x');
      if( xml)
         {
         o.text += pbt::strf( "<%s>", x.cont) + (d.flip( ) ? eol : "") + pbt::strf( "<%s>", x.tag) + (d.rare( 4) ? eol : "") + pad( d) + v + pad( d) + (d.rare( 4) ? eol : "") + pbt::strf( "</%s>", x.tag) + (d.rare( 4) ? "" : eol) + pbt::strf( "</%s>", x.cont) + eol;
         }
      else
         {
         if( cont != x.cont) o.text += pbt::strf( "# %s", x.cont) + eol;
         cont = x.cont;
         o.text += pbt::strf( "! %s ", x.tag) + pad( d) + v + eol;
         }
      o.want.push_back( { -1, x.out + v });
      }
}
static std::string dump( const doc &o) { return( pbt::quoted( o.text)); }

static void psv( Draw &d, doc &o, bool ia, int n)
{
   if( d.flip( )) { plain( o, "# version=2017"); header( d, o, false); }
   std::vector<fields> v;
   std::vector<std::string> cols;
   for( int i = 0; i < n; i++)
      {
      v.push_back( gen_obs( d));
      if( !i) for( auto &x : v[0]) cols.push_back( x.first);
      }
               /* a block has one set of columns:  give each line the first's,  less some optional ones */
   std::string h;
   for( size_t c = 0; c < cols.size( ); c++) h += (c ? "|" : "") + pad( d) + cols[c] + pad( d);
   if( h[0] == ' ') h.erase( 0, h.find_first_not_of( ' '));
   o.text += h + eol;
   for( int i = 0; i < n; i++)
      {
      fields g;
      std::string line;
      for( size_t c = 0; c < cols.size( ); c++)
         {
         const std::string *p = get( v[i], cols[c].c_str( ));
         std::string val;
         if( p) val = *p;
               /* what must be there,  if its companions are */
         else if( !cols[c].compare( 0, 3, "pos") || !cols[c].compare( 0, 3, "vel") || cols[c] == "sys" || cols[c] == "ctr" || cols[c] == "rmsRA" || cols[c] == "rmsDec" || cols[c] == "notes" || cols[c] == "prog")
            val = *get( v[0], cols[c].c_str( ));
         g.push_back( { cols[c], val });
         }
               /* keep the position group that of the first observation,  all or nothing */
      const bool drop = i && d.flip( );
      for( auto &x : g)
         {
         const std::string &k = x.first;
         const bool grp = k == "sys" || k == "ctr" || !k.compare( 0, 3, "pos") || !k.compare( 0, 3, "vel");
         if( grp) x.second = drop ? "" : *get( v[0], k.c_str( ));
         }
      const bool no_rms = i && d.rare( 3), no_note = i && d.flip( );
      if( no_rms) for( auto &x : g) if( x.first == "rmsRA" || x.first == "rmsDec" || (x.first == "rmsCorr" && d.flip( ))) x.second = "";
      if( no_note) for( auto &x : g) if( x.first == "notes" || x.first == "prog") x.second = "";
      fields used;
      for( size_t c = 0; c < g.size( ); c++)
         {
         line += (c ? "|" : "") + pad( d) + g[c].second + pad( d);
         if( !g[c].second.empty( )) used.push_back( g[c]);
         }
      while( !line.empty( ) && line.back( ) == ' ') line.pop_back( );
      o.text += line + eol;
      observe( o, used, ia);
      }
   plain( o, d.flip( ) ? "----- end" : "COM Just a comment");
}
static void xml( Draw &d, doc &o, bool ia, int n)
{
   o.text += "<ades version=\"2017\">" + eol;
   o.text += "<obsBlock>" + eol;
   if( d.flip( )) { o.text += "<obsContext>" + eol; header( d, o, true); o.text += "</obsContext>" + eol; }
   o.text += "<obsData>" + eol;
   for( int i = 0; i < n; i++)
      {
      const fields f = gen_obs( d);
      const int layout = (int)d.raw( 2);
      std::string line = "<optical>";
      auto flush = [&]( ) { o.text += pad( d) + line + eol; line.clear( ); };
      for( auto &x : f)
         {
         const std::string t = "<" + x.first + ">" + pad( d) + x.second + pad( d) + "</" + x.first + ">";
         if( layout == 0 || (layout == 1 && d.flip( )) || line.size( ) + t.size( ) > 350) flush( );
         line += pad( d) + t;
         }
      if( layout != 2 || line.size( ) > 330) flush( );
      line += "</optical>";
      flush( );
      observe( o, f, ia);
      }
   o.text += "</obsData>" + eol + "</obsBlock>" + eol + "</ades>" + eol;
}
static void old( Draw &d, doc &o)
{
   std::string l = pbt::strf( "     K%02dA%02dB  C%d %02d %02d.%05d %02d %02d %02d.%02d -%02d %02d %02d.%d          %2d.%d V      F51", (int)d.raw( 30), (int)d.raw( 99), (int)d.ival( 2000, 2030), 1 + (int)d.raw( 11), 1 + (int)d.raw( 27), (int)d.raw( 99999),
               (int)d.raw( 23), (int)d.raw( 59), (int)d.raw( 59), (int)d.raw( 99), (int)d.raw( 89), (int)d.raw( 59), (int)d.raw( 59), (int)d.raw( 9), (int)d.ival( 10, 25), (int)d.raw( 9));
   if( d.flip( )) { plain( o, l); return; }
               /* Tholen's */
   const int a = (int)d.raw( 999), b = d.flip( ) ? a : (int)d.raw( 999);
   const int yr = (int)d.ival( 1925, 2030), cyc = (int)d.raw( 619);
   const std::string name = pbt::strf( "%d %cB%s", yr, "ABCDEFGH"[d.raw( 7)], cyc ? pbt::strf( "%d", cyc).c_str( ) : "");
   std::string tl = name + std::string( 12 - name.size( ), ' ') + l.substr( 12);
   o.text += tl + pbt::strf( " 0.%03d 0.%03d", a, b) + eol;
   o.want.push_back( { -1, a == b ? pbt::strf( "COM Sigmas 0.%03d", a) : pbt::strf( "COM Sigmas 0.%03dx0.%03d", a, b) });
   o.want.push_back( { -1, pbt::strf( "     %c%02d%c%c%dB", base62( yr / 100), yr % 100, name[5], base62( cyc / 10), cyc % 10) + l.substr( 12) });
}

PROP( documents, 25000, 10)
{
   doc o;
   const int e = (int)d.raw( 5);
   eol = e == 4 ? "\r" : e >= 2 ? "\r\n" : "\n";
   const bool ia = d.rare( 5);
   const int blocks = 1 + (int)d.raw( 3);
   for( int i = 0; i < blocks; i++)
      {
      const int n = 1 + (int)( d.flip( ) ? d.raw( 2) : d.raw( 7));
      switch( d.raw( 3))
         {
         case 0: psv( d, o, ia, n); break;
         case 1: xml( d, o, ia, n); break;
         case 2: for( int k = 0; k < n; k++) old( d, o); break;
         default: plain( o, d.flip( ) ? "COM Time system UTC" : "Some text | with, pipes"); break;
         }
      }
   d.note( "%s", dump( o).c_str( ));
   d.nontrivial( o.obs.size( ) > 1 || (o.obs.size( ) == 1 && o.obs[0].exact.size( ) > 1));
   FILE *f = fmemopen( (void *)o.text.data( ), o.text.size( ), "rb");
   void *ctx = init_ades2mpc( );
   struct tidy { FILE *f; void *c; ~tidy( ) { fclose( f); if( c) free_ades2mpc_context( c); } } t{ f, ctx };
   extern void ades_artsat_desigs( void *ades_context, const bool ignore_artsat_desigs);
   if( ia) ades_artsat_desigs( ctx, true);
   const size_t sz = 1500;
   std::unique_ptr<char[]> buff( new char[sz]);
   std::vector<std::string> got;
   int rv;
   while( got.size( ) < o.want.size( ) + 20 && (rv = fgets_with_ades_xlation( buff.get( ), sz, ctx, f)) != 0)
      {
      REQUIRE( rv > 0, "line %d: returned %d", (int)got.size( ), rv);
      got.push_back( buff.get( ));
      }
   const bool has_depth = true;
   for( size_t i = 0; i < o.want.size( ); i++)
      {
      REQUIRE( i < got.size( ), "only %d lines, expected %d (%s next)", (int)got.size( ), (int)o.want.size( ), pbt::quoted( o.want[i].second).c_str( ));
      const int k = o.want[i].first;
      std::string g = got[i], w = o.want[i].second;
      while( !g.empty( ) && g.back( ) == ' ') g.pop_back( );
      while( !w.empty( ) && w.back( ) == ' ') w.pop_back( );
      if( k < 0) { REQUIRE( g == w, "line %d is %s, expected %s", (int)i, pbt::quoted( g).c_str( ), pbt::quoted( w).c_str( )); continue; }
      const expect &ex = o.obs[k];
      std::string rec;
      for( auto &x : ex.exact) if( x.size( ) == 80) rec = x;
      match( ex, w, w == "\3" ? got[i] : g, rec);
      if( w.size( ) == 80)
         {
         const double jd = extract_date_from_mpc_report( got[i].c_str( ), NULL);
         const int nd = (int)strlen( got[i].substr( 15, 17).c_str( ));
         (void)nd;
         REQUIRE( ex.t2k > 36525.5L || fabsl( (ld)jd - 2451545.L - ex.t2k) < 2e-8L, "date reads as JD %.8f, expected %.8Lf", jd, ex.t2k + 2451545.L);
         }
      }
   REQUIRE( got.size( ) == o.want.size( ), "%d lines, expected %d; extra: %s", (int)got.size( ), (int)o.want.size( ), pbt::quoted( got[o.want.size( )]).c_str( ));
   (void)has_depth;
   t.c = NULL;
   REQUIRE( free_ades2mpc_context( ctx) == 0, "tags left open at the end");
}

static sigjmp_buf armed_jump;
static bool armed = false;
extern "C" void __assert_fail( const char *expr, const char *file, unsigned line, const char *func) throw( )
{
   if( armed) { armed = false; siglongjmp( armed_jump, 1); }
   fprintf( stderr, "%s:%u: %s: Assertion '%s' failed\n", file, line, func, expr);
   abort( );
}

               /* snprintf_err( ) and kin end the program when a buffer would overflow;  so be it */
extern "C" void exit( int code) throw( )
{
   if( armed) { armed = false; siglongjmp( armed_jump, 1); }
   fflush( NULL);
   _exit( code);
}

PROP( damaged, 60000, 10)
{
   std::string text;
   eol = "\n";
   if( d.flip( ))
      {
      static const char *bits[] = { "<ades version=\"2017\">", "</ades>", "<optical>", "</optical>", "<ra>", "</ra>", "12.5", "<", ">", "</", "<foo>", "</foo>", "\n", "\n", " ", "<obsBlock>", "</obsBlock>", "<mag>18.2</mag>", "permID|ra|dec|obsTime", "1|2.0|3.0|2020-01-01T00:00:00Z", "|", "# observatory", "! mpcCode 703", "<stn>703</stn>", "<>", "</>" };
      for( int i = (int)d.raw( 60); i >= 0; i--) text += d.rare( 10) ? std::string( 1, (char)d.ival( 1, 255)) : std::string( bits[d.raw( 25)]);
      if( d.rare( 5)) for( int i = 0; i < 30; i++) text += "<obsBlock>" + std::string( d.flip( ) ? "\n" : "");
      }
   else
      {
      doc o;
      if( d.flip( )) psv( d, o, false, 2);
      else xml( d, o, false, 2);
      text = o.text;
      for( int i = (int)d.raw( 4); i >= 0 && !text.empty( ); i--)
         {
         const size_t p = d.raw( text.size( ) - 1);
         switch( d.raw( 3))
            {
            case 0: text.erase( p, 1 + d.raw( 20)); break;
            case 1: text[p] = (char)d.ival( 1, 255); break;
            case 2: text.insert( p, text.substr( d.raw( text.size( ) - 1), d.raw( 60))); break;
            default: text.insert( p, std::string( 1, "<>|/ \n.-0\200"[d.raw( 9)])); break;
            }
         }
      }
   if( text.empty( )) return;
   d.note( "%s", pbt::quoted( text).c_str( ));
   d.nontrivial( true);
   FILE *f = fmemopen( (void *)text.data( ), text.size( ), "rb");
   const size_t sz = 1500;
   char *buff = new char[sz];
   void *ctx = init_ades2mpc( );
   static volatile int n;
   n = 0;
   armed = true;
   FILE *volatile saved = stderr;
   stderr = fopen( "/dev/null", "w");
   if( !sigsetjmp( armed_jump, 0))
      {
      while( n < 2000 && fgets_with_ades_xlation( buff, sz, ctx, f)) n = n + 1;
      armed = false;
      free_ades2mpc_context( ctx);
      }
   fclose( stderr);
   stderr = saved;
   delete [] buff;
   fclose( f);
   REQUIRE( n < 2000, "output never ends");
}
