// flavor: plain
// extra: csv2ades.c:@csv2ades_main
// extra: xxx2rov.c:@xxx2rov_main
// extra: mpc_time.c:@mpc_time_main
/* Observation converters:  Gaia asteroid data to ADES,  (XXX) temporary-site    */
/* observations to roving ones,  and the time of submission in an ADES obsID     */
#include <cstdio>
#include <cmath>
#include <cstring>
#include "watdefs.h"
#include "afuncs.h"
#include "mpc_func.h"
#include "pbt.h"
#include "runprog.h"
using pbt::Draw;

extern "C" int csv2ades_main( int argc, const char **argv);
extern "C" int xxx2rov_main( int argc, const char **argv);
extern "C" int mpc_time_main( int argc, const char **argv);

PROPERTY( "Q04", "csv2ades: Gaia releases with or without photometry, 1 to 60 observations of 1 to 30 objects in the files their numbers call for, comments, decoys and numbers near the ends of the range asked for; xxx2rov: files of up to 40 lines of temporary-site lines in the layouts accepted, (XXX) and other observations and headers; mpc_time: all submission times from 1800 to 2440, counters of any length, invalid days, milliseconds, times of day and leap seconds; non-trivial = something is converted",
   "Every line of output is compared with one made from the observation drawn: vectors in km and km/s, UTC to the millisecond, errors in arcseconds; longitudes, latitudes and altitudes; the calendar date packed in base 62 by the test",
   "observation times are cut, not rounded, to the millisecond; the header is one line in front of the data, as in Gaia's files; altitudes from -900 to 9900 metres (the columns of the format)")

typedef long double ld;

static long jd0( long y, int m, int day)         /* noon-based JD of a Gregorian date */
{
   return( (1461 * (y + 4800 + (m - 14) / 12)) / 4 + (367 * (m - 2 - 12 * ((m - 14) / 12))) / 12 - (3 * ((y + 4900 + (m - 14) / 12) / 100)) / 4 + day - 32075);
}

static void from_jd( long jd, long &y, int &m, int &day)
{
   long l = jd + 68569, n = 4 * l / 146097;
   l -= (146097 * n + 3) / 4;
   long i = 4000 * (l + 1) / 1461001;
   l -= 1461 * i / 4 - 31;
   long j = 80 * l / 2447;
   day = (int)( l - 2447 * j / 80);
   l = j / 11;
   m = (int)( j + 2 - 12 * l);
   y = 100 * (n - 49) + i + l;
}

static double field( const std::string &line, const char *tag)
{
   const std::string start = pbt::strf( "    <%s>", tag), end = pbt::strf( "</%s>", tag);
   REQUIRE( line.compare( 0, start.size( ), start) == 0 && line.size( ) > start.size( ) + end.size( ) && line.compare( line.size( ) - end.size( ), std::string::npos, end) == 0,
               "'%s' where a <%s> field was expected", line.c_str( ), tag);
   const std::string text = line.substr( start.size( ), line.size( ) - start.size( ) - end.size( ));
   char *tail;
   const double rval = strtod( text.c_str( ), &tail);
   REQUIRE( !*tail, "'%s' in '%s' isn't a number", text.c_str( ), line.c_str( ));
   return( rval);
}

struct Gaia { long number; double epoch, ra, dec, sra, sdec, corr, mag, flux, sflux, x[6]; std::string line, mag_text; };

PROP( gaia, 4000, 12)
{
   rp::own_directory( "q04");
   rp::clean( );
   const bool photometry = d.flip( ), extra_columns = d.flip( );
   const long low = d.rare( 3) ? d.ival( 1, 30) : (long)d.logreal( 1., 800000.);
   const long high = low + (d.flip( ) ? 0 : d.flip( ) ? d.ival( 0, 5) : d.ival( 0, 30));
   static const char *columns = "epoch,epoch_err,epoch_utc,ra,dec,ra_error_systematic,dec_error_systematic,ra_dec_correlation_systematic,ra_error_random,dec_error_random,ra_dec_correlation_random,";
   const std::string head = std::string( "solution_id,source_id,") + (extra_columns ? "denomination,transit_id," : "") + "observation_id,number_mp," + columns + (photometry ? "g_mag,g_flux,g_flux_error," : "")
         + "x_gaia,y_gaia,z_gaia,vx_gaia,vy_gaia,vz_gaia,x_gaia_geocentric,y_gaia_geocentric,z_gaia_geocentric,vx_gaia_geocentric,vy_gaia_geocentric,vz_gaia_geocentric,position_angle_scan,level_of_confidence\n";
   std::vector<Gaia> files[20];
   const int n = (int)d.ival( 1, 60);
   for( int i = 0; i < n; i++)
      {
      Gaia g;
      g.number = d.rare( 4) ? (d.flip( ) ? low - d.ival( 1, 40) : high + d.ival( 1, 40)) : d.ival( low, high);
      if( g.number < 1) g.number = 1;
      g.epoch = d.real( 1600., 5000.);
      if( d.rare( 6)) g.epoch = floor( g.epoch) + d.real( -2., 2.) * 1e-8;
      g.ra = d.real( 0., 360.);
      g.dec = d.flip( ) ? d.real( -90., 90.) : d.real( -1., 1.);
      g.sra = d.logreal( .01, 3000.);
      g.sdec = d.logreal( .01, 3000.);
      g.corr = (d.rare( 4) ? d.logreal( 1e-7, 1.) : d.unit( )) * (d.flip( ) ? 1. : -1.);
      g.mag = d.real( 8., 21.);
      g.flux = d.logreal( 10., 1e7);
      g.sflux = g.flux * d.logreal( 1e-4, .3);
      for( int j = 0; j < 6; j++)
         g.x[j] = (j < 3 ? .0105 : .00021) * d.real( -1., 1.) * (d.rare( 5) ? .001 : 1.);
      g.mag_text = d.rare( 5) ? "null" : pbt::strf( "%.*f", (int)d.ival( 3, 6), g.mag);
      const char *fmt = d.flip( ) ? "%.16g" : "%.17g";       /* as Java's toString */
      auto num = [fmt]( double v) { return( pbt::strf( fmt, v) + ","); };
      std::string t = pbt::strf( "%ld,-%ld,", 3635000000000000L + i, 4284967000L + (long)d.raw( 9999));
      if( extra_columns)
         t += pbt::strf( "%s,%ld,", d.flip( ) ? "toutatis" : "\"\"", 17000000L + (long)d.raw( 99999));
      t += pbt::strf( "%ld,%ld,", 471019034175453810L + i, g.number) + num( g.epoch + 8e-4) + "1.2E-8," + num( g.epoch) + num( g.ra) + num( g.dec) + num( 5.1) + num( 7.3) + num( -.35);
      t += num( g.sra) + num( g.sdec) + (d.flip( ) ? pbt::strf( "%.9g,", g.corr) : fabs( g.corr) < 1e-3 ? pbt::strf( "%.8E,", g.corr) : pbt::strf( "%.8f,", g.corr));
      if( photometry)
         t += g.mag_text + "," + (g.mag_text == "null" ? "null,null," : num( g.flux) + num( g.sflux));
      for( int j = 0; j < 6; j++) t += num( (j < 3 ? .7 : .01) * sin( (double)( i * 6 + j)));
      for( int j = 0; j < 6; j++) t += num( g.x[j]);
      g.line = t + "150.76,\"(3,4)\"\n";
      REQUIRE( g.line.size( ) < 790, "harness: line too long");
      files[(g.number + 11) % 20].push_back( g);
      }
   for( int i = 0; i < 20; i++)
      {
      std::string s;
      for( int j = 0; j < 5 && d.flip( ); j++)
         s += "# %ECSV comment\n";
      s += head;
      for( const Gaia &g : files[i]) s += g.line;
      rp::write( pbt::strf( "SsoObservation_%02d.csv", i).c_str( ), s);
      }
   rp::write( "gaia.hdr", "<?xml version='1.0'?>\n<ades version='2022'>\n  <optical>\n*\n  </optical>\n</ades>\n");
   const std::string arg = high == low && d.flip( ) ? pbt::strf( "%ld", low) : pbt::strf( "%ld,%ld", low, high);
   int missing = -1;
   if( d.rare( 25))              /* a file asked for,  or not,  isn't there */
      {
      missing = (int)d.raw( 19);
      unlink( pbt::strf( "SsoObservation_%02d.csv", missing).c_str( ));
      }
   bool needed[20] = { false };
   for( long i = low; i <= high; i++) needed[(i + 11) % 20] = true;
   const rp::Result r = rp::run( csv2ades_main, { "csv2ades", arg })[0];
   d.note( "csv2ades %s, %d observations, %s photometry", arg.c_str( ), n, photometry ? "with" : "no");
   if( missing >= 0 && needed[missing])
      {
      REQUIRE( r.code == -2 && r.err.find( pbt::strf( "SsoObservation_%02d.csv", missing)) != std::string::npos, "exit code %d without file %d: %s", r.code, missing, r.err.c_str( ));
      d.cls( "missing file");
      return;
      }
   REQUIRE( !r.code && r.err.empty( ), "exit code %d: %s", r.code, r.err.c_str( ));
   const std::vector<std::string> out = rp::lines( r.out);
   size_t k = 0;
   static const std::string end;
   auto next = [&]( ) -> const std::string & { return( k < out.size( ) ? out[k++] : end); };
   REQUIRE( next( ) == "<?xml version='1.0'?>" && next( ) == "<ades version='2022'>" && next( ) == "  <optical>", "header lost");
   int n_shown = 0;
   for( int i = 0; i < 20; i++)
      for( const Gaia &g : files[i])
         if( g.number >= low && g.number <= high)
            {
            n_shown++;
            REQUIRE( next( ) == "   <optical>", "observation %d of %d starts with '%s'", n_shown, n, out[k - 1].c_str( ));
            REQUIRE( (long)field( next( ), "permID") == g.number, "'%s' for %s", out[k - 1].c_str( ), g.line.c_str( ));
            REQUIRE( next( ) == "    <mode>TDI</mode>" && next( ) == "    <stn>258</stn>" && next( ) == "    <sys>ICRF_KM</sys>" && next( ) == "    <ctr>399</ctr>", "'%s'", out[k - 1].c_str( ));
            for( int j = 0; j < 6; j++)
               {
               const double expect = j < 3 ? g.x[j] * 149597870.7 * (1. - 1.550519768e-8) : g.x[j] * 149597870.7 / 86400.;
               const double got = field( next( ), pbt::strf( "%s%d", j < 3 ? "pos" : "vel", j % 3 + 1).c_str( ));
               REQUIRE( fabs( got - expect) < (j < 3 ? 5.2e-5 : 5.2e-11), "'%s', should be %.11g: %s", out[k - 1].c_str( ), expect, g.line.c_str( ));
               }
            int y, m, day, hr, mn;
            double sec;
            char z;
            const std::string &time = next( );
            REQUIRE( time.size( ) == 13 + 24 + 10 && sscanf( time.c_str( ), "    <obsTime>%4d-%2d-%2dT%2d:%2d:%6lf%c</obsTime>", &y, &m, &day, &hr, &mn, &sec, &z) == 7 && z == 'Z', "'%s'", time.c_str( ));
            REQUIRE( hr < 24 && mn < 60 && sec < 60. && m >= 1 && m <= 12 && day >= 1 && day <= 31, "'%s'", time.c_str( ));
            const double diff = ((double)( jd0( y, m, day) - 2455198) - g.epoch) * 86400. + hr * 3600. + mn * 60. + sec;
            REQUIRE( diff > -.00105 && diff < .0006, "'%s' is off by %.5f seconds: %s", time.c_str( ), diff, g.line.c_str( ));
            REQUIRE( fabs( field( next( ), "ra") - g.ra) < 5.2e-10, "'%s': %s", out[k - 1].c_str( ), g.line.c_str( ));
            REQUIRE( fabs( field( next( ), "dec") - g.dec) < 5.2e-10, "'%s': %s", out[k - 1].c_str( ), g.line.c_str( ));
            REQUIRE( fabs( field( next( ), "rmsRA") - g.sra / 1000.) < 5.2e-6, "'%s': %s", out[k - 1].c_str( ), g.line.c_str( ));
            REQUIRE( fabs( field( next( ), "rmsDec") - g.sdec / 1000.) < 5.2e-6, "'%s': %s", out[k - 1].c_str( ), g.line.c_str( ));
            REQUIRE( fabs( field( next( ), "rmsCorr") - g.corr) < 2e-7, "'%s', should be %.9f: %s", out[k - 1].c_str( ), g.corr, g.line.c_str( ));
            REQUIRE( next( ) == "    <astCat>Gaia3</astCat>", "'%s'", out[k - 1].c_str( ));
            if( photometry && g.mag_text != "null")
               {
               REQUIRE( fabs( field( next( ), "mag") - g.mag) < 6e-4, "'%s': %s", out[k - 1].c_str( ), g.line.c_str( ));
               const double expect = 2.5 / log( 10.) * g.sflux / g.flux;
               REQUIRE( fabs( field( next( ), "rmsMag") - expect) < 5.1e-4 + expect * 1e-4, "'%s', should be %.5f: %s", out[k - 1].c_str( ), expect, g.line.c_str( ));
               REQUIRE( next( ) == "    <band>G</band>" && next( ) == "    <photCat>Gaia2</photCat>", "'%s'", out[k - 1].c_str( ));
               }
            REQUIRE( next( ) == "   </optical>", "'%s'", out[k - 1].c_str( ));
            }
   REQUIRE( next( ) == "  </optical>" && next( ) == "</ades>" && k == out.size( ), "after %d observations there is '%s'", n_shown, k ? out[k - 1].c_str( ) : "");
   d.nontrivial( n_shown > 0);
   d.cls( high - low >= 20 ? "all files" : high > low ? "some files" : "one file");
}

            /* ---- (XXX) to roving observer ---- */
static std::string angle_text( Draw &d, double v, double &exact, const char *pos_neg)
{
   const double a = fabs( v);
   std::string s;
   switch( d.raw( 2))
      {
      case 0:
         s = pbt::strf( "%.*f", (int)d.ival( 4, 8), a);
         exact = atof( s.c_str( ));
         break;
      case 1:
         {
         const int deg = (int)a;
         const std::string m = pbt::strf( "%.*f", (int)d.ival( 2, 5), (a - deg) * 59.98);
         s = pbt::strf( "%d ", deg) + m;
         exact = deg + atof( m.c_str( )) / 60.;
         break;
         }
      default:
         {
         const int deg = (int)a, min = (int)( (a - deg) * 60.);
         const std::string sec = pbt::strf( "%.*f", (int)d.ival( 0, 3), ((a - deg) * 60. - min) * 59.4);
         s = pbt::strf( "%d %d ", deg, min) + sec;
         exact = deg + min / 60. + atof( sec.c_str( )) / 3600.;
         }
      }
   if( v < 0.) exact = -exact;
   return( s + " " + pos_neg[v < 0.]);
}

PROP( roving, 30000, 12)
{
   rp::own_directory( "q04");
   rp::clean( );
   const char *eol = d.flip( ) ? "\n" : "\r\n";
   std::string in;
   const int n = (int)d.ival( 1, 40);
   double lon = 0., lat = 0., alt = 0.;
   bool have = false, bad = false;
   int n_conv = 0;
   struct Want { std::string line; int kind; double lon, lat, alt; };
   std::vector<Want> want;
   for( int i = 0; i < n && !bad; i++)
      {
      const int what = have ? (int)d.raw( 9) : 0;
      std::string l;
      Want w = { "", 0, 0., 0., 0. };
      if( !what)
         {
         const double x = d.flip( ) ? d.real( -180., 180.) : d.real( 0., 359.99), y = d.real( -89.99, 89.99);
         alt = (double)d.ival( -900, 9900) + (d.rare( 3) ? .1 * (double)d.ival( 0, 9) : 0.);
         l = std::string( "COM Long. ") + angle_text( d, x, lon, "EW") + ", Lat. ";
         l += angle_text( d, y, lat, "NS") + pbt::strf( ", Alt. %g%s", alt, d.flip( ) ? "m" : " m") + (d.flip( ) ? ", Google Earth" : ", GPS");
         if( lon < 0.) lon += 360.;
         have = true;
         if( d.rare( 40))
            {
            l = d.flip( ) ? "COM Long. 239 18 45 E, Lat. north, Alt. 100m" : "COM Long. east of here, Lat. 33 54 11 N, Alt. 100m";
            bad = true;
            }
         }
      else if( what == 1)
         l = "COD XXX", w.kind = 1;
      else if( what == 2)
         l = std::string( d.pick( std::vector<const char *>( { "COD 568", "OBS A. Observer", "COM some comment", "", "TEL 0.4-m f/3", "COM Lat. and long. below", "NET UCAC-4" })));
      else
         {
         const bool xxx = what > 4;
         long y;
         int m, day;
         from_jd( 2440000 + (long)d.raw( 20000), y, m, day);
         l = pbt::strf( "     K%02dA%02dA%c C%04ld %02d %08.5f ", (int)d.raw( 99), (int)d.raw( 99), d.rare( 4) ? '*' : ' ', y, m, day + d.unit( ) * .9999);
         l[13] = ' '; l[14] = "CBTP"[d.raw( 3)];
         l.resize( 32, ' ');
         l += pbt::strf( "%02d %02d %06.3f%c%02d %02d %05.2f", (int)d.raw( 23), (int)d.raw( 59), d.unit( ) * 59.99, "+-"[d.raw( 1)], (int)d.raw( 89), (int)d.raw( 59), d.unit( ) * 59.99);
         l.resize( 65, ' ');
         l += pbt::strf( "%4.1f %c", d.real( 3., 23.), "VRGC"[d.raw( 3)]);
         l.resize( 77, ' ');
         l += xxx ? "XXX" : d.flip( ) ? "568" : "247";
         w.kind = xxx ? 2 : 0;
         if( d.rare( 15))
            l += " trailing text", w.kind = 0;
         n_conv += w.kind == 2;
         }
      in += l + eol;
      w.line = l;
      w.lon = lon; w.lat = lat; w.alt = alt;
      if( !bad) want.push_back( w);
      }
   rp::write( "in.txt", in);
   const rp::Result r = rp::run( xxx2rov_main, { "xxx2rov", "in.txt" })[0];
   d.note( "%d lines, %d converted%s", n, n_conv, bad ? ", malformed" : "");
   d.nontrivial( n_conv > 0 || bad);
   REQUIRE( r.code == (bad ? -1 : 0), "exit code %d: %s", r.code, r.err.c_str( ));
   if( bad)
      {
      REQUIRE( r.err.find( "malformed") != std::string::npos, "%s", r.err.c_str( ));
      d.cls( "malformed");
      return;
      }
   size_t k = 0;
   const std::vector<std::string> out = rp::lines( r.out);
   for( const Want &w : want)
      {
      std::string expect = w.line + (eol[0] == '\r' ? "\r" : "");
      REQUIRE( k < out.size( ), "output ends before '%s'", w.line.c_str( ));
      if( w.kind == 1)
         expect.replace( 4, 3, "247");
      if( w.kind == 2)
         {
         expect.replace( 77, 3, "247");
         expect[14] = 'V';
         }
      REQUIRE( out[k] == expect, "'%s', should be '%s'", out[k].c_str( ), expect.c_str( ));
      k++;
      if( w.kind != 2)
         continue;
      REQUIRE( k < out.size( ), "no second line for '%s'", w.line.c_str( ));
      const std::string &s = out[k++];
      REQUIRE( s.size( ) == expect.size( ) && s.substr( 0, 14) == w.line.substr( 0, 14) && s[14] == 'v' && s.substr( 15, 17) == w.line.substr( 15, 17) && s.substr( 77, 3) == "247", "second line '%s' for '%s'", s.c_str( ), w.line.c_str( ));
      REQUIRE( s[32] == '1' && s[33] == ' ' && s[43] == ' ' && s[44] == ' ' && (s[45] == '+' || s[45] == '-' || s[45] == ' ') && s[55] == ' ' && s[61] == ' ', "columns of '%s'", s.c_str( ));
      double dlon = fabs( atof( s.substr( 34, 9).c_str( )) - w.lon);
      if( dlon > 180.) dlon = fabs( dlon - 360.);
      REQUIRE( dlon < 5.1e-6, "longitude %.7f in '%s'", w.lon, s.c_str( ));
      REQUIRE( fabs( atof( s.substr( 45, 10).c_str( )) - w.lat) < 5.1e-6, "latitude %.7f in '%s'", w.lat, s.c_str( ));
      REQUIRE( fabs( atof( s.substr( 56, 5).c_str( )) - w.alt) < .501, "altitude %.1f in '%s'", w.alt, s.c_str( ));
      }
   REQUIRE( k == out.size( ), "too much output: '%s'", out[k].c_str( ));
}

            /* ---- time of submission in an obsID ---- */
static std::string base62( long v, int n)
{
   std::string s( (size_t)n, '0');
   for( int i = n - 1; i >= 0; i--, v /= 62)
      s[(size_t)i] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[v % 62];
   return( s);
}

PROP( obs_id, 30000, 12)
{
   rp::own_directory( "q04");
   const long ymd = d.rare( 8) ? (d.flip( ) ? 0 : 238327 - (long)d.raw( 3)) : (long)d.raw( 238327);
   long sec = (long)d.raw( 86399), ms = (long)d.raw( 999);
   if( d.rare( 8)) sec = d.pick( std::vector<long>( { 0, 86399, 86400, 3599, 3600, 43199 }));
   if( d.rare( 20)) sec = d.ival( 86400, 238327);
   if( d.rare( 10)) ms = d.pick( std::vector<long>( { 0, 999, 1000, 3843 }));
   long y = ymd / 372 + 1800;
   int m = (int)( (ymd / 31) % 12 + 1), day = (int)( ymd % 31 + 1);
   long ymd2 = ymd;
   if( d.rare( 6))                  /* the ends of June and December,  and the last days of months */
      {
      m = d.flip( ) ? 6 : d.flip( ) ? 12 : m;
      day = m == 6 ? 30 : m == 12 ? 31 : (int)d.ival( 28, 31);
      if( y == 2440) y--;
      ymd2 = (y - 1800) * 372 + (m - 1) * 31 + (day - 1);
      if( d.flip( )) sec = 86400;
      }
   std::string id = base62( ymd2, 3) + base62( sec, 3) + base62( ms, 2);
   const int parts = (int)d.raw( 3);
   std::string counters[3];
   static const int len[3] = { 8, 2, 7 };
   for( int i = 0; i < parts; i++)
      {
      for( int j = 0; j < len[i]; j++) counters[i] += base62( (long)d.raw( 61), 1);
      id += counters[i];
      }
   if( d.rare( 40)) id = id.substr( 0, (size_t)d.raw( 7));
   d.note( "'%s'", id.c_str( ));
   const rp::Result r = rp::run( mpc_time_main, { "mpc_time", id })[0];
   if( id.size( ) < 8)
      {
      REQUIRE( r.code == -1 && r.out.find( "usage") != std::string::npos, "'%s' gave %d: %s", id.c_str( ), r.code, r.out.c_str( ));
      d.cls( "too short");
      return;
      }
   REQUIRE( !r.code && r.err.empty( ), "exit code %d: %s", r.code, r.err.c_str( ));
   const std::vector<std::string> out = rp::lines( r.out);
   size_t k = 0;
   const std::string text = pbt::strf( "%04ld-%02d-%02d %02ld:%02ld:%02ld.%03ld", y, m, day, sec / 3600, (sec / 60) % 60, sec % 60, ms);
   REQUIRE( !out.empty( ) && out[0].compare( 0, text.size( ) + 6, text + " = JD ") == 0, "'%s', should be %s", out.empty( ) ? "" : out[0].c_str( ), text.c_str( ));
   long y2;
   int m2, day2;
   from_jd( jd0( y, m, day), y2, m2, day2);
   const bool day_ok = (m2 == m && day2 == day);
   if( day_ok && sec < 86400 && ms < 1000)
      {
      const double jd = atof( out[0].c_str( ) + text.size( ) + 6), expect = (double)jd0( y, m, day) - .5 + ((double)sec + ms / 1000.) / 86400.;
      REQUIRE( fabs( jd - expect) < 5.2e-7, "'%s', should be %.6f", out[0].c_str( ), expect);
      }
   k++;
   static const char *what[3] = { "Submission counter: ", "Sub-batch number within main batch counter: ", "Observation number within the sub-batch: " };
   for( int i = 0; i < parts; i++, k++)
      REQUIRE( k < out.size( ) && out[k] == what[i] + counters[i] + " (mutant hex)", "'%s' for %s", k < out.size( ) ? out[k].c_str( ) : "", counters[i].c_str( ));
   int n_days = 28;
   for( int i = 29; i <= 31; i++)
      {
      from_jd( jd0( y, m, i), y2, m2, day2);
      if( m2 == m) n_days = i;
      }
   auto warned = [&]( const char *t) { return( r.out.find( t) != std::string::npos); };
   REQUIRE( warned( pbt::strf( "WARNING: There are only %d days in that month", n_days).c_str( )) == !day_ok && warned( "There are only") == !day_ok, "day %d of %d: %s", day, n_days, r.out.c_str( ));
   REQUIRE( warned( "WARNING: milliseconds") == (ms > 999), "%s", r.out.c_str( ));
   REQUIRE( warned( "WARNING: time of day is out of range") == (sec > 86400), "%s", r.out.c_str( ));
   const bool leap_day = (m == 6 || m == 12) && day == n_days;
   REQUIRE( warned( "WARNING: This is an invalid leap second") == (sec == 86400 && !leap_day), "%s", r.out.c_str( ));
   REQUIRE( warned( "WARNING: This is a leap second") == (sec == 86400 && leap_day), "%s", r.out.c_str( ));
   d.cls( !day_ok ? "no such day" : sec == 86400 ? "leap second" : sec > 86400 ? "time out of range" : ms > 999 ? "milliseconds out of range" : "valid");
}
