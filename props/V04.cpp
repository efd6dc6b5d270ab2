// flavor: plain
// extra: riseset3.cpp lun_tran.cpp tables.cpp:-Dmain=tables_main phases.cpp:-Dmain=phases_main
/* Rising,  setting and transit of the sun and moon;  phases and seasons */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "watdefs.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "riseset3.h"
#include "pbt.h"
#include "vsopsolar.h"
using pbt::Draw;

double get_lunar_transit_time( const int year, const int month, const int day, const double latitude, const double longitude,
   const int time_zone, const int dst, const int real_transit);
void format_hh_mm( char *buff, const double time);
int get_zip_code_data( const int zip_code, double *latitude, double *longitude, int *time_zone, int *use_dst, char *place_name);
int tables_main( int argc, char **argv);
int phases_main( const int argc, const char **argv);

PROPERTY( "V04", "instants from -1000 to 4000, observers from pole to pole (poles, polar circles, tropics and equator over-weighted), intervals of minutes to hours, sun and moon, from a vsop.bin with Meeus's theory of the moon and the main terms of the earth's; calendar days with time zones and daylight time; years and months of the table programs; non-trivial = the sun or moon crosses the rise/set altitude (rise_set), the moon culminates within the day (transit)",
   "Reference: vectors in long double from the ecliptic positions (V01, V02); the crossing by bisection on the reference's altitude, hour angles at the transit, and the US daylight time rules from a list of Sundays; tables and phase lists compared line by line with scans of the reference",
   "rise/set altitudes of -.83333 and +.125 degree as documented; a single crossing is required within the interval; atmospheric and topocentric effects beyond that aren't part of the code")

typedef long double ld;
static const ld pi = vg::pi, deg = vg::deg;

static void own_directory( )
{
   static pid_t pid = 0;
   static std::string top;
   if( pid == getpid( ))
      return;
   char cwd[600];
   if( top.empty( ) && getcwd( cwd, sizeof( cwd)))
      top = cwd;
   pid = getpid( );
   const std::string dir = top + pbt::strf( "/rise_%d", (int)pid);
   mkdir( dir.c_str( ), 0777);
   REQUIRE( !chdir( dir.c_str( )), "can't get a scratch directory");
   FILE *f = fopen( "vsop.bin", "wb");
   REQUIRE( f && fwrite( vsop( ), 1, vg::size, f) == vg::size && !fclose( f), "can't write vsop.bin");
}

struct Ref { ld ecl[3], equ[3], up, south, east, ra_minus_lst, lon, lat, r; };

static Ref reference( int planet, double jd, double lat, double lon)
{
   Ref p;
   const double t = (jd - 2451545.) / 36525.;
   if( planet == 10)
      {
      double fund[N_FUND], l, r;
      lunar_fundamentals( vsop( ), t, fund);
      lunar_lon_and_dist( vsop( ), fund, &l, &r, 0L);
      p.lon = l * deg;
      p.lat = lunar_lat( vsop( ), fund, 0L) * deg;
      p.r = r;
      }
   else
      {
      p.lon = calc_vsop_loc( vsop( ), planet, 0, t, 0.) + pi;
      p.lat = -calc_vsop_loc( vsop( ), planet, 1, t, 0.);
      p.r = calc_vsop_loc( vsop( ), planet, 2, t, 0.);
      }
   const ld eps = mean_obliquity( t), lst = (ld)green_sidereal_time( jd) + lon;
   p.ecl[0] = cosl( p.lon) * cosl( p.lat);
   p.ecl[1] = sinl( p.lon) * cosl( p.lat);
   p.ecl[2] = sinl( p.lat);
   p.equ[0] = p.ecl[0];
   p.equ[1] = p.ecl[1] * cosl( eps) - p.ecl[2] * sinl( eps);
   p.equ[2] = p.ecl[1] * sinl( eps) + p.ecl[2] * cosl( eps);
   const ld sl = sinl( (ld)lat), cl = cosl( (ld)lat), ct = cosl( lst), st = sinl( lst);
   p.up = p.equ[0] * cl * ct + p.equ[1] * cl * st + p.equ[2] * sl;
   p.south = p.equ[0] * sl * ct + p.equ[1] * sl * st - p.equ[2] * cl;
   p.east = -p.equ[0] * st + p.equ[1] * ct;
   p.ra_minus_lst = vg::wrap( atan2l( p.equ[1], p.equ[0]) - lst, 2 * pi);
   return( p);
}

static ld altitude( int planet, double jd, double lat, double lon) { return( asinl( reference( planet, jd, lat, lon).up)); }

static double draw_lat( Draw &d)
{
   switch( d.ival( 0, 7))
      {
      case 0: return( d.pick( std::vector<double>{ 0., 90., -90., 23.44, -23.44, 66.56, -66.56, 61.4, -61.4, 44.01 }));
      case 1: return( (d.flip( ) ? 1. : -1.) * d.real( 60., 90.));
      case 2: return( d.real( -30., 30.));
      default: return( d.real( -90., 90.));
      }
}

static double draw_jd( Draw &d)
{
   if( d.flip( ))
      return( (double)d.ival( 2451545 - 36525, 2451545 + 36525) + d.ival( 0, 23) / 24.);
   return( 2451545. + d.real( -1.1e6, 7.3e5));
}

PROP( positions, 600000, 20)
{
   const int planet = (d.flip( ) ? 10 : 3);
   const double jd = draw_jd( d), lat = draw_lat( d) * (double)deg, lon = d.real( -180., 360.) * (double)deg;
   PLANET_DATA p;
   d.note( "planet %d,  JD %.9f,  lat %.15g lon %.15g radians", planet, jd, lat, lon);
   fill_planet_data( &p, planet, jd, lat, lon, vsop( ));
   const Ref r = reference( planet, jd, lat, lon);
   const ld aa[3] = { r.south, r.east, r.up };
   REQUIRE( p.jd == jd && fabsl( p.r - r.r) < 1e-12 * r.r, "distance %.15g instead of %.15Lg", p.r, r.r);
   REQUIRE( fabsl( vg::wrap( p.ecliptic_lon - r.lon, 2 * pi)) < 1e-11 && fabsl( p.ecliptic_lat - r.lat) < 1e-12, "ecliptic position");
   for( int i = 0; i < 3; i++)
      {
      REQUIRE( fabsl( p.ecliptic_loc[i] - r.ecl[i]) < 1e-11, "ecliptic vector %d: %.15g instead of %.15Lg", i, p.ecliptic_loc[i], r.ecl[i]);
      REQUIRE( fabsl( p.equatorial_loc[i] - r.equ[i]) < 1e-11, "equatorial vector %d: %.15g instead of %.15Lg", i, p.equatorial_loc[i], r.equ[i]);
      REQUIRE( fabsl( p.altaz_loc[i] - aa[i]) < 1e-8, "horizontal vector %d: %.15g instead of %.15Lg", i, p.altaz_loc[i], aa[i]);
      }
   REQUIRE( fabsl( vg::wrap( p.hour_angle - r.ra_minus_lst, 2 * pi)) < 1e-8, "hour angle %.12f instead of %.12Lf", p.hour_angle, r.ra_minus_lst);
}

PROP( rise_set, 500000, 20)
{
   const int planet = (d.flip( ) ? 10 : 3);
   const double lat = draw_lat( d) * (double)deg, lon = d.real( -180., 180.) * (double)deg;
   double jd0 = draw_jd( d), len = (d.flip( ) ? 1. / 24. : d.real( .001, .12));
   const ld h0 = (planet == 10 ? .125L : -.83333L) * deg;
   if( d.rare( 3))         /* search the day for an interval with a crossing */
      {
      int i = 0;
      while( i < 24 && (altitude( planet, jd0, lat, lon) > h0) == (altitude( planet, jd0 + len, lat, lon) > h0))
         {
         jd0 += len;
         i++;
         }
      }
   const double jd1 = jd0 + len;
   d.note( "planet %d,  JD %.9f to %.9f,  lat %.15g lon %.15g radians", planet, jd0, jd1, lat, lon);
   int setting = 77;
   const double t = look_for_rise_set( planet, jd0, jd1, lat, lon, vsop( ), &setting);
   const ld a0 = altitude( planet, jd0, lat, lon) - h0, a1 = altitude( planet, jd1, lat, lon) - h0;
   if( fabsl( a0) < 1e-8 || fabsl( a1) < 1e-8)
      return;
   const int want = (a0 > 0. && a1 <= 0. ? 1 : a0 <= 0. && a1 > 0. ? 0 : -1);
   REQUIRE( setting == want, "reported as %d,  altitudes are %.9Lf and %.9Lf degrees from the limit", setting, a0 / deg, a1 / deg);
   d.nontrivial( want != -1);
   if( want == -1)
      return;
   d.cls( want ? "sets" : "rises");
   double lo = jd0, hi = jd1;
   for( int i = 0; i < 40; i++)
      {
      const double mid = (lo + hi) / 2.;
      ((altitude( planet, mid, lat, lon) - h0 > 0.) == (a0 > 0.) ? lo : hi) = mid;
      }
   int changes = 0;
   ld prev = a0;
   for( int i = 1; i <= 32; i++)
      {
      const ld a = altitude( planet, jd0 + len * i / 32., lat, lon) - h0;
      if( (a > 0.) != (prev > 0.))
         changes++;
      prev = a;
      }
   if( changes > 1)
      {
      d.cls( "several crossings");
      const ld a = altitude( planet, t, lat, lon) - h0;
      REQUIRE( t >= jd0 && t <= jd1 && fabsl( a) < 1e-4, "time %.9f,  where the altitude is %.6Lf degrees off", t, a / deg);
      }
   else
      REQUIRE( fabs( t - lo) < 5e-5 * len + 3e-9, "time %.9f instead of %.9f,  %.3f s off", t, lo, (t - lo) * 86400.);
}

         /* US rules:  first Sunday of April to last of October;  second of
            March to first of November from 2007 on */
static bool daylight_time( int year, long day)
{
   auto sunday = [&]( int month, int from)      /* first Sunday on or after */
      {
      long j = dmy_to_day( from, month, year, 0);
      while( (j + 1) % 7)
         j++;
      return( j);
      };
   const long start = (year <= 2006 ? sunday( 4, 1) : sunday( 3, 8)), end = (year <= 2006 ? sunday( 10, 25) : sunday( 11, 1));
   return( day >= start && day < end);
}

PROP( transit, 500000, 20)
{
   own_directory( );
   const int year = (int)(d.flip( ) ? d.ival( 1967, 2040) : d.ival( -900, 3900)), month = (int)d.ival( 1, 12), zone = (int)d.ival( -12, 14);
   const long first = dmy_to_day( 1, month, year, 0);
   const int n_days = (int)( dmy_to_day( 1, month % 12 + 1, year + month / 12, 0) - first);
   const int day = (int)d.ival( 1, n_days), dst = (year >= 1 ? (int)d.raw( 1) : 0), real_transit = (int)d.raw( 1);
   const double lat = draw_lat( d), lon = (d.flip( ) ? zone * 15. + d.real( -20., 20.) : d.real( -180., 180.));
   d.note( "%d-%02d-%02d,  lat %.9f lon %.9f degrees,  zone %d,  dst %d,  %s", year, month, day, lat, lon, zone, dst, real_transit ? "upper" : "lower");
   const double t = get_lunar_transit_time( year, month, day, lat, lon, zone, dst, real_transit);
   const long jd0 = first + day - 1;
   const double shift = (zone + (dst && daylight_time( year, jd0) ? 1 : 0)) / 24.;
   const double jd = (double)jd0 - .5 + t - shift;
   const Ref r = reference( 10, jd, lat * (double)deg, lon * (double)deg);
   const ld off = vg::wrap( r.ra_minus_lst + (real_transit ? 0. : pi), 2 * pi);
   REQUIRE( fabsl( off) < 2e-5, "day fraction %.6f (JD %.6f),  when the hour angle is %.4Lf degrees off", t, jd, off / deg);
   REQUIRE( t > -.05 && t < 1.05, "day fraction %.6f", t);
   d.nontrivial( t >= 0. && t < 1.);
   if( t < 0. || t >= 1.)
      {                    /* then there's none that day */
      d.cls( "none that day");
      const double other = t + (t < 0. ? 1. : -1.) * 29.53 / 28.53;
      REQUIRE( other < .01 || other > .99, "day fraction %.6f though there's one at about %.6f", t, other);
      }
   char buff[6];
   format_hh_mm( buff, t);
   if( t < 0. || t >= 1.)
      REQUIRE( !strcmp( buff, "--:--"), "'%s' for %.6f", buff, t);
   else
      REQUIRE( pbt::strf( "%02d:%02d", (int)( t * 1440.) / 60, (int)( t * 1440.) % 60) == buff, "'%s' for %.9f", buff, t);
}

struct Captured
{
   int saved;
   Captured( const char *name) { fflush( stdout); saved = dup( 1); const int f = open( name, O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2( f, 1); close( f); }
   ~Captured( ) { fflush( stdout); dup2( saved, 1); close( saved); }
};

static std::string slurp( const char *name)
{
   std::string s;
   FILE *f = fopen( name, "rb");
   if( f)
      {
      char buff[4096];
      size_t n;
      while( (n = fread( buff, 1, sizeof( buff), f)) > 0)
         s.append( buff, n);
      fclose( f);
      }
   return( s);
}

static std::vector<std::string> lines( const std::string &s)
{
   std::vector<std::string> v;
   for( size_t i = 0, j; i < s.size( ); i = j + 1)
      {
      j = s.find( '\n', i);
      if( j == std::string::npos)
         j = s.size( );
      v.push_back( s.substr( i, j - i));
      }
   return( v);
}

         /* the program 'tables':  sun,  moon,  phases and seasons for a month */
PROP( tables, 600, 10)
{
   own_directory( );
   const int year = (int)(d.flip( ) ? d.ival( 1900, 2100) : d.ival( -900, 3900)), month = (int)d.ival( 1, 12);
   d.note( "%d-%02d", year, month);
   d.nontrivial( true);
   std::string arg[3] = { "tables", pbt::strf( "%d", year), pbt::strf( "%d", month) };
   char *argv[4] = { &arg[0][0], &arg[1][0], &arg[2][0], NULL };
   int rval;
   {
   Captured c( "tables.txt");
   rval = tables_main( 3, argv);
   }
   const std::vector<std::string> text = lines( slurp( "tables.txt"));
   const long first = dmy_to_day( 1, month, year, 0);
   const int n_days = (int)( dmy_to_day( 1, month % 12 + 1, year + month / 12, 0) - first);
   REQUIRE( !rval && (int)text.size( ) == n_days + 2, "%d lines,  returned %d", (int)text.size( ), rval);
   const double lat = 44.01 * (double)deg, lon = -69.9 * (double)deg;
   for( int day = 0; day < n_days; day++)
      {
      const std::string &line = text[(size_t)day + 2];
      const double jd = (double)( first + day) - .5 + 5. / 24.;
      REQUIRE( line.size( ) >= 34, "line '%s'", line.c_str( ));
      if( (first + day) % 7 == 6)
         REQUIRE( line.substr( 0, 3) == "Su ", "line '%s' of a Sunday", line.c_str( ));
      else
         REQUIRE( line.substr( 0, 3) == pbt::strf( "%2d ", day + 1), "line '%s' of day %d", line.c_str( ), day + 1);
      for( int j = 0; j < 4; j++)
         {
         static const size_t cols[4] = { 4, 10, 17, 23 };
         const int planet = (j < 2 ? 3 : 10);
         const ld h0 = (planet == 10 ? .125L : -.83333L) * deg;
         const std::string field = line.substr( cols[j], 5);
         const bool shown = (field != "--:--");
         bool ok = false, any = false;
         double when = -9.;
         for( int i = 0; i < 24; i++)
            {
            double lo = jd + i / 24., hi = jd + (i + 1) / 24.;
            const bool up0 = altitude( planet, lo, lat, lon) > h0, up1 = altitude( planet, hi, lat, lon) > h0;
            if( up0 == up1 || up0 != (j & 1))
               continue;
            for( int k = 0; k < 30; k++)
               {
               const double mid = (lo + hi) / 2.;
               ((altitude( planet, mid, lat, lon) > h0) == up0 ? lo : hi) = mid;
               }
            any = true;
            when = (lo - jd) * 1440.;
            if( shown)
               {
               const double m = atoi( field.c_str( )) * 60. + atoi( field.c_str( ) + 3);
               ok |= (when > m - .02 && when < m + 1.02);
               }
            }
         if( when > .02 && when < 1439.98)
            REQUIRE( any == shown && (!shown || ok), "day %d: '%s' for the %s of the %s,  expected minute %.2f", day + 1, field.c_str( ), j & 1 ? "setting" : "rising", j < 2 ? "sun" : "moon", when);
         }
      auto quadrants = [&]( double at, ld *sun, ld *elong)
         {
         const Ref s = reference( 3, at, lat, lon), m = reference( 10, at, lat, lon);
         *sun = vg::wrap( s.lon - pi, 2 * pi) + pi;
         *elong = vg::wrap( m.lon - s.lon - pi, 2 * pi) + pi;
         };
      ld sun[2], elong[2];
      quadrants( jd, sun, elong);
      quadrants( jd + 1., sun + 1, elong + 1);
      std::string want;
      for( int k = 0; k < 4; k++)
         {
         const ld a = vg::wrap( elong[0] - (k + 1) * pi / 2, 2 * pi), b = vg::wrap( elong[1] - (k + 1) * pi / 2, 2 * pi);
         const ld s0 = vg::wrap( sun[0] - (k + 1) * pi / 2, 2 * pi), s1 = vg::wrap( sun[1] - (k + 1) * pi / 2, 2 * pi);
         static const char *phases[4] = { "1Q", "FM", "3Q", "NM" }, *seasons[4] = { "Summ Sol", "Autu Eq", "Wint Sol", "Vern Eq" };
         if( a < 0. && b >= 0. && b < 1. && want.empty( ))
            want = phases[k];
         if( s0 < 0. && s1 >= 0. && s1 < 1.)
            want = seasons[k];
         }
      std::string got = line.substr( 28);
      got.erase( 0, std::min( got.size( ), got.find_first_not_of( ' ')));
      got.erase( got.find_last_not_of( ' ') + 1);
      REQUIRE( got == want, "day %d: events '%s' instead of '%s'", day + 1, got.c_str( ), want.c_str( ));
      }
}

         /* the program 'phases' */
PROP( phases, 2500, 10)
{
   own_directory( );
   const double year0 = (d.flip( ) ? d.real( 1600., 2300.) : d.real( -900., 3900.)), years = d.real( .1, 2.);
   const bool data = d.flip( );
   const std::string args[5] = { "phases", pbt::strf( "%.4f", year0), pbt::strf( "-m%.4f", year0 + years), "-lphases.log", "-dphases.dat" };
   const char *argv[6] = { args[0].c_str( ), args[1].c_str( ), args[2].c_str( ), args[3].c_str( ), data ? args[4].c_str( ) : NULL, NULL };
   d.note( "phases %s %s", args[1].c_str( ), args[2].c_str( ));
   d.nontrivial( true);
   int rval;
   remove( "phases.log");
   {
   Captured c( "phases.txt");
   rval = phases_main( 4 + (int)data, argv);
   }
   REQUIRE( !rval, "returned %d", rval);
   const std::vector<std::string> text = lines( slurp( "phases.log"));
   const std::string bin = slurp( "phases.dat");
   REQUIRE( text.size( ) >= 4 && text.size( ) % 4 == 0, "%d lines", (int)text.size( ));
   if( data)
      REQUIRE( bin.size( ) == 4 * (1 + text.size( )), "%d bytes of data for %d events", (int)bin.size( ), (int)text.size( ));
   double prev = 0., k = 0.;
   for( size_t i = 0; i < text.size( ); i++)
      {
      static const char *names[4] = { "New moon : ", "1st qtr. : ", "Full moon: ", "last qtr.: " };
      REQUIRE( text[i].substr( 0, 11) == names[i % 4], "line '%s'", text[i].c_str( ));
      const double utc = get_time_from_string( 0., text[i].c_str( ) + 11, 0, NULL), td = utc + td_minus_utc( utc) / 86400.;
      const double t = (td - 2451545.) / 36525.;
      double fund[N_FUND], l, r;
      lunar_fundamentals( vsop( ), t, fund);
      lunar_lon_and_dist( vsop( ), fund, &l, &r, 0L);
      const ld lag = calc_vsop_loc( vsop( ), 3, 2, t, 0.) * AU_IN_KM / SPEED_OF_LIGHT / 86400. / 36525.;
      const ld sun = calc_vsop_loc( vsop( ), 3, 0, t - (double)lag, 0.) + pi;
      const ld off = vg::wrap( l * deg - sun - (ld)( i % 4) * pi / 2, 2 * pi);
      const ld secs = off / (2 * pi) * 29.53 * 86400.;
               /* in future centuries,  the half-yearly steps of UTC exceed a second,
               and the program looks them up under the TD date */
   REQUIRE( fabsl( secs) < (td > 2488070. ? 20. : 5.), "line '%s': about %.1Lf s off", text[i].c_str( ), secs);
      if( i)
         REQUIRE( utc - prev > 6. && utc - prev < 9., "line '%s' is %.2f days from the one before", text[i].c_str( ), utc - prev);
      else
         REQUIRE( fabs( (utc - 2451545.) / 365.25 - (year0 - 2000.)) < .2, "the first event,  '%s',  isn't near %.4f", text[i].c_str( ), year0);
      prev = utc;
      if( data)
         {
         int32_t v[2];
         memcpy( v, bin.data( ), 4);
         memcpy( v + 1, bin.data( ) + 4 + 4 * i, 4);
         k = v[0] + (double)i / 4.;
         const double mean = 2451550.09765 + 29.530588853 * k;
         REQUIRE( fabs( (td - mean) * 86400. - v[1]) < (td > 2488070. ? 15. : 2.), "line '%s': data file has %d s from the mean,  not %.1f", text[i].c_str( ), v[1], (td - mean) * 86400.);
         }
      }
   REQUIRE( (prev - 2451545.) / 365.25 + 2000. > year0 + years - .01, "stopped at '%s'", text.back( ).c_str( ));
}
