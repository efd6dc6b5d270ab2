// flavor: plain
/* dates in 80-column observation records */
#include <cctype>
#include <cstdio>
#include "watdefs.h"
#include "mpc_func.h"
#include "pbt.h"

PROPERTY( "O01", "an instant and one of the documented column layouts are drawn, the record is built around them with arbitrary other columns, then perhaps damaged; non-trivial = all",
   "Calendar: Julian through 4 Oct 1582, Gregorian afterwards (independent day-number arithmetic)",
   "tolerance 1e-9 day: the resolution of a double near the current Julian Day is 4.7e-10 day")

static long floordiv( long a, long b) { return( a / b - ((a % b) < 0)); }

static long day_number( int y, int m, int d)       /* at noon */
{
   const bool greg = (y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 5))));
   const long yy = (m < 3 ? y - 1 : y), mm = (m + 9) % 12;
   const long doy = (153 * mm + 2) / 5 + d - 1;
   if( greg)
      {
      const long era = floordiv( yy, 400), yoe = yy - era * 400;
      return( era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy + 1721120);
      }
   return( yy * 365 + floordiv( yy, 4) + doy + 1721118);
}

static int mlen( int y, int m)
{
   static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   const bool leap = (y > 1582 ? (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) : y % 4 == 0);
   return( m == 2 && leap ? 29 : l[m - 1]);
}

static int gen_digits( Draw &d, int n, long *val)
{
   long p = 1;
   for( int i = 0; i < n; i++) p *= 10;
   switch( d.raw( 3))
      {
      case 0: *val = (d.flip( ) ? 0 : p - 1); break;
      default: *val = d.ival( 0, p - 1); break;
      }
   return( 0);
}

struct Rec { std::string date; long day; double frac; unsigned fmt; };      /* day = JD at preceding 0h (JD - .5) */

static Rec gen( Draw &d)
{
   Rec r;
   const int kind = (int)d.raw( 5);
   int y;
   switch( kind)
      {
      case 0: y = d.flip( ) ? (int)d.ival( 1, 9999) : (int)d.ival( 1500, 2100); break;
      default: y = (int)d.ival( 1700, 2099); break;
      }
   if( d.rare( 10) && kind == 0) y = 1582;
   int m = 1 + (int)d.raw( 11), dd = d.rare( 3) ? mlen( y, m) : 1 + (int)d.raw( (uint64_t)mlen( y, m) - 1);
   if( y == 1582 && m == 10 && dd > 4 && dd < 15) dd = 15;
   const long dn = day_number( y, m, dd);
   r.day = dn;
   long v;
   switch( kind)
      {
      case 0:                          /* YYYY MM DD.dddddd */
         {
         const int n = (int)d.raw( 6);
         gen_digits( d, n, &v);
         r.date = d.rare( 4) ? pbt::strf( "%04d %2d %2d.", y, m, dd) :
                  d.rare( 8) ? pbt::strf( "%04d %2d %02d.", y, m, dd) :
                  d.rare( 8) ? pbt::strf( "%04d %02d %2d.", y, m, dd) : pbt::strf( "%04d %02d %02d.", y, m, dd);
         if( n) r.date += pbt::strf( "%0*ld", n, v);
         r.fmt = (unsigned)n;
         r.frac = (double)v / pow( 10., n);
         if( !n) r.frac = 0.;
         d.cls( "calendar");
         break;
         }
      case 1:                          /* CYYMMDD.ddd */
         {
         const int n = 2 + (int)d.raw( 7);
         gen_digits( d, n, &v);
         r.date = pbt::strf( "%c%02d%02d%02d.%0*ld", 'A' + y / 100 - 10, y % 100, m, dd, n, v);
         r.fmt = 30 + (unsigned)n;
         r.frac = (double)v / pow( 10., n);
         d.cls( "CYYMMDD.ddd");
         break;
         }
      case 2:                          /* CYYMMDD:HHMMSSsss */
         {
         const int n = (int)d.raw( 3), h = (int)d.raw( 23), mi = (int)d.raw( 59), s = (int)d.raw( 59);
         gen_digits( d, n, &v);
         r.date = pbt::strf( "%c%02d%02d%02d:%02d%02d%02d", 'A' + y / 100 - 10, y % 100, m, dd, h, mi, s);
         if( n) r.date += pbt::strf( "%0*ld", n, v); else v = 0;
         r.fmt = 20 + (unsigned)n;
         r.frac = (h * 3600. + mi * 60. + s + (double)v / pow( 10., n)) / 86400.;
         d.cls( "CYYMMDD:HHMMSS");
         break;
         }
      case 3:
         {
         const int h = (int)d.raw( 23), mi = (int)d.raw( 59);
         r.date = pbt::strf( "%c%02d%02d%02d:%02d%02d", 'A' + y / 100 - 10, y % 100, m, dd, h, mi);
         r.fmt = 50;
         r.frac = (h * 3600. + mi * 60.) / 86400.;
         d.cls( "CYYMMDD:HHMM");
         break;
         }
      case 4:                          /* MJD */
         {
         const int n = 2 + (int)d.raw( 7);
         gen_digits( d, n, &v);
         const long mjd = d.rare( 4) ? d.ival( 0, 199999) : dn - 2400001;
         const long use = mjd < 0 ? -mjd : mjd;
         r.day = use + 2400001;
         r.date = pbt::strf( "M%06ld.%0*ld", use, n, v);
         r.fmt = 40 + (unsigned)n;
         r.frac = (double)v / pow( 10., n);
         d.cls( "MJD");
         break;
         }
      default:                         /* JD */
         {
         const int n = 2 + (int)d.raw( 7);
         gen_digits( d, n, &v);
         const long jd = d.rare( 4) ? d.ival( 1000000, 5999999) : dn;
         r.day = jd;
         r.date = pbt::strf( "%07ld.%0*ld", jd, n, v);
         r.fmt = 10 + (unsigned)n;
         r.frac = .5 + (double)v / pow( 10., n);
         d.cls( "JD");
         break;
         }
      }
   return( r);
}

static const char *filler = " 0123456789.+-ABCDEFGHJKVNRabcr*";

static std::string gen_line( Draw &d, const Rec &r)
{
   std::string l;
   for( int i = 0; i < 80; i++) l += d.rare( 3) ? d.chr( filler) : ' ';
   l[12] = d.chr( "  *-");
   l[13] = d.chr( " Kt");
   l[14] = d.chr( "CPASsVvnX ");
   std::string dt = r.date;
   dt.resize( 17, ' ');
   for( int i = 0; i < 17; i++) l[15 + (size_t)i] = dt[(size_t)i];
   for( int i = 77; i < 80; i++) l[(size_t)i] = d.chr( "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ");
   if( d.rare( 4)) l += d.flip( ) ? "\n" : "\r\n";
   return( l);
}

PROP( dates, 1500000, 30)
{
   const Rec r = gen( d);
   std::string l = gen_line( d, r);
   const bool radar = d.rare( 6);
   if( radar) l[14] = d.chr( "Rr");
   unsigned fmt = 9999;
   const double want = (double)r.day - .5 + r.frac;
   d.note( "'%s'%s = JD %.9f", r.date.c_str( ), radar ? " (radar)" : "", want);
   const double got = extract_date_from_mpc_report( l.c_str( ), &fmt);
   REQUIRE( fmt == r.fmt, "format %u, expected %u", fmt, r.fmt);
   if( radar)
      {
      const double sec = r.frac * 86400.;
      const double lo = floor( sec + .5 - 1e-4), hi = floor( sec + .5 + 1e-4);
      const double g = (got - ((double)r.day - .5)) * 86400.;
      REQUIRE( fabs( g - lo) < 1e-4 || fabs( g - hi) < 1e-4, "radar time %.6f s, expected %.0f s after 0h", g, lo);
      }
   else
      {
      REQUIRE( fabs( got - want) < 1e-9, "got %.9f", got);
      REQUIRE( extract_date_from_mpc_report( l.c_str( ), NULL) == got, "depends on the format being asked for");
      }
}

            /* records that are not observations give zero */
PROP( damaged, 700000, 30)
{
   const Rec r = gen( d);
   std::string l = gen_line( d, r);
   const char *what = "";
   if( l.size( ) > 80) l.resize( 80);
   switch( d.raw( 4))
      {
      case 0: l.resize( d.raw( 79)); what = "short"; break;
      case 1: l += d.str( " ab1", 3, 30); what = "long"; break;
      case 2: l[12] = d.chr( "0123456789ABCZabz+./"); what = "column 13"; break;
      case 3: l[77 + (size_t)d.raw( 2)] = d.chr( " {}~\t\n"); what = "station code"; break;
      default:
         {                 /* a required digit or point of the date field */
         size_t k;
         if( r.fmt < 10)
            { const size_t pos[] = { 0, 1, 2, 3, 6, 7, 9, 10 }; k = pos[d.raw( 7)]; }
         else
            { const size_t pos[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }; k = pos[d.raw( 8)]; }
         l[15 + k] = d.chr( "x?/,_");
         what = "date field";
         break;
         }
      }
   d.cls( what);
   d.note( "%s: '%s'", what, l.c_str( ));
   const double got = extract_date_from_mpc_report( l.c_str( ), NULL);
   REQUIRE( got == 0., "accepted as JD %.6f", got);
}
