// flavor: plain
// extra: jd.cpp:@jd_main
/* The calendar and time converter 'jd' */
#include <cstdio>
#include <cmath>
#include <cstring>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "pbt.h"
#include "runprog.h"
using pbt::Draw;

extern "C" int jd_main( int argc, char **argv);

PROPERTY( "T07", "a date given as a Julian day, modified Julian day, or year, month and day (with a time or fraction of a day, month names in two orders) of any calendar, years -9000 to 12000; and arguments of up to 400 characters that mean nothing; non-trivial = all",
   "Gregorian and Julian dates, weekdays and days of the year from independent era arithmetic; the other calendars, TD-UT1 and TD-UTC as the library gives them (C01, C02, T04, T05); TAI and GPS differences from those by their fixed offsets; TDB-TDT from the main terms of Fairhead and Bretagnon",
   "the printed JD to 2e-8 day; 64-bit long")

static long floordiv( long a, long b) { long q = a / b; return( (a % b && ((a < 0) != (b < 0))) ? q - 1 : q); }

      /* day 0 is 1 March of year 0,  proleptic Gregorian */
static void civil( long jd, bool julian, int &day, int &mon, long &yr)
{
   if( julian)
      {
      const long n = jd - 1721118, cyc = floordiv( n, 1461), r = n - cyc * 1461, y = r == 1460 ? 3 : r / 365, doy = r - y * 365;
      const int mp = (int)( (5 * doy + 2) / 153);
      day = (int)( doy - (153 * mp + 2) / 5 + 1);
      mon = mp < 10 ? mp + 3 : mp - 9;
      yr = cyc * 4 + y + (mon <= 2);
      return;
      }
   const long n = jd - 1721120, era = floordiv( n, 146097), doe = n - era * 146097;
   const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
   const int mp = (int)( (5 * doy + 2) / 153);
   day = (int)( doy - (153 * mp + 2) / 5 + 1);
   mon = mp < 10 ? mp + 3 : mp - 9;
   yr = yoe + era * 400 + (mon <= 2);
}

static const char *months[12] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static const char *weekdays[7] = { "Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun" };

static std::vector<rp::Result> go( const std::vector<std::string> &args)
{
   return( rp::run( [&]( int argc, const char **argv) { return( jd_main( argc, (char **)argv)); }, args));
}

static void split( const std::string &s, std::vector<std::string> &args)
{
   for( size_t i = 0, j; i < s.size( ); i = j + 1)
      {
      j = s.find( ' ', i);
      if( j == std::string::npos) j = s.size( );
      args.push_back( s.substr( i, j - i));
      }
}

PROP( dates, 20000, 20)
{
   rp::own_directory( "jd");
   long day_no = d.rare( 4) ? 2299161 + d.ival( -400, 400) : d.rare( 3) ? d.ival( 2415021, 2488070) : d.ival( -1500000, 6100000);
   if( d.rare( 8))            /* the turn of February and March,  with centuries over-weighted */
      day_no = 1721120 + 146097 * d.ival( -22, 29) + (d.flip( ) ? 36524 * d.ival( 0, 4) : 365 * d.ival( 0, 400)) + d.ival( -1, 1);
   double frac = d.rare( 3) ? 0. : d.special( 0., .99999);      /* of the civil day */
   std::string text;
   std::vector<std::string> args = { "jd" };
   int cal = CALENDAR_JULIAN_GREGORIAN;
   long double want = (long double)day_no - .5L;
   double tol = 2e-8;
   const int form = (int)d.raw( 5);
   std::string time;
   if( form >= 2)
      {
      switch( d.raw( 3))
         {
         case 0: frac = 0.; break;
         case 1:
            {
            const int h = (int)d.ival( 0, 23), m = (int)d.ival( 0, 59), ms = (int)d.ival( 0, 59999);
            time = pbt::strf( "%02d:%02d:%06.3f", h, m, ms / 1000.);
            frac = (h * 3600. + m * 60. + ms / 1000.) / 86400.;
            break;
            }
         case 2:
            {
            const int h = (int)d.ival( 0, 23), m = (int)d.ival( 0, 59);
            time = pbt::strf( "%d:%02d", h, m);
            frac = (h * 60. + m) / 1440.;
            break;
            }
         default:
            frac = floor( frac * 1e+6) / 1e+6;
         }
      }
   if( form == 0)
      {
      if( day_no < 2000000 || day_no > 3000000)
         day_no = d.ival( 2000000, 2999999);
      text = pbt::strf( "%s%ld.%08ld", d.flip( ) ? "" : "JD ", (long)floor( day_no - .5 + frac), (long)( (day_no - .5 + frac - floor( day_no - .5 + frac)) * 1e+8));
      want = strtold( text.c_str( ) + (text[0] == 'J' ? 3 : 0), NULL);
      }
   else if( form == 1)
      {
      if( day_no < 2400001 || day_no > 2499999)
         day_no = d.ival( 2400001, 2499999);
      const std::string num = pbt::strf( "%.8f", day_no - 2400001 + frac);
      text = "MJD " + num;
      want = strtold( num.c_str( ), NULL) + 2400000.5L;
      }
   else
      {
      int dd, mm;
      long yy;
      if( form == 2 && d.rare( 2))
         {
         static const int cals[8] = { CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_HEBREW, CALENDAR_ISLAMIC, CALENDAR_REVOLUTIONARY, CALENDAR_PERSIAN, CALENDAR_CHINESE, CALENDAR_MODERN_PERSIAN };
         cal = cals[d.raw( 7)];
         day_no = d.ival( 2300000, 2500000);
         }
      day_to_dmy( day_no, &dd, &mm, &yy, cal);
      if( cal == CALENDAR_JULIAN_GREGORIAN || cal == CALENDAR_GREGORIAN || cal == CALENDAR_JULIAN)
         civil( day_no, cal == CALENDAR_JULIAN || (cal == CALENDAR_JULIAN_GREGORIAN && day_no < 2299161), dd, mm, yy);
      if( (yy > -100 && yy < 100)          /* taken to be of 1900s or 2000s */
            || (cal == CALENDAR_REVOLUTIONARY && mm == 13))       /* 13 is a month for the Hebrew and Chinese calendars only */
         {
         d.nontrivial( false);
         return;
         }
      if( cal != CALENDAR_JULIAN_GREGORIAN)
         args.push_back( pbt::strf( "-c%d", cal));
      std::string ds = pbt::strf( "%d", dd);
      if( time.empty( ) && frac > 0.)
         ds = pbt::strf( "%.6f", dd + frac);
      if( yy > 0 && form == 3 && frac == 0.)
         text = pbt::strf( "%ld-%s-%02d", yy, months[mm - 1], dd);
      else if( yy > 0 && form == 4 && (frac == 0. || !time.empty( )))
         text = pbt::strf( "%d %s %ld", dd, months[mm - 1], yy);
      else if( yy > 0 && form == 5)
         text = pbt::strf( "%ld %s %s", yy, months[mm - 1], ds.c_str( ));
      else
         text = pbt::strf( "%ld %d %s", yy, mm, ds.c_str( ));
      if( !time.empty( ))
         text += " " + time;
      want = (long double)day_no - .5L + (long double)frac;
      }
   const bool eop = d.rare( 10);
   if( eop)
      args.push_back( "-enone.dat");
   if( d.flip( ))
      args.push_back( text);
   else
      split( text, args);
   d.note( "%s", rp::join( args).c_str( ));
   d.cls( form == 0 ? "JD" : form == 1 ? "MJD" : cal != CALENDAR_JULIAN_GREGORIAN ? "another calendar" : time.empty( ) ? "date" : "date and time");
   d.nontrivial( true);
   const auto r = go( args);
   REQUIRE( !r[0].code && r[0].err.empty( ), "exit code %d, '%s'", r[0].code, r[0].err.c_str( ));
   std::vector<std::string> l = rp::lines( r[0].out);
   if( eop)
      {
      int err;
      REQUIRE( !l.empty( ) && sscanf( l[0].c_str( ), "Error %d loading EOPs", &err) == 1 && err < 0, "no warning that there is no file: '%s'", r[0].out.c_str( ));
      l.erase( l.begin( ));
      }
   REQUIRE( l.size( ) == 14, "%d lines:\n%s", (int)l.size( ), r[0].out.c_str( ));
   char wd[8], mon[8];
   long yr;
   int day, hh, mi, n = 0;
   double ss;
   long double shown;
   REQUIRE( sscanf( l[0].c_str( ), "%3s %ld %3s %d %d:%d:%lf = JD %Lf%n", wd, &yr, mon, &day, &hh, &mi, &ss, &shown, &n) == 8 && n == (int)l[0].size( ), "'%s'", l[0].c_str( ));
   REQUIRE( fabsl( shown - want) < tol, "'%s', expected JD %.8Lf", l[0].c_str( ), want);
               /* rounding may show midnight as the day before or after */
   const bool near = fabsl( want + .5L - floorl( want + .5L + .5L)) < 3e-10L;
   const long jd = (long)floorl( want + .5L + 1e-13L);
   bool matched = false;
   for( int k = near ? -1 : 0; k <= (near ? 1 : 0); k++)
      {
      int cd, cm;
      long cy;
      civil( jd + k, jd + k < 2299161, cd, cm, cy);
      const double secs = (double)( (want + .5L - jd - k) * 86400.L);
      if( cd == day && !strcmp( mon, months[cm - 1]) && cy == yr && fabs( hh * 3600. + mi * 60. + ss - secs) < 1e-4 && !strcmp( wd, weekdays[(jd + k + 7000000) % 7]))
         {
         matched = true;
         long doy0, y2;
         int d1, m1;
         double doy;
         for( doy0 = jd + k; ; doy0--)
            {
            civil( doy0, doy0 < 2299161, d1, m1, y2);
            if( d1 == 1 && m1 == 1) break;
            }
         REQUIRE( sscanf( l[1].c_str( ), "Day of year = %lf %ld", &doy, &y2) == 2, "'%s'", l[1].c_str( ));
         REQUIRE( (y2 == cy && fabs( doy - (double)( want + 1.5L - doy0)) < 1e-8) || near, "'%s', expected %.9Lf", l[1].c_str( ), want + 1.5L - doy0);
         }
      }
   REQUIRE( matched && ss < 60. && mi < 60 && hh < 24, "'%s', expected %.8Lf", l[0].c_str( ), want);
   if( near)            /* which day is a matter of the last bit */
      {
      d.cls( "midnight");
      if( !(frac == 0. && day_no == jd && form >= 2))
         return;
      }
   static const char *names[9] = { "Gregorian", "Julian", "Hebrew", "Islamic", "Revolutionary", "Persian (Jalali)", "Greg/Jul", "Chinese", "Modern Persian" };
   static const int ids[9] = { CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_HEBREW, CALENDAR_ISLAMIC, CALENDAR_REVOLUTIONARY, CALENDAR_PERSIAN, CALENDAR_JULIAN_GREGORIAN, CALENDAR_CHINESE, CALENDAR_MODERN_PERSIAN };
   for( int i = 0; i < 10; i++)
      {
      const std::string &s = l[2 + i];
      int cd, cm, leap = 0;
      long cy;
      if( i < 9)
         day_to_dmy( jd, &cd, &cm, &cy, ids[i]);
      if( i == 0 || i == 9)
         civil( jd, false, cd, cm, cy);
      if( i == 1)
         civil( jd, true, cd, cm, cy);
      if( i == 6)
         civil( jd, jd < 2299161, cd, cm, cy);
      if( i == 7 && get_chinese_intercalary_month( ) && cd > 0)
         {
         const int im = get_chinese_intercalary_month( );
         leap = (cm == im);
         if( cm >= im) cm--;
         }
      if( i == 7 && cd < 0)         /* not in the tables */
         continue;
      const std::string want_line = pbt::strf( "%-20s %4ld%3d%c%3d", i == 9 ? "New greg" : names[i], cy, cm, leap ? 'i' : ' ', cd);
      REQUIRE( s == want_line, "'%s' instead of '%s'", s.c_str( ), want_line.c_str( ));
      }
   double td_ut, td_utc, dut, tdb, tai, gps;
   REQUIRE( sscanf( l[12].c_str( ), "Delta-T = TD - UT1 = %lf; TD - UTC = %lf; UT1 - UTC = DUT1 = %lf", &td_ut, &td_utc, &dut) == 3, "'%s'", l[12].c_str( ));
   REQUIRE( sscanf( l[13].c_str( ), "TDB - TDT = %lf milliseconds   TAI-UTC = %lf    GPS-UTC = %lf", &tdb, &tai, &gps) == 3, "'%s'", l[13].c_str( ));
   const double J = (double)want;
   REQUIRE( fabs( td_ut - td_minus_ut( J)) < 1e-5, "TD-UT1 %.7f instead of %.7f", td_ut, td_minus_ut( J));
   const double u0 = td_minus_utc( J - 1e-8), u1 = td_minus_utc( J + 1e-8);
   REQUIRE( fabs( td_utc - u0) < 1e-5 || fabs( td_utc - u1) < 1e-5, "TD-UTC %.7f instead of %.7f", td_utc, u1);
   REQUIRE( fabs( dut - (td_utc - td_ut)) < 2.1e-7, "DUT1 of %.7f is not the difference of %.7f and %.7f", dut, td_utc, td_ut);
   REQUIRE( fabs( tai - (td_utc - 32.184)) < 6e-4 && fabs( gps - (tai - 19.)) < 1.1e-3, "TAI and GPS: '%s'", l[13].c_str( ));
   if( J > 2441317.5 && J < 2457753.)
      REQUIRE( fabs( tai - floor( tai + .5)) < 1e-9 && fabs( dut) < .92, "TAI-UTC of %.3f, UT1-UTC of %.4f", tai, dut);
   const double T = (J - 2451545.) / 36525., main_terms = 1.656675 * sin( 628.3075849991 * T + 6.240054195) + .022418 * sin( 575.3384884897 * T + 4.296977442) + .01384 * sin( 1256.6151699983 * T + 6.196904410) + .00477 * sin( 52.9690962641 * T + .444401603);
   REQUIRE( fabs( tdb - main_terms) < .02 + .0113 * fabs( T), "TDB-TDT of %.4f ms instead of %.4f", tdb, main_terms);
}

PROP( nonsense, 4000, 10)
{
   rp::own_directory( "jd");
   std::vector<std::string> args = { "jd" };
   const int n = (int)d.ival( 1, 6);
   for( int i = 0; i < n; i++)
      {
      const int len = (int)d.ival( 1, d.flip( ) ? 8 : 120);
      std::string s;
      for( int j = 0; j < len; j++)
         s += d.chr( d.flip( ) ? " 0123456789-+.:/" : "abcdefghijklmnopqrstuvwxyzABCDEFJMTUZ 0123456789.:-+,_");
      if( s.substr( 0, 2) == "-e" || s.substr( 0, 2) == "-c")
         s = "x" + s;
      args.push_back( s);
      }
   d.note( "%s", pbt::quoted( rp::join( args)).c_str( ));
   d.nontrivial( true);
   const auto r = go( args);
   REQUIRE( r[0].code == 0 || r[0].code == -1, "exit code %d, '%s'", r[0].code, r[0].err.c_str( ));
   REQUIRE( !r[0].out.empty( ) || !r[0].err.empty( ), "nothing was printed");
}
