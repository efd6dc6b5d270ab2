// flavor: plain
// extra: easter.cpp easter.cpp:-DTEST_CODE,@easter_main
/* Dates of Easter */
#include <cstdio>
#include "watdefs.h"
#include "date.h"
#include "pbt.h"
#include "runprog.h"

extern "C" int easter_main( int argc, char **argv);

void easter_date( const long year, int *month, int *day);
void easter_date_julian( const long year, int *month, int *day);

PROPERTY( "C03", "year drawn from 1583..10 million (Gregorian) or 1..10 million (Julian); every year is non-trivial",
   "Model: epact and golden number tables (Lilius/Clavius), then the first Sunday strictly after the paschal full moon")

      /* day of March (1 = 1 March) of the paschal full moon */
static int pfm_gregorian( long y)
{
   const long golden = y % 19 + 1, c = y / 100 + 1;
   const long x = 3 * c / 4 - 12, z = (8 * c + 5) / 25 - 5;
   long epact = (11 * golden + 20 + z - x) % 30;
   if( epact < 0) epact += 30;
   if( (epact == 25 && golden > 11) || epact == 24)
      epact++;
   long n = 44 - epact;
   if( n < 21) n += 30;
   return( (int)n);
}

static int pfm_julian( long y)
{           /* table of paschal full moons by golden number */
   static const int t[19] = { 36, 25, 44, 33, 22, 41, 30, 49, 38, 27, 46, 35, 24, 43, 32, 21, 40, 29, 48 };
   return( t[y % 19]);
}

static void check_year( long y, bool julian)
{
   int mon = 0, day = 0;
   if( julian)
      easter_date_julian( y, &mon, &day);
   else
      easter_date( y, &mon, &day);
   REQUIRE( (mon == 3 && day >= 22 && day <= 31) || (mon == 4 && day >= 1 && day <= 25), "Easter on %d/%d", mon, day);
   const int cal = julian ? CALENDAR_JULIAN : CALENDAR_GREGORIAN;
   const int full = julian ? pfm_julian( y) : pfm_gregorian( y);
   const long jd0 = dmy_to_day( 1, 3, y, cal) - 1;
   long jd = jd0 + full + 1;
   while( (jd + 1) % 7) jd++;             /* JD mod 7 == 6 is a Sunday */
   const long got = dmy_to_day( day, mon, y, cal);
   REQUIRE( got == jd, "Easter on day %ld (%d/%d), expected day %ld, the Sunday after the full moon on day %ld",
                     got, mon, day, jd, jd0 + full);
}

PROP( gregorian, 1500000, 30)
{
   const long y = d.flip( ) ? d.ival( 1583, 20000) : d.ival( 1583, 10000000);
   d.note( "Gregorian Easter in %ld", y);
   check_year( y, false);
}

PROP( julian, 1000000, 30)
{
   const long y = d.flip( ) ? d.ival( 1, 5000) : d.ival( 1, 10000000);
   d.note( "Julian Easter in %ld", y);
   check_year( y, true);
}

PROP( cycles, 300000, 30)
{
   const long y = d.ival( 1583, 100000);
   int m1 = 0, d1 = 0, m2 = 0, d2 = 0;
   d.note( "year %ld and one full cycle later", y);
   easter_date( y, &m1, &d1);
   easter_date( y + 5700000, &m2, &d2);
   REQUIRE( m1 == m2 && d1 == d2, "Gregorian Easter %d/%d, 5700000 years later %d/%d", m1, d1, m2, d2);
   easter_date_julian( y, &m1, &d1);
   easter_date_julian( y + 532, &m2, &d2);
   REQUIRE( m1 == m2 && d1 == d2, "Julian Easter %d/%d, 532 years later %d/%d", m1, d1, m2, d2);
}

static void model_easter( long y, bool julian, int &mon, int &day)
{
   const int cal = julian ? CALENDAR_JULIAN : CALENDAR_GREGORIAN;
   long jd = dmy_to_day( 1, 3, y, cal) + (julian ? pfm_julian( y) : pfm_gregorian( y)), dummy;
   while( (jd + 1) % 7) jd++;
   day_to_dmy( jd, &day, &mon, &dummy, cal);
}

         /* the lists of the program 'easter' */
PROP( program, 1500, 20)
{
   rp::own_directory( "easter");
   std::vector<std::string> args = { "easter" };
   const bool by_date = d.rare( 4);
   int mon = 0, day = 0;
   long y = 0;
   if( by_date)
      {
      mon = d.flip( ) ? 3 : 4;
      day = (int)(mon == 3 ? d.ival( 20, 31) : d.ival( 1, 27));
      args.push_back( pbt::strf( "%d", mon));
      args.push_back( pbt::strf( "%d", day));
      }
   else
      {
      y = d.rare( 4) ? d.ival( 1500, 1600) : d.ival( 1, 100000);
      args.push_back( pbt::strf( "%ld", y));
      }
   d.note( "%s", rp::join( args).c_str( ));
   const auto r = rp::run( [&]( int argc, const char **argv) { return( easter_main( argc, (char **)argv)); }, args);
   REQUIRE( !r[0].code, "exit code %d", r[0].code);
   std::string want;
   if( by_date)
      {
      int n = 0;
      for( long i = 1583; i < 10000; i++)
         {
         int m, dd;
         model_easter( i, false, m, dd);
         if( m == mon && dd == day)
            {
            want += pbt::strf( "%5ld", i);
            if( n++ % 15 == 14) want += "\n";
            }
         }
      want += pbt::strf( "\n%d found over 8417 years\n", n);
      }
   else
      for( int row = 0; row < 15; row++)
         for( int col = 0; col < 5; col++)
            {
            const long yr = y + col * 15 + row;
            int m, dd;
            model_easter( yr, yr < 1583, m, dd);
            want += pbt::strf( "%ld %s %2d%s", yr, m == 3 ? "Mar" : "Apr", dd, col == 4 ? "\n" : "    ");
            }
   REQUIRE( r[0].out == want, "the list is\n%s\ninstead of\n%s", r[0].out.c_str( ), want.c_str( ));
}
