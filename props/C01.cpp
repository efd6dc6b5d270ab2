// flavor: plain
/* Western calendars:  Gregorian,  Julian,  mixed Julian/Gregorian. */
#include "watdefs.h"
#include "date.h"
#include "pbt.h"

PROPERTY( "C01", "day number or date drawn in -5.8e6..5.8e6 years; non-trivial = not inside 1900-2100 mid-month",
   "Model: Fliegel/Hinnant style era arithmetic for Gregorian, four-year cycle arithmetic for Julian, written independently",
   "64-bit long")

static long floordiv( long a, long b) { long q = a / b; return( (a % b && ((a < 0) != (b < 0))) ? q - 1 : q); }

      /* March-based era arithmetic */
static long model_greg( int d, int m, long y)
{
   y -= (m <= 2);
   const long era = floordiv( y, 400), yoe = y - era * 400;
   const long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   const long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return( era * 146097 + doe + 1721120);       /* 1 Mar 0 = JD 1721120 (noon) */
}

static long model_jul( int d, int m, long y)
{
   y -= (m <= 2);
   const long era = floordiv( y, 4), yoe = y - era * 4;
   const long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   return( era * 1461 + yoe * 365 + doy + 1721118);
}

static int model_mlen( int m, long y, bool julian)
{
   const bool leap = (floordiv( y, 4) * 4 == y) && (julian || floordiv( y, 100) * 100 != y || floordiv( y, 400) * 400 == y);
   static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   return( m == 2 && leap ? 29 : len[m - 1]);
}

static long gen_year( Draw &d)
{
   switch( d.raw( 9))
      {
      case 0: case 1: case 2: return( d.ival( -5000, 5000));
      case 3: return( d.ival( 1575, 1590));
      case 4: return( d.ival( -450, 450));
      case 5: return( d.ival( -60, 60) * 100 + d.ival( -1, 1));
      case 6: return( d.ival( -14000, 14000) * 400 + d.ival( -1, 1));
      case 7: return( d.ival( -100, 100) * 4 + d.ival( -1, 1));
      default: return( d.ival( -5800000, 5800000));
      }
}

static const int cals[3] = { CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_JULIAN_GREGORIAN };

static bool exists( int day, int mon, long yr, int cal, bool &jul)
{
   jul = (cal == CALENDAR_JULIAN);
   if( cal == CALENDAR_JULIAN_GREGORIAN)
      jul = (yr < 1582 || (yr == 1582 && (mon < 10 || (mon == 10 && day <= 4))));
   if( cal == CALENDAR_JULIAN_GREGORIAN && yr == 1582 && mon == 10 && day > 4 && day < 15)
      return( false);
   return( day >= 1 && day <= model_mlen( mon, yr, jul));
}

static void check_date( Draw &d, int day, int mon, long yr, int cal)
{
   bool jul;
   if( !exists( day, mon, yr, cal, jul))
      { d.nontrivial( false); return; }
   const long want = jul ? model_jul( day, mon, yr) : model_greg( day, mon, yr);
   const long got = dmy_to_day( day, mon, yr, cal);
   REQUIRE( got == want, "dmy_to_day gives %ld, the calendar's rules give %ld", got, want);
   int d2 = -99, m2 = -99;
   long y2 = -99;
   day_to_dmy( want, &d2, &m2, &y2, cal);
   REQUIRE( d2 == day && m2 == mon && y2 == yr, "day %ld converts to %ld/%d/%d", want, y2, m2, d2);
   if( !(cal == CALENDAR_JULIAN_GREGORIAN && yr == 1582 && mon == 10))
      {
      const int dim = days_in_month( mon, yr, cal);
      REQUIRE( dim == model_mlen( mon, yr, jul), "days_in_month gives %d", dim);
      }
}

PROP( date_to_day_and_back, 1500000, 40)
{
   const int cal = cals[d.raw( 2)];
   const long yr = gen_year( d);
   const int mon = (int)d.ival( 1, 12);
   int day;
   switch( d.raw( 3))
      {
      case 0: day = 1; break;
      case 1: day = (int)d.ival( 27, 31); break;
      default: day = (int)d.ival( 1, 31); break;
      }
   d.note( "calendar %d, %ld/%d/%d", cal, yr, mon, day);
   d.nontrivial( yr < 1900 || yr > 2100 || day == 1 || day > 27);
   d.cls( cal == CALENDAR_GREGORIAN ? "gregorian" : cal == CALENDAR_JULIAN ? "julian" : "mixed");
   d.cls( yr < 0 ? "negative year" : "non-negative year");
   check_date( d, day, mon, yr, cal);
}

PROP( consecutive_days, 800000, 40)
{
   const int cal = cals[d.raw( 2)];
   const long yr = gen_year( d);
   const long jd = d.rare( 6) ? 2299160 + d.ival( -40, 40) : model_greg( 1, 1, yr) + d.ival( -3, 366);
   int d1 = -99, m1 = -99, d2 = -99, m2 = -99;
   long y1 = -99, y2 = -99;
   day_to_dmy( jd, &d1, &m1, &y1, cal);
   day_to_dmy( jd + 1, &d2, &m2, &y2, cal);
   d.note( "calendar %d, day %ld = %ld/%d/%d, next is %ld/%d/%d", cal, jd, y1, m1, d1, y2, m2, d2);
   d.nontrivial( m1 != m2 || yr < 1900 || yr > 2100);
   d.cls( m1 != m2 ? "month boundary" : "within month");
   REQUIRE( m1 >= 1 && m1 <= 12 && m2 >= 1 && m2 <= 12, "bad month");
   bool jul;
   REQUIRE( exists( d1, m1, y1, cal, jul), "day number %ld maps to a date that does not exist", jd);
   int ed = d1 + 1, em = m1;
   long ey = y1;
   if( cal == CALENDAR_JULIAN_GREGORIAN && y1 == 1582 && m1 == 10 && d1 == 4)
      ed = 15;
   else if( d1 == model_mlen( m1, y1, jul))
      {
      ed = 1;
      if( ++em == 13)
         { em = 1; ey++; }
      }
   REQUIRE( ed == d2 && em == m2 && ey == y2, "successor of the date should be %ld/%d/%d", ey, em, ed);
   REQUIRE( dmy_to_day( d1, m1, y1, cal) == jd, "date converts back to %ld", dmy_to_day( d1, m1, y1, cal));
   const long lib_next = dmy_to_day( d2, m2, y2, cal);
   REQUIRE( lib_next == jd + 1, "next date converts to %ld", lib_next);
}

            /* every date of a whole year in sequence */
PROP( whole_year, 8000, 40)
{
   const int cal = cals[d.raw( 2)];
   const long yr = d.rare( 6) ? 1582 + d.ival( -1, 1) : gen_year( d);
   d.note( "calendar %d, all of year %ld", cal, yr);
   for( int mon = 1; mon <= 12; mon++)
      for( int day = 1; day <= 31; day++)
         check_date( d, day, mon, yr, cal);
   d.nontrivial( true);
}

            /* decimal dates:  whole + fractional parts are carried through */
PROP( decimal_days, 300000, 40)
{
   const int cal = cals[d.raw( 2)];
   const long yr = d.ival( -9999, 9999);
   const int mon = (int)d.ival( 1, 12);
   bool jul;
   const int day = (int)d.ival( 1, 31);
   if( !exists( day, mon, yr, cal, jul))
      { d.nontrivial( false); return; }
   const double frac = d.special( 0., .999999);
   const double jd = (double)( jul ? model_jul( day, mon, yr) : model_greg( day, mon, yr)) - .5 + frac;
   int m2 = -99;
   long y2 = -99;
   const double dd = decimal_day_to_dmy( jd, &y2, &m2, cal);
   d.note( "calendar %d, %ld/%d/%d + %.9f", cal, yr, mon, day, frac);
   REQUIRE( y2 == yr && m2 == mon && fabs( dd - day - frac) < 2e-9, "decimal_day_to_dmy gives %ld/%d/%.9f", y2, m2, dd);
}
