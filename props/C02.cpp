// flavor: plain
/* Hebrew, Islamic, Revolutionary, Persian (two flavours) and Chinese calendars */
#include "watdefs.h"
#include "date.h"
#include "pbt.h"

PROPERTY( "C02", "every case examines a whole calendar year or a date picked in one; all cases are non-trivial",
   "Hebrew: Dershowitz/Reingold molad formulation, years >= 1 (the code documents failure before year zero)",
   "Islamic: tabular civil calendar, 2,5,7,10,13,16,18,21,24,26,29 leap rule",
   "Revolutionary and Jalali years are tied to Meeus' mean equinoxes within 1.5 days; Chinese months to Meeus' new moons within 0.1 day",
   "Jalali years -1096..2327, Chinese years as in the precompiled table")

static long floordiv( long a, long b) { long q = a / b; return( (a % b && ((a < 0) != (b < 0))) ? q - 1 : q); }
static long pmod( long a, long b) { return( a - b * floordiv( a, b)); }

/* ---- models:  first day of year + month lengths ---- */
struct YearModel { long start; int len[13]; };

static long heb_elapsed( long y)
{
   const long months = floordiv( 235 * y - 234, 19);
   const long parts = 12084 + 13753 * months;
   const long day = 29 * months + floordiv( parts, 25920);
   return( pmod( 3 * (day + 1), 7) < 3 ? day + 1 : day);
}

static long heb_new_year( long y)
{
   const long ny0 = heb_elapsed( y - 1), ny1 = heb_elapsed( y), ny2 = heb_elapsed( y + 1);
   const long corr = (ny2 - ny1 == 356 ? 2 : (ny1 - ny0 == 382 ? 1 : 0));
   return( 347998 + ny1 + corr);
}

static YearModel model_hebrew( long y)
{
   YearModel m;
   m.start = heb_new_year( y);
   const long len = heb_new_year( y + 1) - m.start;
   const bool leap = pmod( 7 * y + 1, 19) < 7;
   const int base[13] = { 30, 29, 30, 29, 30, leap ? 30 : 29, leap ? 29 : 0, 30, 29, 30, 29, 30, 29 };
   memcpy( m.len, base, sizeof( base));
   const long norm = leap ? 384 : 354;
   if( len == norm + 1) m.len[1] = 30;
   if( len == norm - 1) m.len[2] = 29;
   return( m);
}

static long isl_jd( long y, int mon, int day)
{
   return( day + (59 * (mon - 1) + 1) / 2 + (y - 1) * 354 + floordiv( 3 + 11 * y, 30) + 1948439);
}

static bool isl_leap( long y)
{
   static const int leaps[] = { 2, 5, 7, 10, 13, 16, 18, 21, 24, 26, 29 };
   for( int l : leaps)
      if( pmod( y, 30) == l) return( true);
   return( false);
}

static YearModel model_islamic( long y)
{
   YearModel m;
   m.start = isl_jd( y, 1, 1);
   for( int i = 0; i < 12; i++) m.len[i] = (i & 1) ? 29 : 30;
   if( isl_leap( y)) m.len[11] = 30;
   m.len[12] = 0;
   return( m);
}

static bool birashk_leap( long y)
{
   const long yy = pmod( y - 474, 2820) + 474;
   return( pmod( (yy + 38) * 682, 2816) < 682);
}

static long birashk_start( long y)
{           /* count from 1 Farvardin 475 = JD 2121446 (noon) */
   const long cyc = floordiv( y - 475, 2820);
   static std::vector<long> cum;
   if( cum.empty( ))
      {
      long t = 0;
      for( int i = 0; i < 2820; i++)
         {
         cum.push_back( t);
         t += 365 + birashk_leap( 475 + i);
         }
      cum.push_back( t);
      }
   return( 2121446 + cyc * 1029983 + cum[(size_t)pmod( y - 475, 2820)]);
}

static YearModel model_modern_persian( long y)
{
   YearModel m;
   m.start = birashk_start( y);
   for( int i = 0; i < 12; i++) m.len[i] = (i < 6 ? 31 : 30);
   if( !birashk_leap( y)) m.len[11] = 29;
   m.len[12] = 0;
   return( m);
}

static double mean_equinox( long greg_year, bool sept)
{
   double y, r;
   if( greg_year < 1000)
      {
      y = (double)greg_year / 1000.;
      r = sept ? 1721325.70455 + 365242.49558 * y - .11677 * y * y - .00297 * y * y * y + .00074 * y * y * y * y
               : 1721139.29189 + 365242.13740 * y + .06134 * y * y + .00111 * y * y * y - .00071 * y * y * y * y;
      }
   else
      {
      y = (double)( greg_year - 2000) / 1000.;
      r = sept ? 2451810.21715 + 365242.01767 * y - .11575 * y * y + .00337 * y * y * y + .00078 * y * y * y * y
               : 2451623.80984 + 365242.37404 * y + .05169 * y * y - .00411 * y * y * y - .00057 * y * y * y * y;
      }
   return( r);
}

      /* Meeus,  ch. 49 (main terms),  zone +8h,  with Delta-T = 32u^2 - 20 s */
static double new_moon( double k)
{
   const double T = k / 1236.85, E = 1. - .002516 * T, r = 3.14159265358979323846 / 180., u = T + 1.8;
   const double M = r * (2.5534 + 29.10535670 * k - .0000014 * T * T);
   const double A = r * (201.5643 + 385.81693528 * k + .0107582 * T * T);
   const double F = r * (160.7108 + 390.67050284 * k - .0016118 * T * T), O = r * (124.7746 - 1.56375588 * k);
   return( 2451550.09766 + 29.530588861 * k + .00015437 * T * T
      - .40720 * sin( A) + .17241 * E * sin( M) + .01608 * sin( 2 * A) + .01039 * sin( 2 * F) + .00739 * E * sin( A - M)
      - .00514 * E * sin( A + M) + .00208 * E * E * sin( 2 * M) - .00111 * sin( A - 2 * F) - .00057 * sin( A + 2 * F)
      + .00056 * E * sin( 2 * A + M) - .00042 * sin( 3 * A) + .00042 * E * sin( M + 2 * F) + .00038 * E * sin( M - 2 * F)
      - .00024 * E * sin( 2 * A - M) - .00017 * sin( O) - (32. * u * u - 20.) / 86400. + 8. / 24.);
}

struct Cal { int id; const char *name; long lo, hi; };
static const Cal cals[] = {
   { CALENDAR_HEBREW, "hebrew", 1, 200000 },
   { CALENDAR_ISLAMIC, "islamic", -100000, 200000 },
   { CALENDAR_MODERN_PERSIAN, "modern persian", -100000, 200000 },
   { CALENDAR_REVOLUTIONARY, "revolutionary", -50000, 50000 },
   { CALENDAR_PERSIAN, "jalali", -1096, 2327 },
   { CALENDAR_CHINESE, "chinese", -363, 9636 }};

static long lib_year( Draw &d, const Cal &c)
{
   switch( d.raw( 4))
      {
      case 0: case 1:
         {
         const long lo = std::max( c.lo, -2000L), hi = std::min( c.hi, 7000L);
         return( d.ival( lo, hi));
         }
      case 2: return( std::max( c.lo, std::min( c.hi, d.ival( -10, 40))));
      case 3: return( d.flip( ) ? c.lo + (long)d.raw( 5) : c.hi - (long)d.raw( 5));
      default: return( d.ival( c.lo, c.hi));
      }
}

static void roundtrip( const Cal &c, long jd, int day, int mon, long yr)
{
   int d2 = -99, m2 = -99;
   long y2 = -99;
   const long got = dmy_to_day( day, mon, yr, c.id);
   REQUIRE( got == jd, "%s %ld/%d/%d gives day %ld, expected %ld", c.name, yr, mon, day, got, jd);
   day_to_dmy( jd, &d2, &m2, &y2, c.id);
   REQUIRE( d2 == day && m2 == mon && y2 == yr, "%s day %ld converts to %ld/%d/%d, expected %ld/%d/%d", c.name,
               jd, y2, m2, d2, yr, mon, day);
}

PROP( whole_year, 20000, 30)
{
   const Cal &c = cals[d.raw( 5)];
   const long yr = lib_year( d, c);
   d.note( "%s year %ld", c.name, yr);
   d.cls( c.name);
   const long start = dmy_to_day( 1, 1, yr, c.id);
   int len[13];
   for( int i = 0; i < 13; i++)
      len[i] = days_in_month( i + 1, yr, c.id);
   long total = 0;
   for( int i = 0; i < 13; i++)
      {
      REQUIRE( len[i] >= 0 && len[i] <= 31, "month %d has %d days", i + 1, len[i]);
      total += len[i];
      }
   if( c.id == CALENDAR_HEBREW || c.id == CALENDAR_ISLAMIC || c.id == CALENDAR_MODERN_PERSIAN)
      {
      const YearModel m = (c.id == CALENDAR_HEBREW ? model_hebrew( yr) : c.id == CALENDAR_ISLAMIC ? model_islamic( yr)
                                 : model_modern_persian( yr));
      REQUIRE( m.start == start, "first day of the year is %ld, rules give %ld", start, m.start);
      for( int i = 0; i < 13; i++)
         REQUIRE( m.len[i] == len[i], "month %d has %d days, rules give %d", i + 1, len[i], m.len[i]);
      }
   else if( c.id == CALENDAR_REVOLUTIONARY)
      {
      for( int i = 0; i < 12; i++)
         REQUIRE( len[i] == 30, "month %d has %d days", i + 1, len[i]);
      REQUIRE( len[12] == 5 || len[12] == 6, "%d extra days", len[12]);
      if( yr >= 1 && yr <= 15)
         {
         REQUIRE( len[12] == (yr % 4 == 3 ? 6 : 5), "year %ld has %d extra days (3,7,11,15 were sextile)", yr, len[12]);
         REQUIRE( start == 2375840 + (yr - 1) * 365 + yr / 4, "year %ld starts on day %ld", yr, start);
         }
      if( yr >= -1007 && yr <= 611)
         REQUIRE( fabs( (double)start - mean_equinox( yr + 1791, true)) < 1.5, "year starts on %ld, autumnal equinox is %.2f",
                     start, mean_equinox( yr + 1791, true));
      }
   else if( c.id == CALENDAR_PERSIAN)
      {
      for( int i = 0; i < 11; i++)
         REQUIRE( len[i] == (i < 6 ? 31 : 30), "month %d has %d days", i + 1, len[i]);
      REQUIRE( (len[11] == 29 || len[11] == 30) && !len[12], "last months have %d, %d days", len[11], len[12]);
      REQUIRE( fabs( (double)start - mean_equinox( yr + 621, false)) < 1.5, "year starts on %ld, vernal equinox is %.2f",
                     start, mean_equinox( yr + 621, false));
      if( yr >= 1206 && yr <= 1498)
         {
         static const int rem[] = { 1, 5, 9, 13, 17, 22, 26, 30 };
         const long r = yr % 33;
         bool leap = false;
         for( int k : rem) leap |= (k == r);
         REQUIRE( leap == (len[11] == 30), "year %ld should %sbe a leap year", yr, leap ? "" : "not ");
         }
      }
   else
      {
      int n = 0;
      for( int i = 0; i < 13; i++)
         {
         REQUIRE( len[i] == 29 || len[i] == 30 || (i == 12 && !len[i]), "month %d has %d days", i + 1, len[i]);
         n += (len[i] > 0);
         }
      dmy_to_day( 1, 1, yr, c.id);
      const int inter = get_chinese_intercalary_month( );
      REQUIRE( (n == 13) == (inter != 0) && (!inter || (inter >= 2 && inter <= 13)), "%d months, intercalary %d", n, inter);
      d.cls( inter ? "chinese leap year" : "chinese common year");
      long t = start;
      for( int i = 0; i < n; i++)
         {
         const double k = floor( ((double)t - 2451550.1) / 29.530588861 + .5);
         const double nm = new_moon( k) - ((double)t - .5);    /* should be 0 to 1 */
         REQUIRE( nm > -.1 && nm < 1.1, "month %d starts on day %ld, new moon is %.2f days into it", i + 1, t, nm);
         t += len[i];
         }
                     /* year ~ Gregorian year + 2637 : New Year is within a month and a bit of mid-February */
      const double mid_feb = mean_equinox( yr - 2637, false) - 42.;
      if( yr > 1637 && yr < 5637)
       REQUIRE( fabs( (double)start - mid_feb) < 32., "year starts on %ld, vernal equinox is %.2f", start, mid_feb + 42.);
      }
   if( yr < c.hi)
      {
      const long next = dmy_to_day( 1, 1, yr + 1, c.id);
      REQUIRE( next == start + total, "year starts on %ld and has %ld days, but the next one starts on %ld", start, total, next);
      }
   long jd = start;
   for( int i = 0; i < 13; i++)
      for( int j = 1; j <= len[i]; j++)
         roundtrip( c, jd++, j, i + 1, yr);
}

            /* rule-based calendars :  year starts and month lengths over long spans */
PROP( rule_based_years, 600000, 20)
{
   const Cal &c = cals[d.raw( 2)];
   const long yr = d.rare( 4) ? lib_year( d, c) : d.ival( c.lo, c.hi);
   d.note( "%s year %ld", c.name, yr);
   d.cls( c.name);
   const YearModel m = (c.id == CALENDAR_HEBREW ? model_hebrew( yr) : c.id == CALENDAR_ISLAMIC ? model_islamic( yr)
                                 : model_modern_persian( yr));
   const long start = dmy_to_day( 1, 1, yr, c.id);
   REQUIRE( m.start == start, "first day of the year is %ld, rules give %ld", start, m.start);
   for( int i = 0; i < 13; i++)
      REQUIRE( m.len[i] == days_in_month( i + 1, yr, c.id), "month %d has %d days, rules give %d", i + 1,
                  days_in_month( i + 1, yr, c.id), m.len[i]);
}

PROP( single_dates, 400000, 40)
{
   const Cal &c = cals[d.raw( 5)];
   const long yr = lib_year( d, c);
   const int mon = (int)d.ival( 1, 13);
   const int len = days_in_month( mon, yr, c.id);
   d.cls( c.name);
   if( !len)
      { d.nontrivial( false); return; }
   const int day = d.flip( ) ? (d.flip( ) ? 1 : len) : (int)d.ival( 1, len);
   d.note( "%s %ld/%d/%d", c.name, yr, mon, day);
   const long jd = dmy_to_day( day, mon, yr, c.id);
   if( c.id == CALENDAR_ISLAMIC)
      REQUIRE( jd == isl_jd( yr, mon, day), "gives %ld,  tabular calendar gives %ld", jd, isl_jd( yr, mon, day));
   roundtrip( c, jd, day, mon, yr);
}

            /* arbitrary day numbers,  calendars interleaved */
PROP( day_numbers, 400000, 40)
{
   const Cal &c = cals[d.raw( 5)];
   static const long ranges[6][2] = { { 348000, 70000000 }, { -30000000, 70000000 }, { -30000000, 70000000 }, { -15000000, 20000000 },
               { 1948000 - 400000, 1948000 + 848000 }, { 0, 0 }};
   long lo = ranges[&c - cals][0], hi = ranges[&c - cals][1];
   if( c.id == CALENDAR_CHINESE)
      {
      lo = dmy_to_day( 1, 1, c.lo, c.id);
      hi = dmy_to_day( 29, 12, c.hi, c.id);
      }
   const long jd = (d.flip( ) ? d.ival( std::max( lo, 1700000L), std::min( hi, 2700000L)) : d.ival( lo, hi));
   int d1 = -99, m1 = -99, d2 = -99, m2 = -99;
   long y1 = -99, y2 = -99;
   day_to_dmy( jd, &d1, &m1, &y1, c.id);
   d.note( "%s day %ld = %ld/%d/%d", c.name, jd, y1, m1, d1);
   d.cls( c.name);
   REQUIRE( m1 >= 1 && m1 <= 13 && d1 >= 1, "no date for day %ld", jd);
   REQUIRE( d1 <= days_in_month( m1, y1, c.id), "date does not exist");
   REQUIRE( dmy_to_day( d1, m1, y1, c.id) == jd, "date converts back to %ld", dmy_to_day( d1, m1, y1, c.id));
   if( jd < hi)
      {
      day_to_dmy( jd + 1, &d2, &m2, &y2, c.id);
      const bool same = (y1 == y2 && m1 == m2 && d2 == d1 + 1);
      const bool next = (d2 == 1 && d1 == days_in_month( m1, y1, c.id) &&
                     (y1 == y2 ? (m2 == m1 + 1 || (m2 == m1 + 2 && !days_in_month( m1 + 1, y1, c.id)))
                               : (y2 == y1 + 1 && m2 == 1 && (m1 == 13 || (m1 == 12 && !days_in_month( 13, y1, c.id))))));
      REQUIRE( same || next, "followed by %ld/%d/%d", y2, m2, d2);
      }
}

            /* published Chinese new year dates and leap months */
PROP( chinese_published, 200, 5)
{
   static const struct { long greg; int mon, day, leap; } t[] = {
      { 1984, 2, 2, 10 }, { 1990, 1, 27, 5 }, { 2000, 2, 5, 0 }, { 2001, 1, 24, 4 }, { 2004, 1, 22, 2 }, { 2006, 1, 29, 7 },
      { 2008, 2, 7, 0 }, { 2009, 1, 26, 5 }, { 2012, 1, 23, 4 }, { 2014, 1, 31, 9 }, { 2017, 1, 28, 6 }, { 2018, 2, 16, 0 },
      { 2020, 1, 25, 4 }, { 2021, 2, 12, 0 }, { 2022, 2, 1, 0 }, { 2023, 1, 22, 2 }, { 2024, 2, 10, 0 }, { 2025, 1, 29, 6 }, { 1969, 2, 17, 0 }};
   const auto &e = t[d.raw( sizeof( t) / sizeof( t[0]) - 1)];
   d.note( "Chinese New Year %ld", e.greg);
   const long jd = dmy_to_day( e.day, e.mon, e.greg, CALENDAR_GREGORIAN);
   int day = 0, mon = 0;
   long yr = 0;
   day_to_dmy( jd, &day, &mon, &yr, CALENDAR_CHINESE);
   REQUIRE( day == 1 && mon == 1 && yr == e.greg + 2637, "%ld/%d/%d is %ld/%d/%d", e.greg, e.mon, e.day, yr, mon, day);
   REQUIRE( get_chinese_intercalary_month( ) == (e.leap ? e.leap + 1 : 0), "intercalary month %d", get_chinese_intercalary_month( ));
}

            /* outside the tabulated range the conversion says so */
PROP( out_of_range, 20000, 10)
{
   const Cal &c = cals[4 + d.raw( 1)];
   const long yr = d.flip( ) ? c.lo - 1 - d.ival( 0, 20000) : c.hi + 1 + d.ival( 0, 20000);
   d.note( "%s year %ld", c.name, yr);
   const long jd = dmy_to_day( 1, 1, yr, c.id);
   REQUIRE( !jd, "date outside the supported range gives %ld", jd);
   const long far = (yr < c.lo ? dmy_to_day( 1, 1, c.lo, c.id) - 800 - 365 * (c.lo - yr)
                               : dmy_to_day( 1, 1, c.hi, c.id) + 800 + 365 * (yr - c.hi));
   int day = 99, mon = 99;
   long y2 = 99;
   day_to_dmy( far, &day, &mon, &y2, c.id);
   REQUIRE( day == -1, "day %ld gives %ld/%d/%d", far, y2, mon, day);
}
