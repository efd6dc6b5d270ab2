// flavor: plain
/* UTC <-> TT/TDB */
#include "watdefs.h"
#include "afuncs.h"
#include "date.h"
#include "pbt.h"

PROPERTY( "T04", "UTC instants in 1900-2600 with bias to the leap-second and rate-change dates, and settings of the prediction cut-off; non-trivial = after 1961",
   "Model: tai-utc.dat of USNO/IERS (1961-2017) entered independently",
   "Future leap seconds follow the documented half-year rule on top of the library's own Delta-T")

struct Rate { int y, m; double base, mjd0, rate; };
static const Rate rates[] = {
   { 1961, 1, 1.4228180, 37300, .001296 }, { 1961, 8, 1.3728180, 37300, .001296 }, { 1962, 1, 1.8458580, 37665, .0011232 },
   { 1963, 11, 1.9458580, 37665, .0011232 }, { 1964, 1, 3.2401300, 38761, .001296 }, { 1964, 4, 3.3401300, 38761, .001296 },
   { 1964, 9, 3.4401300, 38761, .001296 }, { 1965, 1, 3.5401300, 38761, .001296 }, { 1965, 3, 3.6401300, 38761, .001296 },
   { 1965, 7, 3.7401300, 38761, .001296 }, { 1965, 9, 3.8401300, 38761, .001296 }, { 1966, 1, 4.3131700, 39126, .002592 },
   { 1968, 2, 4.2131700, 39126, .002592 } };
static const struct { int y, m; } leaps[] = { {1972,1},{1972,7},{1973,1},{1974,1},{1975,1},{1976,1},{1977,1},{1978,1},{1979,1},{1980,1},
   {1981,7},{1982,7},{1983,7},{1985,7},{1988,1},{1990,1},{1991,1},{1992,7},{1993,7},{1994,7},{1996,1},{1997,7},{1999,1},
   {2006,1},{2009,1},{2012,7},{2015,7},{2017,1} };

static double jd_of( int y, int m) { return( (double)dmy_to_day( 1, m, y, CALENDAR_GREGORIAN) - .5); }

static double gen_utc( Draw &d)
{
   double t;
   switch( d.raw( 5))
      {
      case 0: { const auto &l = leaps[d.raw( 27)]; t = jd_of( l.y, l.m); break; }
      case 1: { const auto &l = rates[d.raw( 12)]; t = jd_of( l.y, l.m); break; }
      case 2: t = jd_of( (int)d.ival( 1955, 2600), d.flip( ) ? 1 : 7); break;
      case 3: return( d.real( jd_of( 1961, 1), jd_of( 1972, 1)));
      case 4: return( d.real( jd_of( 1972, 1), jd_of( 2030, 1)));
      default: return( d.real( jd_of( 1900, 1), jd_of( 2600, 1)));
      }
   switch( d.raw( 3))
      {
      case 0: return( t);
      case 1: return( t + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-7, 3.));
      case 2: return( t - 1e-8);
      default: return( t + (double)d.ival( -3, 3));
      }
}

PROP( published_table, 1500000, 30)
{
   const double utc = gen_utc( d);
   mjd_end_of_predictive_leap_seconds = 2147483647;
   const double got = td_minus_utc( utc);
   d.note( "JD (UTC) %.9f: TT-UTC = %.7f", utc, got);
   d.nontrivial( utc >= jd_of( 1961, 1));
   if( utc < jd_of( 1961, 1))
      {
      d.cls( "before 1961");
      REQUIRE( got == td_minus_ut( utc), "before 1961 UTC should be UT (%.7f)", td_minus_ut( utc));
      }
   else if( utc < jd_of( 1972, 1))
      {
      d.cls( "1961-1971");
      double want = 0.;
      for( const Rate &r : rates)
         if( utc >= jd_of( r.y, r.m))
            want = r.base + (utc - 2400000.5 - r.mjd0) * r.rate;
      REQUIRE( fabs( got - 32.184 - want) < 1e-6, "TAI-UTC is %.7f, published %.7f", got - 32.184, want);
      }
   else if( utc < jd_of( 2021, 12))
      {
      d.cls( "1972-2021");
      int n = 9;
      for( const auto &l : leaps)
         if( utc >= jd_of( l.y, l.m))
            n++;
      REQUIRE( fabs( got - 32.184 - n) < 1e-9, "TAI-UTC is %.7f, published %d", got - 32.184, n);
      REQUIRE( fabs( got - td_minus_ut( utc)) < .95, "UT1-UTC would be %.3f", got - td_minus_ut( utc));
      }
   else
      {
      d.cls( "predicted");
      const double tai = got - 32.184;
      REQUIRE( fabs( tai - floor( tai + .5)) < 1e-9, "TAI-UTC is %.9f, not a whole number", tai);
      int day, mon;
      long yr;
      day_to_dmy( (long)floor( utc + .5), &day, &mon, &yr, CALENDAR_GREGORIAN);
      const double lo = jd_of( (int)yr, mon < 7 ? 1 : 7), hi = mon < 7 ? jd_of( (int)yr, 7) : jd_of( (int)yr + 1, 1);
      const double pred = td_minus_ut( (lo + hi) * .5);
      REQUIRE( fabs( got - pred) <= .5 + 1e-9, "differs from predicted TT-UT (%.4f) in mid-half-year by %.4f", pred, got - pred);
      const double other = lo + d.unit( ) * (hi - lo) * .9999999;
      REQUIRE( td_minus_utc( other) == got, "changes to %.4f at JD %.6f in the same half-year", td_minus_utc( other), other);
      }
}

            /* the user's cut-off stops the count there */
PROP( cutoff, 400000, 30)
{
   const double utc = gen_utc( d);
   const int mjd = (int)d.ival( 41317, 80000);
   mjd_end_of_predictive_leap_seconds = 2147483647;
   const double free_val = td_minus_utc( utc), at_end = td_minus_utc( 2400000.5 + mjd);
   mjd_end_of_predictive_leap_seconds = mjd;
   const double got = td_minus_utc( utc);
   mjd_end_of_predictive_leap_seconds = 2147483647;
   d.note( "cut-off MJD %d, JD (UTC) %.6f", mjd, utc);
   d.nontrivial( utc > 2400000.5 + mjd);
   if( utc - 2400000.5 < mjd + 1. || utc < jd_of( 1972, 1))
      REQUIRE( got == free_val, "value before the cut-off changed from %.4f to %.4f", free_val, got);
   else
      REQUIRE( got == at_end, "value after the cut-off is %.4f instead of %.4f", got, at_end);
}

            /* TDB : published six-term series of Fairhead et al.,  at most 1.71 ms */
PROP( tdb, 500000, 30)
{
   const double t = d.flip( ) ? d.real( -1., 1.) : d.real( -20., 20.);
   d.note( "T = %.9f centuries", t);
   const long double got = tdb_minus_tdt( (long double)t);
   const double want = .0016566894 * sin( 628.30758494 * t + 6.2400497) + .0000224175 * sin( 575.33848843 * t + 4.2969771)
            + .0000138399 * sin( 1256.61516988 * t + 6.1968995) + .0000047701 * sin( 52.96909651 * t + .4444038)
            + .0000046767 * sin( 606.97767539 * t + 4.0211937) + .0000022566 * sin( 21.32990954 * t + 5.5431320);
   REQUIRE( fabs( (double)got - want) < 1e-9, "TDB-TT is %.9Lf s, the series gives %.9f", got, want);
   const double utc = 2451545. + t * 36525. * (fabs( t) > 10. ? .1 : 1.);
   const double tot = tdb_minus_utc( utc), tt = td_minus_utc( utc);
   REQUIRE( fabs( tot - tt - (double)tdb_minus_tdt( (utc - 2451545.L) / 36525.L)) < 2e-7 + fabs( tt) * 1e-15, "TDB-UTC %.9f, TT-UTC %.9f, TDB-TT %.9Lf", tot, tt,
            tdb_minus_tdt( (utc - 2451545.L) / 36525.L));
}

            /* UTC -> TT is strictly increasing except for the leap seconds themselves */
PROP( monotonic, 300000, 30)
{
   const double utc = gen_utc( d), step = d.logreal( 1e-5, 400.);
   d.note( "JD (UTC) %.9f and %.9f days later", utc, step);
   const double diff = step * 86400. + td_minus_utc( utc + step) - td_minus_utc( utc);
   REQUIRE( diff > 0. || step * 86400. < 1.1, "TT goes back by %.4f s", -diff);
}
