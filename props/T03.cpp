// flavor: plain
/* What the formatter writes,  the parser reads back */
#include "watdefs.h"
#include "date.h"
#include "pbt.h"

PROPERTY( "T03", "random instants x random self-contained layouts (full date, all orders, names or digits, four units, 0-9 places, JD/MJD); non-trivial = date part not padded to a default",
   "Layouts that drop information (two-digit year, no year, time only, glued date and time) are not round-trippable and are left out",
   "all-digit layouts: year 33 or more, or order given by the same flags")

PROP( format_then_parse, 1500000, 30)
{
   static const int orders[4] = { FULL_CTIME_YMD, FULL_CTIME_YDM, FULL_CTIME_DMY, FULL_CTIME_MDY };
   static const int outs[] = { FULL_CTIME_FORMAT_SECONDS, FULL_CTIME_FORMAT_HH_MM, FULL_CTIME_FORMAT_DAY };
   static const long unit_tbl[] = { 86400, 1440, 1 };
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN };
   const int oi = (int)d.raw( 2), prec = (int)d.raw( oi == 2 ? 12 : 6);
   const int order = orders[d.raw( 3)], cal = cals[d.raw( 2)];
   const bool dig = d.flip( ), lz = d.flip( ), rounding = d.flip( ), doy = d.rare( 8);
   const bool nosp = (dig && lz && order == FULL_CTIME_YMD && oi == 2 && d.flip( ));
   const int fmt = order | cal | outs[oi] | FULL_CTIME_N_PLACES( prec) | (dig ? FULL_CTIME_MONTHS_AS_DIGITS : 0)
            | (lz ? FULL_CTIME_LEADING_ZEROES : 0) | (rounding ? FULL_CTIME_ROUNDING : 0) | (nosp ? FULL_CTIME_NO_SPACES : 0)
            | (doy && !nosp ? FULL_CTIME_DAY_OF_YEAR | FULL_CTIME_YEAR_FIRST : 0);
   long y = d.flip( ) ? d.ival( 1900, 2100) : d.ival( -4000, 9999);
   if( (doy && y < 400) || (nosp && y < 1000)) y = 2000;
   const int m = (int)d.ival( 1, 12), day = (int)d.ival( 1, 31);
   if( dig && y >= 0 && y < 33 && day > 28) y += 40;
   long double t2k = (long double)( dmy_to_day( day, m, y, cal) - 2451545) - .5L;
   if( d.flip( ))
      t2k += (long double)d.unit( );
   else
      t2k += ((long double)d.raw( 86400) + (d.flip( ) ? 1.L : -1.L) * powl( 10.L, -(long double)d.raw( 14))) / 86400.L;
   if( cal == CALENDAR_JULIAN_GREGORIAN && y == 1582)
      { d.nontrivial( false); return; }
   char buff[80];
   full_ctimel( buff, t2k, fmt);
   int is_ut = 99;
   const long double back = get_time_from_stringl( d.real( -1e5, 1e5), buff, fmt & ~FULL_CTIME_FORMAT_MASK, &is_ut);
   d.note( "t2k=%.12Lf format=0x%x '%s'", t2k, (unsigned)fmt, buff);
   d.cls( dig ? "digits" : "names");
   d.cls( y < 0 ? "negative year" : "year >= 0");
   const long double tick = powl( 10.L, -prec) / (long double)unit_tbl[oi];
   const long double eps = 1e-6L / 86400.L;
   const long double diff = back - t2k;
   const long double nudge = powl( 10.L, -prec) * .05L / 86400.L;
   if( rounding)
      REQUIRE( fabsl( diff) <= tick * .5L + eps, "read back %.9Lf s off, half a unit is %.9Lf s", diff * 86400.L, tick * 43200.L);
   else
      REQUIRE( diff <= nudge + eps && diff >= -tick - eps, "read back %.9Lf s off, one unit is %.9Lf s", diff * 86400.L, tick * 86400.L);
   REQUIRE( is_ut == 0, "error flag %d", is_ut);
}

PROP( jd_then_parse, 300000, 30)
{
   const int prec = (int)d.raw( 10);
   const bool mjd = d.flip( );
   const int fmt = (mjd ? FULL_CTIME_FORMAT_MJD : FULL_CTIME_FORMAT_JD) | FULL_CTIME_N_PLACES( prec);
   const long double t2k = (long double)d.special( -2400000., 2000000.) + (long double)d.unit( );
   char buff[80];
   full_ctimel( buff, t2k, fmt);
   int is_ut = 99;
   const long double back = get_time_from_stringl( 0., buff, 0, &is_ut);
   d.note( "t2k=%.12Lf '%s'", t2k, buff);
   REQUIRE( fabsl( back - t2k) <= powl( 10.L, -prec) * .500001L + 1e-6L / 86400.L, "read back %.9Lf days off", back - t2k);
   REQUIRE( is_ut == 1, "time-scale flag %d", is_ut);
}

            /* microsecond-level agreement of double and long double interfaces over a chain of format/parse steps */
PROP( repeated_round_trips, 200000, 30)
{
   const int fmt = FULL_CTIME_YMD | FULL_CTIME_ROUNDING | FULL_CTIME_3_PLACES | CALENDAR_JULIAN_GREGORIAN;
   const long y = d.ival( 1600, 2400);
   double jd = (double)dmy_to_day( (int)d.ival( 1, 28), (int)d.ival( 1, 12), y, CALENDAR_JULIAN_GREGORIAN) - .5 + d.unit( );
   char b0[80], b1[80];
   full_ctime( b0, jd, fmt);
   d.note( "JD %.9f '%s'", jd, b0);
   for( int k = 0; k < 4; k++)
      {
      jd = get_time_from_string( 0., b0, fmt, NULL);
      full_ctime( b1, jd, fmt);
      REQUIRE( !strcmp( b0, b1), "'%s' became '%s'", b0, b1);
      }
}
