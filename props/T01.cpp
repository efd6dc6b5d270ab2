// flavor: plain
/* Formatting of times:  full_ctimel( ),  full_ctime( ),  split_time( ) against a reference formatter */
#include "watdefs.h"
#include "date.h"
#include "pbt.h"

PROPERTY( "T01", "random instants (years -9999..9999, plus instants placed within 1e-12 to 1 s of unit boundaries) x random layout flags; non-trivial = not at midnight and at least one layout flag set",
   "Reference formatter works on integer ticks; instants within 1e-9 of a tick of a boundary may show either neighbour",
   "x86 80-bit long double", "buffer of 80 bytes as the library documents",
   "decimal-year layout checked for years 1000..9999, JD/MJD layouts within one unit of the last place")

typedef __int128 i128;
static const char *mon_names[12] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static const char *dow_names[7] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };

static i128 fdiv( i128 a, i128 b) { i128 q = a / b; return( (a % b && ((a < 0) != (b < 0))) ? q - 1 : q); }

static std::string digits( i128 v, int n)
{
   std::string s;
   while( n--)
      {
      s += (char)( '0' + (int)( v % 10));
      v /= 10;
      }
   std::reverse( s.begin( ), s.end( ));
   return( s);
}

      /* 'ticks' of 10^-prec units since J2000 (noon) minus half a day */
static std::string ref_format( i128 ticks, long units, int prec, int fmt)
{
   i128 p10 = 1;
   for( int i = 0; i < prec; i++) p10 *= 10;
   const i128 per_day = p10 * units;
   const long iday = (long)fdiv( ticks, per_day);
   const i128 rem = ticks - (i128)iday * per_day;
   const long whole = (long)( rem / p10);
   const i128 frac = rem % p10;
   const int out = fmt & FULL_CTIME_FORMAT_MASK;
   const bool lz = (fmt & FULL_CTIME_LEADING_ZEROES) != 0;
   const std::string frac_str = prec ? "." + digits( frac, prec) : "";
   int day, month;
   long year;
   day_to_dmy( iday + 2451545, &day, &month, &year, fmt & CALENDAR_MASK);
   const std::string dow = dow_names[((iday + 6) % 7 + 7) % 7];
   std::string r;
   if( fmt & FULL_CTIME_DAY_OF_WEEK_FIRST)
      r += dow + " ";
   if( !(fmt & FULL_CTIME_TIME_ONLY))
      {
      std::string ms = (fmt & FULL_CTIME_MONTHS_AS_DIGITS) ? pbt::strf( lz ? "%02d" : "%2d", month) : mon_names[month - 1];
      std::string ys = (fmt & FULL_CTIME_TWO_DIGIT_YEAR) ? pbt::strf( "%02ld", labs( year) % 100) : pbt::strf( lz ? "%04ld" : "%4ld", year);
      std::string ds = pbt::strf( lz ? "%02d" : "%2d", day);
      std::string df = (out == FULL_CTIME_FORMAT_DAY ? frac_str : "");
      if( (fmt & FULL_CTIME_YEAR_FIRST) && !(fmt & FULL_CTIME_NO_YEAR))
         r += ys + " ";
      if( fmt & FULL_CTIME_DAY_OF_YEAR)
         r += pbt::strf( "%03ld", iday + 2451545 - dmy_to_day( 1, 1, year, fmt & CALENDAR_MASK) + 1) + df;
      else if( fmt & FULL_CTIME_MONTH_DAY)
         r += ms + " " + ds + df;
      else
         r += ds + df + " " + ms;
      if( !(fmt & FULL_CTIME_YEAR_FIRST) && !(fmt & FULL_CTIME_NO_YEAR))
         r += " " + ys;
      if( out != FULL_CTIME_FORMAT_DAY)
         r += " ";
      }
   const char *lead = lz ? "%02ld" : "%2ld";
   if( out == FULL_CTIME_FORMAT_SECONDS)
      r += pbt::strf( lead, whole / 3600) + pbt::strf( ":%02ld:%02ld", (whole / 60) % 60, whole % 60) + frac_str;
   else if( out == FULL_CTIME_FORMAT_HH_MM)
      r += pbt::strf( lead, whole / 60) + pbt::strf( ":%02ld", whole % 60) + frac_str;
   else if( out == FULL_CTIME_FORMAT_HH)
      r += pbt::strf( lead, whole) + frac_str;
   if( fmt & FULL_CTIME_DAY_OF_WEEK_LAST)
      r += " " + dow;
   std::string s;
   for( char c : r)
      if( !(c == ' ' && (fmt & FULL_CTIME_NO_SPACES)) && !(c == ':' && (fmt & FULL_CTIME_NO_COLONS)))
         s += c;
   return( s);
}

static int gen_layout( Draw &d)
{
   static const int flags[] = { FULL_CTIME_YEAR_FIRST, FULL_CTIME_MONTH_DAY, FULL_CTIME_MONTHS_AS_DIGITS, FULL_CTIME_LEADING_ZEROES,
            FULL_CTIME_TWO_DIGIT_YEAR, FULL_CTIME_NO_YEAR, FULL_CTIME_DAY_OF_WEEK_FIRST, FULL_CTIME_DAY_OF_WEEK_LAST,
            FULL_CTIME_NO_SPACES, FULL_CTIME_ROUNDING, FULL_CTIME_NO_COLONS, FULL_CTIME_DAY_OF_YEAR, FULL_CTIME_TIME_ONLY };
   int r = 0;
   for( int f : flags)
      if( d.rare( f == FULL_CTIME_ROUNDING || f == FULL_CTIME_LEADING_ZEROES || f == FULL_CTIME_YEAR_FIRST ? 2 : 5))
         r |= f;
   return( r);
}

static long double gen_t2k( Draw &d, long units, int prec)
{
   long day;
   switch( d.raw( 3))
      {
      case 0: day = d.ival( -40000, 40000); break;
      case 1: day = d.ival( -4382000, 2921000); break;
      case 2: day = dmy_to_day( (int)d.ival( 1, 31), (int)d.ival( 1, 12), d.ival( -2000, 4000), 6) - 2451545; break;
      default: day = d.ival( -3, 366) + (long)( 365.2425 * (double)d.ival( -500, 500)); break;
      }
   long double frac;
   switch( d.raw( 3))
      {
      case 0: frac = (long double)d.unit( ); break;
      case 1:        /* on/near a second,  minute,  hour or tick of the requested unit */
         {
         static const long den[] = { 86400, 1440, 24, 1 };
         const long n = den[d.raw( 3)];
         frac = (long double)d.raw( (uint64_t)n) / (long double)n;
         frac += (d.flip( ) ? 1.L : -1.L) * powl( 10.L, -(long double)d.ival( 0, 16)) / 86400.L;
         break;
         }
      case 2:        /* near a tick or half-tick of the display */
         {
         const long double t = (long double)units * powl( 10.L, prec);
         frac = floorl( (long double)d.unit( ) * t) / t + (d.flip( ) ? .5L / t : 0.L);
         frac += (long double)( d.ival( -1000, 1000)) * powl( 10.L, -(long double)d.ival( 3, 9)) / t;
         break;
         }
      default:       /* last moments of a day */
         frac = 1.L - powl( 10.L, -(long double)d.unit( ) * 12.L);
         break;
      }
   return( (long double)day + frac - .5L);
}

static void check_format( Draw &d, bool dbl)
{
   static const int outs[] = { FULL_CTIME_FORMAT_SECONDS, FULL_CTIME_FORMAT_HH_MM, FULL_CTIME_FORMAT_HH, FULL_CTIME_FORMAT_DAY };
   static const long unit_tbl[] = { 86400, 1440, 24, 1 };
   const int oi = (int)d.raw( 3);
   const long units = unit_tbl[oi];
   static const int max_prec[] = { 9, 11, 12, 14 };
   const int prec = (int)d.raw( dbl ? 6 : (uint64_t)max_prec[oi]);
   const int layout = gen_layout( d);
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN };
   const int fmt = layout | outs[oi] | FULL_CTIME_N_PLACES( prec) | cals[d.raw( 2)];
   long double t2k = gen_t2k( d, units, prec);
   if( dbl)
      t2k = (long double)( (double)( t2k + 2451545.L)) - 2451545.L;
   char buff[80];
   memset( buff, '#', sizeof( buff));
   if( dbl)
      full_ctime( buff, (double)( t2k + 2451545.L), fmt);
   else
      full_ctimel( buff, t2k, fmt);
   const long double tick = 1.L / ((long double)units * powl( 10.L, prec));
   const long double add_on = (fmt & FULL_CTIME_ROUNDING) ? tick * .5L : powl( 10.L, -prec) * .05L / 86400.L;
               /* integer tick count,  computed day and fraction separately */
   long double shifted = t2k + .5L + add_on;
   const long double fl = floorl( shifted);
   const long double in_day = (t2k + .5L - fl + add_on) / tick;
   const i128 per_day = (i128)( 1.L / tick + .5L);
   const i128 n = (i128)fl * per_day + (i128)floorl( in_day);
   d.note( "t2k=%.15Lf format=0x%x -> '%.79s'", t2k, (unsigned)fmt, buff);
   d.nontrivial( layout != 0 && fabsl( in_day) > 1.L);
   d.cls( pbt::strf( "%s prec %d", oi == 0 ? "sec" : oi == 1 ? "min" : oi == 2 ? "hour" : "day", prec));
   if( fmt & FULL_CTIME_ROUNDING) d.cls( "rounding");
   const std::string got( buff, strnlen( buff, sizeof( buff)));
   const std::string want = ref_format( n, units, prec, fmt);
   if( got == want)
      return;
               /* near a boundary,  or digits beyond what the arithmetic carries */
   const long double err = fabsl( in_day) * 2e-19L + (fabsl( t2k) + 1.L) * 4e-19L / tick + 1e-9L;
   const long double fr = in_day - floorl( in_day);
   std::string other;
   for( int k = -2; k <= 2; k++)
      if( k && (k < 0 ? fr + (long double)( -k - 1) < err * 4.L : (1.L - fr) + (long double)( k - 1) < err * 4.L))
         {
         other = ref_format( n + k, units, prec, fmt);
         if( other == got)
            return;
         }
   if( err > .3L)          /* last digits carry no information */
      { d.nontrivial( false); return; }
   pbt::fail_fmt( "expected '%s' (tick %.3Lf into its interval)", want.c_str( ), fr);
}

PROP( long_double_times, 900000, 30) { check_format( d, false); }
PROP( double_times, 500000, 30) { check_format( d, true); }

            /* JD,  MJD,  decimal year */
PROP( numeric_layouts, 300000, 30)
{
   const int prec = (int)d.raw( 8);
   const int kind = (int)d.raw( 2);
   const int fmt = (kind == 0 ? FULL_CTIME_FORMAT_JD : kind == 1 ? FULL_CTIME_FORMAT_MJD : FULL_CTIME_FORMAT_YEAR)
             | FULL_CTIME_N_PLACES( prec) | (d.rare( 4) ? FULL_CTIME_ROUNDING : 0) | (d.rare( 4) ? FULL_CTIME_LEADING_ZEROES : 0);
   const long double t2k = (kind == 2 ? (long double)d.special( -365000., 2900000.) : gen_t2k( d, 1, prec));
   char buff[80];
   full_ctimel( buff, t2k, fmt);
   d.note( "t2k=%.12Lf format=0x%x -> '%s'", t2k, (unsigned)fmt, buff);
   const char *tptr = buff;
   if( kind == 0)
      { REQUIRE( !memcmp( tptr, "JD ", 3), "no 'JD ' in '%s'", buff); tptr += 3; }
   if( kind == 1)
      { REQUIRE( !memcmp( tptr, "MJD ", 4), "no 'MJD ' in '%s'", buff); tptr += 4; }
   char *end;
   const long double v = strtold( tptr, &end);
   const long double want = (kind == 0 ? t2k + 2451545.L : kind == 1 ? t2k + 51544.5L : t2k / 365.25L + 2000.L);
   REQUIRE( !*end, "trailing text in '%s'", buff);
   const char *dot = strchr( tptr, '.');
   const int places = dot ? (int)strlen( dot + 1) : 0;
   REQUIRE( places == prec, "%d decimal places instead of %d", places, prec);
   const long double tol = (kind < 2 && !(fmt & FULL_CTIME_ROUNDING)) ? .500001L : 1.000001L;
   REQUIRE( fabsl( v - want) <= powl( 10.L, -prec) * tol + 1e-6L / 86400.L, "'%s' stands for %.12Lf", buff, want);
}

            /* splitting into fields */
PROP( split_fields, 400000, 30)
{
   const long double t2k = gen_t2k( d, 86400, 3);
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_ISLAMIC, CALENDAR_MODERN_PERSIAN };
   const int cal = cals[d.raw( 4)];
   long year = 0;
   int mon = 0, day = 0, hr = 0, mi = 0;
   const bool dbl = d.rare( 3);
   const double jd = (double)( t2k + 2451545.L);
   const long double sec = dbl ? (long double)split_time( jd, &year, &mon, &day, &hr, &mi, cal)
                               : split_timel( t2k, &year, &mon, &day, &hr, &mi, cal);
   d.note( "t2k=%.15Lf calendar %d -> %ld/%d/%d %d:%d:%.9Lf", t2k, cal, year, mon, day, hr, mi, sec);
   REQUIRE( hr >= 0 && hr < 24 && mi >= 0 && mi < 60, "hour/minute out of range");
   REQUIRE( sec >= 0. && sec <= 60.L, "seconds out of range");
   REQUIRE( mon >= 1 && day >= 1 && day <= days_in_month( mon, year, cal), "date does not exist");
   const long double back = (long double)( dmy_to_day( day, mon, year, cal) - 2451545) - .5L
               + ((long double)( hr * 60 + mi) * 60.L + sec) / 86400.L;
   const long double ref = dbl ? (long double)jd - 2451545.L : t2k;
   REQUIRE( fabsl( back - ref) * 86400.L < 1e-6L, "fields are %.9Lf s off", (back - ref) * 86400.L);
}
