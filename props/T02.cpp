// flavor: plain
/* Free-form time parsing : every supported notation of an instant gives that instant */
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "pbt.h"

extern "C" long double find_nearest_lunar_phase_time( const int phase_idx, const long double t2k);

PROPERTY( "T02", "an instant is drawn, then rendered in one of the supported notations with random layout, case, separators, time-of-day and offsets; non-trivial = distinct text",
   "Notations are rendered only where the documented disambiguation rules make them unambiguous",
   "Two-digit years (dependent on the current date) are left out")

static const char *full_names[12] = { "January", "February", "March", "April", "May", "June", "July", "August",
                                      "September", "October", "November", "December" };

static std::string month_text( Draw &d, int m)
{
   std::string s = full_names[m - 1];
   if( d.raw( 2))
      s = s.substr( 0, 3 + (size_t)d.raw( s.size( ) - 3));
   switch( d.raw( 3))
      {
      case 0: for( char &c : s) c = (char)toupper( c); break;
      case 1: for( char &c : s) c = (char)tolower( c); break;
      default: break;
      }
   return( s);
}

struct Instant { long y; int m, day; long double day_frac; };

      /* text of time of day,  sets seconds */
static std::string time_text( Draw &d, long double &sec)
{
   const int h = (int)d.raw( 23), mi = (int)d.raw( 59);
   const long ms = (long)d.raw( 59999);
   switch( d.raw( 5))
      {
      case 0:
         sec = h * 3600. + mi * 60.;
         return( pbt::strf( d.flip( ) ? "%02d:%02d" : "%d:%02d", h, mi));
      case 1:
         sec = h * 3600.L + mi * 60.L + (long double)( ms / 1000);
         return( pbt::strf( "%02d:%02d:%02ld", h, mi, ms / 1000));
      case 2:
         sec = h * 3600.L + mi * 60.L + (long double)ms / 1000.L;
         return( pbt::strf( "%02d:%02d:%02ld.%03ld", h, mi, ms / 1000, ms % 1000));
      case 3:
         {
         const long thou = (long)d.raw( 999);
         sec = h * 3600.L + ((long double)mi + (long double)thou / 1000.L) * 60.L;
         return( pbt::strf( "%d:%02d.%03ld", h, mi, thou));
         }
      case 4:           /* am/pm */
         {
         const int h12 = (h % 12 == 0 ? 12 : h % 12);
         static const char *am[] = { " am", " AM", " a.m.", "am" };
         static const char *pm[] = { " pm", " PM", " P.M.", "pm" };
         sec = h * 3600. + mi * 60. + (double)( ms / 1000);
         return( pbt::strf( "%d:%02d:%02ld%s", h12, mi, ms / 1000, (h < 12 ? am : pm)[d.raw( 3)]));
         }
      default:
         sec = h * 3600.;
         return( pbt::strf( "%d:", h));
      }
}

static std::string offset_text( Draw &d, long double &days)
{
   static const char *sym = "smhdwlyc";
   static const long double scale[8] = { 1.L / 86400.L, 1.L / 1440.L, 1.L / 24.L, 1.L, 7.L, 29.530588853L, 365.25L, 36525.L };
   const int k = (int)d.raw( 7);
   const long v = 1 + (long)d.raw( 999);
   const int style = (int)d.raw( 2);
   const bool neg = d.flip( );
   const long double val = (style == 1 ? (long double)v / 100.L : (long double)v);
   std::string s = (neg ? "-" : "+");
   s += style == 1 ? pbt::strf( "%ld.%02ld", v / 100, v % 100) : pbt::strf( "%ld", v);
   if( style == 2) s += " ";
   s += sym[k];
   days += (neg ? -val : val) * scale[k];
   return( s);
}

static void check_parse( Draw &d, const std::string &text, long double init, int fmt, long double want, int want_ut)
{
   int is_ut = 99;
   const long double got = get_time_from_stringl( init, text.c_str( ), fmt, &is_ut);
   d.note( "'%s' format 0x%x (initial %.9Lf)", text.c_str( ), (unsigned)fmt, init);
   const long double tol = 1e-6L / 86400.L + fabsl( want) * 1e-17L;
   REQUIRE( fabsl( got - want) < tol, "parsed as t2k=%.12Lf, expected %.12Lf (%.6Lf s off)", got, want, (got - want) * 86400.L);
   REQUIRE( is_ut == want_ut, "time-scale flag is %d, expected %d", is_ut, want_ut);
   const double dbl = get_time_from_string( (double)( init + 2451545.L), text.c_str( ), fmt, NULL);
   REQUIRE( fabs( dbl - (double)( want + 2451545.L)) < 2e-9 + fabs( (double)want) * 4e-16, "double version gives JD %.9f, expected %.9f", dbl, (double)( want + 2451545.L));
}

static std::string maybe_suffix( Draw &d, long double &add_sec, long double &off)
{
   std::string s;
   if( d.flip( ))
      s += " " + time_text( d, add_sec);
   for( int k = 0; k < 3 && d.rare( 3); k++)
      s += " " + offset_text( d, off);
   return( s);
}

static const int orders[4] = { FULL_CTIME_YMD, FULL_CTIME_YDM, FULL_CTIME_DMY, FULL_CTIME_MDY };

PROP( numeric_dates, 500000, 30)
{
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN, CALENDAR_ISLAMIC, CALENDAR_MODERN_PERSIAN };
   const int cal = cals[d.raw( 4)];
   const int order = orders[d.raw( 3)];
   const int fmt = cal | order;
   const long y = d.flip( ) ? d.ival( 1, 40) : d.flip( ) ? d.ival( 1000, 9999) : d.ival( 33, 99999);
   const int m = (int)d.ival( 1, 12);
   const int day = (int)d.ival( 1, days_in_month( m, y, cal));
   if( cal == CALENDAR_JULIAN_GREGORIAN && y == 1582 && m == 10 && day > 4 && day < 15)
      { d.nontrivial( false); return; }
   const char sep = d.chr( "/ -.");
   const bool pad = d.flip( );
   std::string ys = pbt::strf( pad ? "%04ld" : "%ld", y), ms = pbt::strf( pad ? "%02d" : "%d", m), ds = pbt::strf( pad ? "%02d" : "%d", day);
   long double frac = 0.;
   if( sep != '.' && d.rare( 3))
      {
      const long n = (long)d.raw( 99999);
      frac = (long double)n / 100000.L;
      ds += pbt::strf( ".%05ld", n);
      }
   const std::string sp( 1, sep);
   std::string s = (order == FULL_CTIME_YMD ? ys + sp + ms + sp + ds : order == FULL_CTIME_YDM ? ys + sp + ds + sp + ms :
                    order == FULL_CTIME_DMY ? ds + sp + ms + sp + ys : ms + sp + ds + sp + ys);
   long double sec = 0., off = 0.;
   s += maybe_suffix( d, sec, off);
   d.cls( pbt::strf( "separator '%c'", sep));
   check_parse( d, s, d.real( -1e5, 1e5), fmt, (long double)( dmy_to_day( day, m, y, cal) - 2451545) - .5L + frac + sec / 86400.L + off, 0);
}

            /* fields whose meaning is clear from their values : any order,  whatever the layout flags */
PROP( unambiguous_dates, 400000, 30)
{
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN };
   const int cal = cals[d.raw( 2)];
   const int fmt = cal | orders[d.raw( 3)];
   const bool neg = d.rare( 5);
   const long y = neg ? -d.ival( 1, 9999) : d.ival( 33, 9999);
   const int m = (int)d.ival( 1, 12);
   const bool decimal = d.flip( );
   const int dim = days_in_month( m, y, cal);
   const int day = decimal ? (int)d.ival( 1, dim) : (int)d.ival( 13, dim);
   if( y == 1582 && m == 10)
      { d.nontrivial( false); return; }
   std::string f[3] = { pbt::strf( "%ld", y), pbt::strf( "%d", m), pbt::strf( "%d", day) };
   long double frac = 0.;
   if( decimal)
      {
      const long n = (long)d.raw( 999);
      frac = (long double)n / 1000.L;
      f[2] += pbt::strf( ".%03ld", n);
      }
   int p[3] = { 0, 1, 2 };
   std::swap( p[0], p[d.raw( 2)]);
   if( d.flip( )) std::swap( p[1], p[2]);
   const char sep = neg ? d.chr( "/ ") : d.chr( "/ -");
   const std::string sp( 1, sep);
   std::string s = f[p[0]] + sp + f[p[1]] + sp + f[p[2]];
   long double sec = 0., off = 0.;
   s += maybe_suffix( d, sec, off);
   d.cls( neg ? "negative year" : decimal ? "decimal day" : "day > 12");
   check_parse( d, s, d.real( -1e5, 1e5), fmt, (long double)( dmy_to_day( day, m, y, cal) - 2451545) - .5L + frac + sec / 86400.L + off, 0);
}

PROP( named_months, 500000, 30)
{
   static const int cals[] = { CALENDAR_JULIAN_GREGORIAN, CALENDAR_GREGORIAN, CALENDAR_JULIAN };
   const int cal = cals[d.raw( 2)];
   const int fmt = cal | orders[d.raw( 3)];
   const int kind = (int)d.raw( 3);       /* 0 = large years,  1 = small ones,  2 = BC,  3 = AD */
   const long num = (kind == 1 || kind == 2) ? d.ival( 1, 32) : d.ival( 33, 9999);
   const long n = (kind == 2 && d.flip( )) ? d.ival( 33, 4000) : num;
   const long y = (kind == 2 ? 1 - n : n);
   const int m = (int)d.ival( 1, 12);
   const int day = (int)d.ival( 1, days_in_month( m, y, cal));
   if( y == 1582 && m == 10)
      { d.nontrivial( false); return; }
   const std::string ys = pbt::strf( "%ld", n), ds = pbt::strf( "%d", day), ms = month_text( d, m);
   const bool year_first = (fmt & FULL_CTIME_YEAR_FIRST) != 0;
   const char sep = d.chr( " -/");
   const std::string sp( 1, sep);
   std::string s;
   if( n > 32)
      switch( d.raw( 5))
         {
         case 0: s = ds + sp + ms + sp + ys; break;
         case 1: s = ms + sp + ds + sp + ys; break;
         case 2: s = ys + sp + ms + sp + ds; break;
         case 3: s = ys + sp + ds + sp + ms; break;
         case 4: s = ds + sp + ys + sp + ms; break;
         default: s = ms + sp + ys + sp + ds; break;
         }
   else        /* small year:  position tells */
      switch( d.raw( 2))
         {
         case 0: s = ms + sp + ds + sp + ys; break;
         case 1: s = ys + sp + ds + sp + ms; break;
         default: s = year_first ? ys + sp + ms + sp + ds : ds + sp + ms + sp + ys; break;
         }
   if( sep == ' ' && d.rare( 3) && s.size( ) < 20)
      {           /* spaces between letters and digits may be left out */
      std::string t;
      for( size_t i = 0; i < s.size( ); i++)
         if( s[i] != ' ' || !i || (isdigit( s[i - 1]) && isdigit( s[i + 1])))
            t += s[i];
      s = t;
      }
   if( kind == 2) s += d.flip( ) ? " BC" : " b.c.";
   if( kind == 3) s += d.flip( ) ? " AD" : " a.d.";
   long double sec = 0., off = 0.;
   s += maybe_suffix( d, sec, off);
   d.cls( kind == 0 ? "year" : kind == 1 ? "small year" : kind == 2 ? "BC" : "AD");
   check_parse( d, s, d.real( -1e5, 1e5), fmt, (long double)( dmy_to_day( day, m, y, cal) - 2451545) - .5L + sec / 86400.L + off, 0);
}

PROP( special_notations, 500000, 30)
{
   const int cal = CALENDAR_JULIAN_GREGORIAN;
   const int fmt = cal | orders[d.raw( 3)];
   const int kind = (int)d.raw( 8);
   std::string s;
   long double want = 0.;
   int ut = 0;
   bool ok_offset = true, ok_time = false;
   const long y = d.ival( 1600, 9999);
   const int m = (int)d.ival( 1, 12);
   const int day = (int)d.ival( 1, days_in_month( m, y, cal));
   const long double midnight = (long double)( dmy_to_day( day, m, y, cal) - 2451545) - .5L;
   const long num = (long)d.raw( 999999);
   const long double frac = (long double)num / 1e6L;
   static const char *names[] = { "FITS", "YYYYMMDD", "YYMMDD", "JD", "bare JD", "MJD", "GPS", "unix", "day of year" };
   d.cls( names[kind]);
   switch( kind)
      {
      case 0:
         {
         const long yy = d.ival( 0, 9999);
         const int dd = (int)d.ival( 1, days_in_month( m, yy, cal));
         const int h = (int)d.raw( 23), mi = (int)d.raw( 59), se = (int)d.raw( 59);
         if( yy == 1582 && m == 10)
            { d.nontrivial( false); return; }
         s = pbt::strf( "%04ld-%02d-%02dT%02d:%02d:%02d", yy, m, dd, h, mi, se);
         want = (long double)( dmy_to_day( dd, m, yy, cal) - 2451545) - .5L + (long double)( (h * 60 + mi) * 60 + se) / 86400.L;
         if( d.flip( ))
            {
            s += pbt::strf( ".%06ld", num);
            want += frac / 86400.L;
            }
         break;
         }
      case 1:
         s = pbt::strf( "%04ld%02d%02d", y, m, day);
         want = midnight;
         if( d.flip( ))
            {
            s += pbt::strf( ".%06ld", num);
            want += frac;
            }
         else
            ok_time = true;
         break;
      case 2:
         {
         const long y2 = d.ival( 1940, 2039);
         const int dd = (int)d.ival( 1, days_in_month( m, y2, cal));
         s = pbt::strf( "%02ld%02d%02d", y2 % 100, m, dd);
         want = (long double)( dmy_to_day( dd, m, y2, cal) - 2451545) - .5L;
         ok_time = true;
         break;
         }
      case 3:
         {
         const long n = d.ival( -900000, 9999999);
         static const char *pre[] = { "JD ", "jd", "J", "j ", "Jd " };
         if( n <= 0)
            { d.nontrivial( false); return; }
         s = pre[d.raw( 4)] + pbt::strf( "%ld.%06ld", n, num);
         want = (long double)( n - 2451545) + frac;
         ut = 1;
         break;
         }
      case 4:
         {
         const long n = d.ival( 1000000, 9999999);
         s = pbt::strf( "%ld", n);
         want = (long double)( n - 2451545);
         if( d.flip( ))
            {
            s += pbt::strf( ".%06ld", num);
            want += frac;
            }
         ut = 1;
         break;
         }
      case 5:
         {
         const long n = d.ival( -500000, 500000);
         s = (d.flip( ) ? "MJD " : "mjd") + pbt::strf( "%ld", n);
         want = (long double)n - 51544.5L;
         if( n > 0 && d.flip( ))
            {
            s += pbt::strf( ".%06ld", num);
            want += frac;
            }
         ut = 1;
         break;
         }
      case 6:
         {
         const long wk = (long)d.raw( 9999), dow = (long)d.raw( 6);
         s = (d.flip( ) ? "gps " : "GPS") + pbt::strf( "%04ld%ld", wk, dow);
         want = 2444244.5L - 2451545.L + (long double)( wk * 7 + dow);
         break;
         }
      case 7:
         {
         const long n = d.ival( 1, 4000000000L);
         s = (d.flip( ) ? "unix " : "UNIX") + pbt::strf( "%ld", n);
         want = 2440587.5L - 2451545.L + (long double)n / 86400.L;
         break;
         }
      default:
         {
         const long doy = d.ival( 1, 365);
         const bool dec = d.flip( );
         const std::string ds = dec ? pbt::strf( "%ld.%06ld", doy, num) : pbt::strf( "%ld", doy), ys = pbt::strf( "%ld", y);
         const char *sep = d.flip( ) ? "/" : " ";
         s = d.flip( ) ? ys + sep + ds : ds + sep + ys;
         want = (long double)( dmy_to_day( 1, 1, y, cal) - 2451545) - .5L + (long double)( doy - 1) + (dec ? frac : 0.L);
         ok_time = !dec;
         break;
         }
      }
   long double sec = 0., off = 0.;
   if( ok_time && d.flip( ))
      s += " " + time_text( d, sec);
   if( ok_offset)
      for( int k = 0; k < 2 && d.rare( 3); k++)
         s += " " + offset_text( d, off);
   if( d.rare( 6)) s = "  " + s;
   if( d.rare( 6)) s += " ";
   check_parse( d, s, d.real( -1e5, 1e5), fmt, want + sec / 86400.L + off, ut);
}

            /* partial inputs are completed from the current time */
PROP( partial_inputs, 500000, 30)
{
   const int cal = CALENDAR_JULIAN_GREGORIAN;
   const int fmt = cal | orders[d.raw( 3)];
   const long iy = d.ival( 1583, 2400);
   const int im = (int)d.ival( 1, 12), id = (int)d.ival( 1, 28);
   const long isec = d.ival( 0, 86399);
   const long double idate = (long double)( dmy_to_day( id, im, iy, cal) - 2451545) - .5L;
   const long double init = idate + ((long double)isec + .25L) / 86400.L;
   std::string s;
   long double want, sec = 0., off = 0.;
   const int kind = (int)d.raw( 9);
   static const char *names[] = { "time", ":mm:ss", "offset", "day", "month", "day month", "year", "month day keeping time", "weekday", "day offset" };
   d.cls( names[kind]);
   static const char *dows[] = { "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday" };
   switch( kind)
      {
      case 0:
         s = time_text( d, sec);
         want = idate + sec / 86400.L;
         break;
      case 1:
         {
         const int mi = (int)d.raw( 59), se = (int)d.raw( 59);
         s = pbt::strf( ":%02d:%02d", mi, se);
         want = idate + (long double)( isec / 3600 * 3600 + mi * 60 + se) / 86400.L;
         break;
         }
      case 2:
         s = offset_text( d, off);
         while( d.rare( 3))
            s += (d.flip( ) ? " " : "") + offset_text( d, off);
         want = init + off;
         break;
      case 3:
         {
         const int day = (int)d.ival( 1, 28);
         s = pbt::strf( d.flip( ) ? "%d" : "%02d", day);
         want = (long double)( dmy_to_day( day, im, iy, cal) - 2451545) - .5L;
         if( d.flip( ))
            {
            s += " " + time_text( d, sec);
            want += sec / 86400.L;
            }
         break;
         }
      case 4:
         {
         const int m = (int)d.ival( 1, 12);
         s = month_text( d, m);
         want = (long double)( dmy_to_day( id, m, iy, cal) - 2451545) - .5L;
         break;
         }
      case 5:
         {
         const int m = (int)d.ival( 1, 12), day = (int)d.ival( 1, days_in_month( m, iy, cal));
         const std::string mt = month_text( d, m), dt = pbt::strf( "%d", day);
         s = d.flip( ) ? mt + " " + dt : dt + (d.flip( ) ? "-" : " ") + mt;
         want = (long double)( dmy_to_day( day, m, iy, cal) - 2451545) - .5L;
         if( d.flip( ))
            {
            s += " " + time_text( d, sec);
            want += sec / 86400.L;
            }
         break;
         }
      case 6:
         {
         const long y = d.ival( 1583, 9999);
         s = pbt::strf( "%ld", y);
         want = (long double)( dmy_to_day( 1, 1, y, cal) - 2451545) - .5L;
         break;
         }
      case 7:
         {
         const int m = (int)d.ival( 1, 12), day = (int)d.ival( 1, days_in_month( m, iy, cal));
         s = month_text( d, m) + pbt::strf( " %d :", day);
         want = (long double)( dmy_to_day( day, m, iy, cal) - 2451545) - .5L + init - idate;
         break;
         }
      case 8:
         {
         const int dow = (int)d.raw( 6);
         s = dows[dow];
         s = s.substr( 0, 3 + (size_t)d.raw( s.size( ) - 3));
         want = idate;
         while( ((long)floorl( want + .5L) + 2451545 + 1) % 7 != dow)
            want += 1.L;
         if( want > idate + 3.5L)
            want -= 7.L;
         break;
         }
      default:
         {
         const long n = 1 + (long)d.raw( 99999);
         const bool neg = d.flip( );
         s = pbt::strf( "%c%ld.%02ld", neg ? '-' : '+', n / 100, n % 100);
         want = init + (neg ? -1.L : 1.L) * (long double)n / 100.L;
         break;
         }
      }
   check_parse( d, s, init, fmt, want, 0);
}

            /* text that names no time is reported and leaves the time alone */
PROP( unparseable, 100000, 30)
{
   const long double init = d.real( -1e5, 1e5);
   std::string s;
   if( d.flip( ))
      s = d.str( "zxwvqg", 1, 12);
   else
      s = std::string( 80 + d.raw( 60), '1');
   int is_ut = 99;
   d.note( "'%s'", s.c_str( ));
   const long double got = get_time_from_stringl( init, s.c_str( ), 0, &is_ut);
   if( s[0] == 'w' && s.size( ) < 3)          /* "w..." is an abbreviation of Wednesday */
      { d.nontrivial( false); return; }
   REQUIRE( is_ut < 0, "flag is %d", is_ut);
   REQUIRE( got == init, "time changed from %.9Lf to %.9Lf", init, got);
}

            /* lunar phases */
static double meeus_phase( double k, int phase)
{
   const double T = k / 1236.85, E = 1. - .002516 * T, r = 3.14159265358979323846 / 180.;
   const double M = r * (2.5534 + 29.10535670 * k), A = r * (201.5643 + 385.81693528 * k + .0107582 * T * T);
   const double F = r * (160.7108 + 390.67050284 * k - .0016118 * T * T), O = r * (124.7746 - 1.56375588 * k);
   double c;
   if( phase == 0 || phase == 2)
      {
      static const double t[2][9] = { { -.40720, .17241, .01608, .01039, .00739, -.00514, .00208, -.00111, -.00057 },
                                      { -.40614, .17302, .01614, .01043, .00734, -.00515, .00209, -.00111, -.00057 }};
      const double *a = t[phase / 2];
      c = a[0] * sin( A) + a[1] * E * sin( M) + a[2] * sin( 2 * A) + a[3] * sin( 2 * F) + a[4] * E * sin( A - M) + a[5] * E * sin( A + M)
          + a[6] * E * E * sin( 2 * M) + a[7] * sin( A - 2 * F) + a[8] * sin( A + 2 * F)
          + .00056 * E * sin( 2 * A + M) - .00042 * sin( 3 * A) + .00042 * E * sin( M + 2 * F) - .00017 * sin( O);
      }
   else
      {
      c = -.62801 * sin( A) + .17172 * E * sin( M) - .01183 * E * sin( A + M) + .00862 * sin( 2 * A) + .00804 * sin( 2 * F)
          + .00454 * E * sin( A - M) + .00204 * E * E * sin( 2 * M) - .00180 * sin( A - 2 * F) - .00070 * sin( A + 2 * F)
          - .00040 * sin( 3 * A) - .00034 * E * sin( 2 * A - M) + .00032 * E * sin( M + 2 * F) - .00017 * sin( O);
      const double W = .00306 - .00038 * E * cos( M) + .00026 * cos( A);
      c += (phase == 1 ? W : -W);
      }
   return( 2451550.09766 - 2451545. + 29.530588861 * k + .00015437 * T * T + c);
}

PROP( lunar_phases, 200000, 30)
{
   static const char *txt[] = { "nm", "1q", "fm", "3q" };
   const int phase = (int)d.raw( 3);
   const long y = d.ival( 1600, 2400);
   const int m = (int)d.ival( 1, 12), day = (int)d.ival( 1, 28);
   const long double date = (long double)( dmy_to_day( day, m, y, CALENDAR_GREGORIAN) - 2451545) - .5L;
   std::string s = pbt::strf( "%ld %s %d %s", y, full_names[m - 1], day, txt[phase]);
   long double off = 0.;
   if( d.rare( 3)) s += " " + offset_text( d, off);
   int is_ut = 99;
   d.note( "'%s'", s.c_str( ));
   const long double got = get_time_from_stringl( 0., s.c_str( ), FULL_CTIME_YMD, &is_ut) - off;
   const double k = floor( ((double)got - 5.09766) / 29.530588861 - phase * .25 + .5) + phase * .25;
   const double T = k / 1236.85;       /* the terms left out,  of which the largest grow with time from 2000 */
   REQUIRE( fabs( (double)got - meeus_phase( k, phase)) < .0022 + .0005 * fabs( T) + .0003 * T * T, "time %.5Lf, the phase is at %.5f", got, meeus_phase( k, phase));
   REQUIRE( fabsl( got - date) < 15.8L, "%.2Lf days from the date given", got - date);
   REQUIRE( is_ut == 1, "time-scale flag %d", is_ut);
   const long double direct = find_nearest_lunar_phase_time( phase, date);
   REQUIRE( fabsl( direct - got) < 1e-7L, "direct call gives %.7Lf", direct);
}

            /* the terms left out are small each:  over many phases their mean square is known, */
            /* and far below that of a wrong term too small to exceed the greatest sum of them  */
PROP( lunar_phases_rms, 2000, 30)
{
   const int phase = (int)d.raw( 3), n = 400;
   const double k0 = (double)d.ival( -600, 200);
   double sum = 0., sum2 = 0.;
   for( int i = 0; i < n; i++)
      {
      const double k = k0 + i + phase * .25;
      const long double t = 5.09766L + 29.530588861L * (long double)k + (long double)(d.unit( ) - .5) * 20.;
      const double diff = (double)find_nearest_lunar_phase_time( phase, t) - meeus_phase( k, phase);
      sum += diff;
      sum2 += diff * diff;
      }
   d.note( "phase %d, %d lunations from %g: mean %.5f rms %.5f", phase, n, k0, sum / n, sqrt( sum2 / n));
   REQUIRE( sqrt( sum2 / n) < .00078, "phase %d, %d lunations from %g: differences of %.5f rms from the full series, where the terms left out add to .0006", phase, n, k0, sqrt( sum2 / n));
   REQUIRE( fabs( sum / n) < .0003, "phase %d, %d lunations from %g: mean difference %.5f", phase, n, k0, sum / n);
}
