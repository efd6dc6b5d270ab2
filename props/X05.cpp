// flavor: addr
// extra: mpcorb.cpp
/* No text makes a parser run outside its buffers */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <csetjmp>
#include <ctime>
#include <unistd.h>
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"
#include "date.h"
#include "comets.h"
#include "mpc_func.h"
#include "pbt.h"

long extract_mpcorb_dat( ELEMENTS *elem, const char *buff);
long extract_astorb_dat( ELEMENTS *elem, const char *buff);
double quick_strtod( const char *ibuff, const char **endptr);
double quick_atof( const char *ibuff);
void remove_insignificant_digits( char *tbuff);

PROPERTY( "X05", "for each of 21 parsing functions: valid examples of its input, tokens of them strung together, and either cut, spliced, repeated, padded or with bytes of any value put in, in memory of exactly their size (fixed-column records of the shortest length accepted or more), with output buffers of the size documented; non-trivial = the text isn't a valid example",
   "address sanitizer on exact-size buffers; outputs terminated within their documented size, the text unchanged, and results the same when run again on other stack contents; decimal numbers as strtod reads them",
   "texts without NUL bytes; deliberate fail-stop on overlong text (snprintf_err, assert) is accepted; SOF records at least as long as their header")

static sigjmp_buf armed_jump;
static bool armed = false;
extern "C" void __assert_fail( const char *expr, const char *file, unsigned line, const char *func) throw( )
{
   if( armed) { armed = false; siglongjmp( armed_jump, 1); }
   fprintf( stderr, "%s:%u: %s: Assertion '%s' failed\n", file, line, func, expr);
   abort( );
}

extern "C" void exit( int code) throw( )
{
   if( armed) { armed = false; siglongjmp( armed_jump, 1); }
   fflush( NULL);
   _exit( code);
}

               /* 'now' is always the same */
extern "C" time_t time( time_t *t) throw( )
{
   if( t)
      *t = 1600000000;
   return( 1600000000);
}

enum target { GET_TIME, GET_TIMEL, UNPACK, UNALIGNED, PACK, REPORT_DATE, REPORT_RADEC, RA, DEC, CODE, XXX, LATLON, SOF, MPCORB, ASTORB,
              YYYYMMDD, MUTANT, VALID_CODE, NET, DELTA_T, STRTOD, N_TARGETS };
static const char *target_names[N_TARGETS] = { "get_time_from_string", "get_time_from_stringl", "unpack_mpc_desig", "unpack_unaligned_mpc_desig",
      "create_mpc_packed_desig", "extract_date_from_mpc_report", "get_ra_dec_from_mpc_report", "get_ra_from_string", "get_dec_from_string",
      "get_mpc_code_info", "get_xxx_location_info", "get_lat_lon_info", "extract_sof_data", "extract_mpcorb_dat", "extract_astorb_dat",
      "extract_yyyymmdd_to_jd", "get_mutant_hex_value", "is_valid_mpc_code", "net_name_to_byte_code", "reset_td_minus_dt_string", "quick_strtod" };

static const char *obs_line[] = {
   "     K14A00A  C2014 01 01.12345 12 34 56.78 -12 34 56.7          18.2 VrAAAAA703",
   "00433         R1975 01 21.375694 12 34 56.78 +12 34 56.7                      251",
   "0073P      ac S2020 03 04.12345 12 34 56.78 -12 34 56.7          18.2 VrAAAAAC57",
   "     K130213  CK130213:032353605123456789012-12.3456789          18.2 VrAAAAA703",
   "~0000         C2456336.641592653123.45678901+12 34.5678          18.2 VrAAAAA703",
   "     K14A00A  CM056336.641592653 12 34.56    -12 34               18.2 VrAAAAA703",
   "     K14A00A  s2020 03 04.12345 1 + 1234.5678 - 2345.6789 +  123.4567   VrAAAAC57",
   "     K14A00A  s2020 03 04.12345 2 +0.12345678 -0.23456789 +0.00123456   VrAAAAC57" };
static const std::vector<std::string> examples( int t)
{
   std::vector<std::string> o( obs_line, obs_line + 8);
   switch( t)
      {
      case GET_TIME: case GET_TIMEL:
         return { "2020-03-04T12:34:56.789Z", "JD 2451545.5", "MJD 51544.5", "now", "noon", "today", "4 Mar 2020 12:34", "2020.123", "-4711 Jan 1", "+3.5d", "-2h", "1 jul 1999 bc", "y2k+3", "JD2451545 - 3 weeks",
                   "2020/3/4 1:2:3", "Tue 3 Mar 2020", "K20C04.5", "20200304T123456", "3/4/20", "2020 3 4.5678", "full moon", "2020-064", "GPS 2100 3", "unix 123456789", "j2000", "12:34:56 2020 mar 4" };
      case UNPACK: case UNALIGNED:
         return { "     K14A00A", "00433       ", "0073P     ac", "~0000       ", "J013S       ", "    SK03J010", "     PLS2040", "    CK14A010", "U4330K06SL7X", "     _QC0aEM", "2012-123ABC ", "$Something  ", "    PK14A01b", "A0001       ", "0001I       " };
      case PACK:
         return { "2014 AA", "(433)", "433", "73P-AC", "Jupiter XIII", "S/2003 J 1", "2040 P-L", "C/2014 A1", "2014 AA619", "2014 AA15500", "P/2014 A1-B", "Uranus 24", "2012-123ABC", "1I", "(620000)", "15396335", "C/1995 O1", "D/1993 F2-AA", "Saturn DCCXLVIII", "Something odd 23" };
      case RA:
         return { "12 34 56.78", "12h34m56.78s", "123.456", "12:34:56", "12.3456h", "0", "23 59.99", "359 59 59" };
      case DEC:
         return { "-12 34 56.78", "+12d34'56.78\"", "-23.456", "N12 34", "S 12.5", "-0 00 01", "90" };
      case CODE:
         return { "703 249.26736 0.845315 +0.533213 Catalina Sky Survey", "000   0.0000 0.62411 +0.77873 Greenwich", "Z99! -70.7366833 -30.2406777 2722.0               Cerro Somewhere", "abcd!19 13 33.1 @4                                Mars base",
                   "XXX! 0191333.1 -0453025.5 1234.5               Roving   @10      ", "250                             Hubble Space Telescope", "C57                           TESS", "SFL! 0 0 0 @9001                               L1      " };
      case XXX:
         return { "COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth", "COM Long. 0.5 W, Lat. 45.25 S, Alt. -10m", "COM Long. 12 34.5 E, Lat. 1 2 3.4 N, Alt. 3ft" };
      case LATLON:
         return { "n44.01, W69.9", "44 01 13.2 N 69 54 1.7W", "E223.456,s56 20 23.3, Alt. 1700m", "w 69.91, n 44.012, 1700ft", "44n", "44.5 n 69.3", "12 34 56" };
      case SOF:
         return { "2014 AA     |20140101.0 |1.234567|0.1234|12.345|123.456|234.567|20140102|18.2|0.15|0.50|", "C/1995 O1   |19970401.13|0.914142|0.9950|89.430|282.470|130.590|19970401|-0.8|0.15|0.50 ", "            |           |        |      |      |       |       |        |    |    |    " };
      case MPCORB:
         return { "00001    3.34  0.15 K239D  17.21569   73.47045   80.26013   10.58634  0.0788175  0.21411523   2.7670463  0 E2023-F87  7283 123 1801-2023 0.65 M-v 30k Pan        0000      (1) Ceres                   20230321" };
      case ASTORB:
         return { "     1 Ceres              E. Bowell         3.34  0.15 0.72 848.4 G?      0   0   0   0   0   0 56959 6780 20230913  17.215690  73.470450  80.260130 10.586340 0.07881750   2.76704630 20230321 2.1E-02  1.1E-04 20230321 2.6E-02 20230913 3.1E-02 20230913 3.1E-02 20230913" };
      case YYYYMMDD:
         return { "20140101", "20140101.5", "  201401", "20141399.25", "99999999", "-2014010" };
      case MUTANT: case VALID_CODE:
         return { "703", "0Az9", "zzzzz", "C57", "   ", "{12" };
      case NET:
         return { "Gaia DR1.0", "Gaia-DR2", "USNO-B1", "UCAC 4", "2MASS", "Gaia1", "drdrdr", ".0.0.0-- " };
      case DELTA_T:
         return { "-10000,948:2715.6,573.36,46.5;948,1620:50.6,67.5,22.5", "1800,1900:o5,3.2,2.5;1900,2000:p12,3,4,5", "-50,500:10583.6,-1014.41,33.78311,-5.952053;" };
      case STRTOD:
         return { "3.14159", "-0.5", "+17", " 12345678901234", ".5", "5.", "-.25x", "1e5", "  00012.500 ", "." };
      default:
         return( o);
      }
}

static std::string make_text( pbt::Draw &d, int t, size_t min_len, bool *plain)
{
   const std::vector<std::string> ex = examples( t);
   std::string s = d.pick( ex);
   *plain = true;
   if( d.rare( 8))
      {
      s.clear( );
      for( int i = d.ival( 0, 6); i > 0; i--)
         {
         const std::string &e = d.pick( ex);
         const size_t a = d.raw( e.size( ));
         s += e.substr( a, 1 + d.raw( 8));
         }
      *plain = false;
      }
   static const char alphabet[] = " 0123456789.-+:,;/()@!'\"|~_$ABCMPSXZabhmsnewz*%^&#\t\n\r\x01\x7f\x80\xff";
   for( int i = (d.rare( 4) ? 0 : d.ival( 1, 5)); i > 0; i--)
      {
      *plain = false;
      const size_t p = d.raw( s.size( ));
      switch( d.raw( 7))
         {
         case 0: s.erase( p, 1 + d.raw( 6)); break;
         case 1: if( p < s.size( )) s[p] = (char)d.ival( 1, 255); break;
         case 2: s.insert( p, 1, alphabet[d.raw( sizeof( alphabet) - 2)]); break;
         case 3: if( p < s.size( )) s[p] = alphabet[d.raw( sizeof( alphabet) - 2)]; break;
         case 4: s.resize( p); break;
         case 5: s.insert( p, std::string( 1 + d.raw( 30), p < s.size( ) ? s[p] : '9')); break;
         case 6: s.insert( p, std::string( 1 + d.raw( 120), alphabet[d.raw( sizeof( alphabet) - 2)])); break;
         default: { const std::string &e = d.pick( ex); s.insert( p, e.substr( d.raw( e.size( )))); } break;
         }
      }
   for( char &c : s)
      if( !c)
         c = ' ';
   if( s.size( ) > 2000)
      s.resize( 2000);
   if( s.size( ) < min_len)
      s.resize( min_len, ' ');
   return( s);
}

static std::string sof_header = "Name        |Tp         |q       |e     |i     |Om     |om     |Te      |H   |G   |rms  ";

               /* put the arguments' stack space in a known state,  so that use of anything
               not initialized gives different results in the two runs */
static void __attribute__((noinline)) dirty_stack( int c)
{
   volatile char buff[12000];
   for( size_t i = 0; i < sizeof( buff); i++)
      buff[i] = (char)c;
}

struct Result { std::string text; bool stopped; };

static std::string bits( double x) { return( std::isnan( x) ? std::string( "nan ") : pbt::strf( "%.17g ", x)); }

static void __attribute__((noinline)) run( int t, const char *s, size_t len, int variant, std::string *r)
{
   switch( t)
      {
      case GET_TIME:
         {
         int is_ut = 0;
         const double x = get_time_from_string( 2451545. + variant, s, FULL_CTIME_YMD | CALENDAR_JULIAN_GREGORIAN | (variant & 1 ? FULL_CTIME_MDY : 0), &is_ut);
         *r = bits( x) + pbt::strf( "%d", is_ut);
         }
         break;
      case GET_TIMEL:
         {
         int is_ut = 0;
         const long double x = get_time_from_stringl( variant, s, FULL_CTIME_YMD | CALENDAR_GREGORIAN, &is_ut);
         *r = bits( (double)x) + pbt::strf( "%d", is_ut);
         }
         break;
      case UNPACK: case UNALIGNED:
         {
         const size_t osize = 24;
         char *o = (char *)malloc( osize);
         memset( o, 'x', osize);
         const int rval = (t == UNPACK ? unpack_mpc_desig( o, s) : unpack_unaligned_mpc_desig( o, s));
         if( !memchr( o, 0, osize))
            *r = "!output not terminated";
         else
            *r = pbt::strf( "%d ", rval) + o;
         free( o);
         const int rval2 = (t == UNPACK ? unpack_mpc_desig( NULL, s) : unpack_unaligned_mpc_desig( NULL, s));
         if( (*r)[0] != '!' && rval != rval2)
            *r = pbt::strf( "!return values with (%d) and without (%d) an output buffer differ", rval, rval2);
         }
         break;
      case PACK:
         {
         const size_t osize = 13;
         char *o = (char *)malloc( osize);
         memset( o, 'x', osize);
         const int rval = create_mpc_packed_desig( o, s);
         if( !memchr( o, 0, osize))
            *r = "!output not terminated";
         else
            *r = pbt::strf( "%d ", rval) + o;
         free( o);
         }
         break;
      case REPORT_DATE:
         {
         unsigned format = 0;
         const double x = extract_date_from_mpc_report( s, &format);
         *r = bits( x) + pbt::strf( "%u", format);
         if( bits( extract_date_from_mpc_report( s, NULL)) != bits( x))
            *r = "!date depends on asking for the format";
         }
         break;
      case REPORT_RADEC:
         {
         int f1 = 0, f2 = 0;
         double a = 0, b = 0, p1 = 0, p2 = 0;
         const int rval = get_ra_dec_from_mpc_report( s, &f1, &a, &p1, &f2, &b, &p2);
         *r = pbt::strf( "%d %d %d ", rval, f1, f2) + bits( a) + bits( b) + bits( p1) + bits( p2);
         }
         break;
      case RA: case DEC:
         {
         int n = 0;
         const double x = (t == RA ? get_ra_from_string( s, &n) : get_dec_from_string( s, &n));
         *r = bits( x) + pbt::strf( "%d", n);
         if( n > (int)len)
            *r = pbt::strf( "!%d bytes read out of %d", n, (int)len);
         }
         break;
      case CODE: case XXX: case LATLON:
         {
         mpc_code_t c;
         memset( &c, 0, sizeof( c));
         const int rval = (t == CODE ? get_mpc_code_info( &c, s) : t == XXX ? get_xxx_location_info( &c, s) : get_lat_lon_info( &c, s));
         *r = pbt::strf( "%d %d ", rval, c.planet) + bits( c.lat) + bits( c.lon) + bits( c.alt) + bits( c.rho_cos_phi) + bits( c.rho_sin_phi);
         if( t == CODE || c.name)
            *r += c.name;
         if( !memchr( c.code, 0, sizeof( c.code)))
            *r = "!code not terminated";
         else
            *r += c.code;
         }
         break;
      case SOF:
         {
         ELEMENTS e;
         double extra[4];
         const int rval = extract_sof_data_ex( &e, s, sof_header.c_str( ), variant & 1 ? extra : NULL);
         *r = pbt::strf( "%d ", rval);
         if( !rval)
            *r += bits( e.q) + bits( e.ecc) + bits( e.perih_time) + bits( e.epoch) + bits( e.incl) + bits( e.abs_mag);
         }
         break;
      case MPCORB: case ASTORB:
         {
         ELEMENTS e;
         memset( &e, 0, sizeof( e));
         const long rval = (t == MPCORB ? extract_mpcorb_dat( &e, s) : extract_astorb_dat( &e, s));
         *r = pbt::strf( "%ld ", rval) + bits( e.q) + bits( e.ecc) + bits( e.epoch) + bits( e.abs_mag) + bits( e.slope_param);
         }
         break;
      case YYYYMMDD:
         *r = bits( extract_yyyymmdd_to_jd( s));
         break;
      case MUTANT:
         *r = pbt::strf( "%d", get_mutant_hex_value( s, len > 5 ? 5 : len));
         break;
      case VALID_CODE:
         *r = pbt::strf( "%d", (int)is_valid_mpc_code( s));
         break;
      case NET:
         *r = std::string( 1, net_name_to_byte_code( s));
         break;
      case DELTA_T:
         reset_td_minus_dt_string( s);
         *r = bits( td_minus_ut( 2451545. - 36525. * (variant % 40))) + bits( td_minus_ut( 2451545. + 3652. * variant));
         reset_td_minus_dt_string( NULL);
         break;
      case STRTOD:
         {
         const char *end = NULL;
         const double x = quick_strtod( s, &end);
         *r = bits( x) + pbt::strf( "%d", (int)( end - s));
         if( end < s || end > s + len)
            *r = "!end of number outside the text";
         else if( bits( quick_atof( s)) != bits( x))
            *r = "!quick_atof and quick_strtod differ";
         }
         break;
      }
}

PROP( parsers, 1000000, 12)
{
   const int t = d.ival( 0, N_TARGETS - 1), variant = d.ival( 0, 60);
   static const size_t min_len[N_TARGETS] = { 0, 0, 12, 0, 0, 0, 80, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0 };
   bool plain;
   std::string text = make_text( d, t, t == SOF ? sof_header.size( ) : min_len[t], &plain);
   d.note( "%s( %s), variant %d", target_names[t], pbt::quoted( text).c_str( ), variant);
   d.cls( target_names[t]);
   d.nontrivial( !plain);
   Result res[2];
   std::string err;
   for( int pass = 0; pass < 2; pass++)
      {
      char *s = (char *)malloc( text.size( ) + 1);
      memcpy( s, text.c_str( ), text.size( ) + 1);
      FILE *volatile saved = stdout;
      static FILE *null_file = fopen( "/dev/null", "w");
      FILE *volatile saved_err = stderr;
      static std::string r;
      r = "stopped";
      stdout = stderr = null_file;
      dirty_stack( pass ? 0x31 : 0xcd);
      armed = true;
      res[pass].stopped = true;
      if( !sigsetjmp( armed_jump, 0))
         {
         run( t, s, text.size( ), variant, &r);
         armed = false;
         res[pass].stopped = false;
         }
      stdout = saved;
      stderr = saved_err;
      res[pass].text = r;
      if( memcmp( s, text.c_str( ), text.size( ) + 1))
         err = "the text was changed";
      free( s);
      }
   if( res[0].stopped)
      d.cls( "fail-stop");
   REQUIRE( err.empty( ), "%s", err.c_str( ));
   REQUIRE( res[0].text[0] != '!', "%s", res[0].text.c_str( ) + 1);
   REQUIRE( res[0].stopped == res[1].stopped && res[0].text == res[1].text, "the same call gave %s,  then %s", pbt::quoted( res[0].text).c_str( ), pbt::quoted( res[1].text).c_str( ));
}

               /* numbers as documented: spaces,  sign,  digits,  point,  digits */
PROP( numbers, 100000, 20)
{
   std::string s( d.raw( 3), ' ');
   static const char *signs[] = { "", "-", "+" };
   s += signs[d.raw( 2)];
   const int n1 = d.ival( 0, 17), n2 = d.ival( -1, 17);
   for( int i = 0; i < n1; i++)
      s += (char)( '0' + d.raw( 9));
   if( n2 >= 0)
      s += '.';
   for( int i = 0; i < n2; i++)
      s += (char)( '0' + d.raw( 9));
   const size_t number_len = s.size( );
   static const char *tails[] = { "", " ", "x", " 12", "-", ".", "+5", "m", ",3" };
   std::string tail = tails[d.raw( 8)];
   if( tail == "." && n2 < 0)
      tail = " ";
   s += tail;
   d.note( "%s\n", pbt::quoted( s).c_str( ));
   d.nontrivial( n1 + n2 > 1 );
   const bool valid = (n1 > 0 || n2 > 0);
   char *copy = strdup( s.c_str( )), *end1;
   const char *end2 = NULL;
   const double want = (valid ? strtod( copy, &end1) : 0.), got = quick_strtod( copy, &end2);
   const int used = (int)( end2 - copy);
   free( copy);
   if( valid)
      REQUIRE( used == (int)number_len, "%d characters used, rather than %d", used, (int)number_len);
   if( valid)
      REQUIRE( fabs( want - got) <= fabs( want) * 1e-15, "read as %.17g,  instead of %.17g", got, want);
}
