// flavor: plain
/* RA/dec fields of observation records,  angle output and free-form angles */
#include <cctype>
#include <cstdio>
#include "watdefs.h"
#include "mpc_func.h"
#include "pbt.h"

PROPERTY( "O02", "angle fields built from integer counts of their last digit in every documented format, random angles near rounding boundaries, and free-form RA/dec text; non-trivial = all",
   "Formats as listed in the comment above the record parser",
   "a value within 1e-9 of half a unit of the last digit may round either way")

static const double pi = 3.14159265358979323846264338327950288;

static long p10( int n) { long r = 1; while( n-- > 0) r *= 10; return( r); }

            /* units per hour (or degree) of the last digit of a format,  and whether it is in degrees for RA */
struct Fmt { int code; long per; bool deg; };

static Fmt fmt_info( int code)
{
   Fmt f;
   f.code = code;
   f.deg = (code >= 200 && code < 300) || code >= 400;
   if( code < 0) f.per = 60 * p10( -1 - code);
   else if( code < 100) f.per = 3600 * p10( code);
   else if( code < 300) f.per = p10( code % 100);
   else if( code < 400) f.per = 3600 * p10( code - 306);
   else f.per = 3600 * p10( code - 400);
   return( f);
}

static std::string render( const Fmt &f, long units)       /* reference formatter */
{
   const int c = f.code;
   const long whole = units / f.per, rem = units % f.per;
   std::string s = pbt::strf( f.deg ? "%03ld" : "%02ld", whole);
   if( c < 0)
      {
      const long p = p10( -1 - c);
      s += pbt::strf( " %02ld", rem / p);
      if( c < -1) s += pbt::strf( ".%0*ld", -1 - c, rem % p);
      }
   else if( c >= 100 && c < 300)
      {
      s += ".";
      if( c % 100) s += pbt::strf( "%0*ld", c % 100, rem);
      }
   else
      {
      const int n = (c < 100 ? c : (c < 400 ? c - 306 : c - 400));
      const long p = p10( n);
      const char *sep = (c >= 300 && c < 400) ? "" : " ";
      s += pbt::strf( "%s%02ld%s%02ld", sep, rem / (60 * p), sep, (rem / p) % 60);
      if( n) s += pbt::strf( "%s%0*ld", *sep ? "." : "", n, rem % p);
      }
   return( s);
}

static const int ra_formats[] = { 3, 2, 1, 0, -1, -2, -3, -4, -5, -6, -7, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
      200, 201, 202, 203, 204, 205, 206, 207, 208, 307, 308, 309, 310, 311, 312, 400, 401, 402 };
static const int dec_formats[] = { 2, 1, 0, -1, -2, -3, -4, -5, -6, 100, 101, 102, 103, 104, 105, 106, 107, 108, 307, 308, 309, 310, 311 };

static long gen_units( Draw &d, const Fmt &f, long max_whole)
{
   const long lim = max_whole * f.per - 1;
   switch( d.raw( 4))
      {
      case 0: return( d.ival( 0, lim));
      case 1: return( d.ival( 0, std::min( lim, f.per * 2)));           /* near zero */
      case 2: return( std::min( lim, d.ival( 0, max_whole - 1) * f.per + (d.flip( ) ? 0 : f.per - 1)));
      case 3: return( lim - d.ival( 0, std::min( lim, 100L)));
      default: return( (long)d.logreal( 1., (double)lim));
      }
}

PROP( record_fields, 1200000, 30)
{
   const Fmt fr = fmt_info( ra_formats[d.raw( sizeof( ra_formats) / sizeof( int) - 1)]);
   const Fmt fd = fmt_info( dec_formats[d.raw( sizeof( dec_formats) / sizeof( int) - 1)]);
   const long ur = gen_units( d, fr, fr.deg ? 360 : 24), ud = gen_units( d, fd, 90);
   const bool neg = d.flip( );
   std::string l( 80, ' ');
   std::string a = render( fr, ur), b = (neg ? "-" : "+") + render( fd, ud);
   if( fr.code == 400 && d.flip( )) a += ".";
   for( int k = 0; k < 2; k++)         /* minutes and seconds may be blank-padded in the fields with blanks between */
      {
      std::string &t = k ? b : a;
      for( size_t i = 2; i + 2 < t.size( ); i++)
         if( t[i] == ' ' && isdigit( t[i - 1]) && t[i + 1] == '0' && d.rare( 3))
            t[i + 1] = ' ';
      }
   a.resize( 12, ' ');
   b.resize( 12, ' ');
   for( int i = 0; i < 32; i++) l[(size_t)i] = d.rare( 3) ? d.chr( "0123456789 .+-K") : ' ';
   l.replace( 32, 12, a);
   l.replace( 44, 12, b);
   d.note( "'%s%s'", a.c_str( ), b.c_str( ));
   int f1 = -1000, f2 = -1000;
   double ra, dec, p1, p2;
   const int rval = get_ra_dec_from_mpc_report( l.c_str( ), &f1, &ra, &p1, &f2, &dec, &p2);
   REQUIRE( !rval, "returned %d (formats %d %d, expected %d %d)", rval, f1, f2, fr.code, fd.code);
   REQUIRE( f1 == fr.code && f2 == fd.code, "formats %d %d, expected %d %d", f1, f2, fr.code, fd.code);
   const double wra = (double)ur / (double)fr.per * (fr.deg ? pi / 180. : pi / 12.);
   const double wdec = (neg ? -1. : 1.) * (double)ud / (double)fd.per * pi / 180.;
   REQUIRE( fabs( ra - wra) < 3e-15, "RA %.16f, expected %.16f", ra, wra);
   REQUIRE( fabs( dec - wdec) < 3e-15, "dec %.16f, expected %.16f", dec, wdec);
   REQUIRE( ud == 0 || (dec < 0.) == neg, "sign of dec lost");
   const double wp1 = (fr.deg ? 3600. : 54000.) / (double)fr.per, wp2 = 3600. / (double)fd.per;
   REQUIRE( fabs( p1 / wp1 - 1.) < 1e-9 && fabs( p2 / wp2 - 1.) < 1e-9, "precisions %g %g arcsec, expected %g %g", p1, p2, wp1, wp2);
            /* all outputs but the angles are optional */
   double ra2, dec2;
   REQUIRE( !get_ra_dec_from_mpc_report( l.c_str( ), NULL, &ra2, NULL, NULL, &dec2, NULL) && ra2 == ra && dec2 == dec, "depends on optional outputs");
}

PROP( bad_fields, 400000, 30)
{
   std::string l( 80, ' ');
   const bool bad_ra = d.flip( ), bad_dec = d.flip( ) || !bad_ra;
   static const char *bad[] = { "            ", "x2 34 56.7  ", "1  34 56.7  ", "12:34:56.7  ", "12345 6.7   ", "1.234567    " };
   std::string a = bad_ra ? bad[d.raw( 5)] : "12 34 56.78 ", b = bad_dec ? std::string( 1, d.chr( "+-")) + std::string( d.rare( 4) ? "123 45 06.7" : bad[d.raw( 5)]).substr( 0, 11) : "-12 34 56.7 ";
   l.replace( 32, 12, a);
   l.replace( 44, 12, b);
   d.note( "'%s%s'", a.c_str( ), b.c_str( ));
   double ra, dec;
   const int rval = get_ra_dec_from_mpc_report( l.c_str( ), NULL, &ra, NULL, NULL, &dec, NULL);
   REQUIRE( rval == -(bad_ra ? 1 : 0) - (bad_dec ? 2 : 0), "returned %d", rval);
}

static const int out_formats[] = { 3, 2, 1, 0, -1, -2, -3, -4, -5, -6, -7, 4, 5, 6, 7, 8, 9, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109,
      110, 111, 112, 113, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 307, 308, 309, 310, 311, 312, 400, 401, 402 };

PROP( angle_output, 1500000, 30)
{
   const Fmt f = fmt_info( out_formats[d.raw( sizeof( out_formats) / sizeof( int) - 1)]);
   const long max_whole = (f.deg ? 360 : (d.flip( ) ? 24 : 90));
   const long units = gen_units( d, f, max_whole);
   double off = 0.;
   switch( d.raw( 3))
      {
      case 0: break;
      case 1: off = (d.flip( ) ? 1. : -1.) * (.5 - d.logreal( 1e-6, .1)); break;     /* just short of rounding away */
      default: off = d.real( -.499, .499); break;
      }
   if( units == 0 && off < 0.) off = -off;
   const double angle = ((double)units + off) / (double)f.per / (f.deg ? 15. : 1.);     /* RA in degrees : given in hours */
   const double noise = fabs( angle) * 4e-16 * (double)f.per * (f.deg ? 15. : 1.);
   char buff[60];
   memset( buff, '#', sizeof( buff));
   const bool sgn = d.flip( ), neg = sgn && d.flip( );
   if( sgn)
      output_signed_angle_to_buff( buff, neg ? -angle : angle, f.code);
   else
      output_angle_to_buff( buff, angle, f.code);
   REQUIRE( memchr( buff, 0, 40), "unterminated");
   std::string got = buff;
   d.note( "format %d, %s%.17g -> '%s'", f.code, neg ? "-" : "", angle, buff);
   if( fabs( off) + noise > .5 - 1e-7)
      { d.nontrivial( false); return; }
   std::string want = render( f, units);
   const size_t width = std::max( want.size( ), (size_t)12);
   want.resize( width, ' ');
   if( sgn) want = ((neg && angle > 0.) ? "-" : "+") + want;
   REQUIRE( got == want, "expected '%s'", want.c_str( ));
}

            /* written in a record's format,  then read back */
PROP( write_then_read, 800000, 30)
{
   const int fr = ra_formats[d.raw( sizeof( ra_formats) / sizeof( int) - 1)], fd = dec_formats[d.raw( sizeof( dec_formats) / sizeof( int) - 1)];
   const double ra = d.special( 0., 23.99), dec = d.special( -89.9, 89.9);
   char l[100];
   memset( l, ' ', 80);
   char a[60], b[60];
   output_angle_to_buff( a, ra, fr);
   output_signed_angle_to_buff( b, dec, fd);
   d.note( "formats %d %d: '%s' '%s'", fr, fd, a, b);
   REQUIRE( strlen( a) == 12 && (strlen( b) == 12 || (strlen( b) == 13 && b[12] == ' ')), "field lengths %d %d", (int)strlen( a), (int)strlen( b));
   memcpy( l + 32, a, 12);
   memcpy( l + 44, b, 12);
   l[80] = '\0';
   int f1, f2;
   double r1, d1, p1, p2;
   const int rval = get_ra_dec_from_mpc_report( l, &f1, &r1, &p1, &f2, &d1, &p2);
   REQUIRE( !rval && f1 == fr && f2 == fd, "read back: returned %d, formats %d %d", rval, f1, f2);
   REQUIRE( fabs( r1 * 12. / pi - ra) * 54000. < p1 * .5 + 1e-9, "RA %.12f h came back as %.12f (precision %g)", ra, r1 * 12. / pi, p1);
   REQUIRE( fabs( d1 * 180. / pi - dec) * 3600. < p2 * .5 + 1e-9, "dec %.12f came back as %.12f (precision %g)", dec, d1 * 180. / pi, p2);
   output_angle_to_buff( a, r1 * 12. / pi, f1);
   REQUIRE( !memcmp( l + 32, a, 12), "RA rewritten as '%s'", a);
}

            /* free-form angles */
PROP( free_form, 800000, 30)
{
   const int fields = 1 + (int)d.raw( 2), n = (int)d.raw( 11);
   const bool is_dec = d.flip( );
   const long whole = d.ival( 0, is_dec ? 89 : (fields == 1 ? 359 : 23)), mi = d.ival( 0, 59), se = d.ival( 0, 59);
   const long fr = d.ival( 0, p10( n) - 1);
   const double f = (double)fr / (double)p10( n);
   std::string s;
   double val = (double)whole;
   const char *sep[] = { " ", "  " };
   s = pbt::strf( d.flip( ) ? "%02ld" : "%ld", whole);
   if( fields > 1) { s += sep[d.raw( 1)] + pbt::strf( "%02ld", mi); val += (double)mi / 60.; }
   if( fields > 2) { s += sep[d.raw( 1)] + pbt::strf( "%02ld", se); val += (double)se / 3600.; }
   if( n)
      s += pbt::strf( ".%0*ld", n, fr);
   else if( d.rare( 4))
      s += ".";
   val += f / (fields == 1 ? 1. : (fields == 2 ? 60. : 3600.));
   const bool neg = is_dec && d.flip( );
   if( is_dec) s = (neg ? "-" : "+") + s;
   const size_t spaces = d.raw( 2);
   const std::string tail = std::string( spaces, ' ') + (d.flip( ) ? "" : d.str( ",abc+-/x", 1, 6));
   const std::string full = s + tail;
   int nb = -77;
   const double got = is_dec ? get_dec_from_string( full.c_str( ), &nb) : get_ra_from_string( full.c_str( ), &nb);
   d.note( "%s '%s'", is_dec ? "dec" : "RA", full.c_str( ));
   double want = val * pi / 180.;
   if( !is_dec && fields > 1) want *= 15.;
   if( neg) want = -want;
   REQUIRE( fabs( got - want) < 1e-14, "read as %.15f deg, expected %.15f", got * 180. / pi, want * 180. / pi);
   REQUIRE( nb == (int)( s.size( ) + spaces), "%d bytes read, expected %d", nb, (int)( s.size( ) + spaces));
}

PROP( free_form_rejects, 300000, 30)
{
   int nb = -77;
   std::string s;
   const bool is_dec = d.flip( );
   switch( d.raw( 3))
      {
      case 0: s = d.str( "abcxyz,/", 0, 8); if( is_dec && d.flip( )) s = "+" + s; break;
      case 1: s = (is_dec ? "-" : "") + pbt::strf( "%ld %ld %ld", d.ival( 0, is_dec ? 89 : 23), d.ival( 61, 999), d.ival( 0, 59)); break;
      case 2: s = (is_dec ? "+" : "") + pbt::strf( "%ld %ld %ld", d.ival( 0, is_dec ? 89 : 23), d.ival( 0, 59), d.ival( 61, 999)); break;
      default: s = (is_dec ? "+" : "") + pbt::strf( "%.3f", is_dec ? d.real( 90.01, 999.) : d.real( 360.01, 9999.)); break;
      }
   d.note( "%s '%s'", is_dec ? "dec" : "RA", s.c_str( ));
   if( is_dec) get_dec_from_string( s.c_str( ), &nb); else get_ra_from_string( s.c_str( ), &nb);
   REQUIRE( nb == 0, "%d bytes accepted", nb);
}

            /* text replacement */
PROP( search_replace, 400000, 30)
{
   const std::string s = d.str( "aab b", 0, 40), o = d.str( "ab ", 1, 3), n = d.str( "abXY ", 0, 5);
   char buff[400];
   strcpy( buff, s.c_str( ));
   d.note( "'%s': '%s' -> '%s'", s.c_str( ), o.c_str( ), n.c_str( ));
   std::string want;
   int count = 0;
   for( size_t i = 0; i < s.size( ); )
      if( !s.compare( i, o.size( ), o)) { want += n; i += o.size( ); count++; }
      else want += s[i++];
   const int rval = text_search_and_replace( buff, o.c_str( ), n.c_str( ));
   REQUIRE( want == buff && rval == count, "'%s' (%d), expected '%s' (%d)", buff, rval, want.c_str( ), count);
}
