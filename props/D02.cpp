// flavor: plain
/* base-62 numbers,  catalogue codes,  variable star designations */
#include <cctype>
#include <cstdio>
#include "watdefs.h"
#include "mpc_func.h"
#include "afuncs.h"
#include "pbt.h"

PROPERTY( "D02", "integers and digit strings for base 62, all 256 byte codes and spellings of catalogue names, variable-star numbers 1-9999 and near-designations; non-trivial = all",
   "Variable-star order: the list printed in the sources and the usual R..Z, RR..ZZ, AA..QZ, V335... rule")

static const char *b62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

PROP( base62_numbers, 1000000, 30)
{
   const int n = 1 + (int)d.raw( 4);                     /* five digits: up to 62^5 = 916132832 */
   long lim = 1;
   for( int i = 0; i < n; i++) lim *= 62;
   long v = d.flip( ) ? d.ival( 0, lim - 1) : (long)d.logreal( 1., (double)lim) - 1;
   if( d.rare( 4)) { long p = 1; for( int i = (int)d.raw( (uint64_t)n); i; i--) p *= 62; v = p + d.ival( -2, 2); }
   if( v < 0) v = 0;
   d.note( "%ld in %d base-62 digits", v, n);
   char buff[16];
   memset( buff, '#', sizeof( buff));
   const int rem = encode_value_in_mutant_hex( buff + 1, (size_t)n, (int)v);
   std::string want( (size_t)n, '0');
   long r = v;
   for( int i = n; i--; r /= 62) want[(size_t)i] = b62[r % 62];
   REQUIRE( !memcmp( buff + 1, want.c_str( ), (size_t)n), "encoded as '%.*s', expected '%s'", n, buff + 1, want.c_str( ));
   REQUIRE( rem == (int)r, "overflow reported as %d, expected %ld", rem, r);
   REQUIRE( buff[0] == '#' && buff[n + 1] == '#', "wrote outside its field");
   if( !r)
      REQUIRE( get_mutant_hex_value( buff + 1, (size_t)n) == (int)v, "decoded as %d", get_mutant_hex_value( buff + 1, (size_t)n));
}

PROP( base62_decode, 500000, 30)
{
   const int n = 1 + (int)d.raw( 4);
   std::string s;
   for( int i = 0; i < n; i++)
      s += d.rare( 8) ? (char)( 1 + d.raw( 254)) : d.chr( b62);
   d.note( "%s", quoted( s).c_str( ));
   long want = 0;
   for( char c : s)
      {
      const char *t = strchr( b62, c);
      const int v = (t ? (int)( t - b62) : -1);
      REQUIRE( mutant_hex_char_to_int( c) == v, "digit %s has value %d", quoted( std::string( 1, c)).c_str( ), mutant_hex_char_to_int( c));
      want = (t && want >= 0) ? want * 62 + v : -1;
      }
   REQUIRE( get_mutant_hex_value( s.c_str( ), (size_t)n) == want, "value %d, expected %ld", get_mutant_hex_value( s.c_str( ), (size_t)n), want);
   const int i = (int)d.ival( -1000, 1000);
   const char c = int_to_mutant_hex_char( i);
   REQUIRE( c == ((i >= 0 && i < 62) ? b62[i] : '\0'), "digit for %d is %d", i, c);
}

            /* MPC catalogue codes (https://www.minorplanetcenter.net/iau/info/CatalogueCodes.html) */
static const char *codes[] = { "aUSNO-A1", "bUSNO-SA1", "cUSNO-A2", "dUSNO-SA2", "eUCAC-1", "fTycho-1", "gTycho-2", "hGSC-1.0",
   "iGSC-1.1", "jGSC-1.2", "kGSC-2.2", "lACT", "mGSC-ACT", "nSDSS-DR8", "oUSNO-B1", "pPPM", "qUCAC-4", "rUCAC-2", "sUSNO-B2",
   "tPPMXL", "uUCAC-3", "vNOMAD", "wCMC-14", "xHIP-2", "yHIP-1", "AAC", "BSAO 1984", "CSAO", "DAGK 3", "EFK4", "FACRS",
   "GLick Gaspra Catalogue", "HIda93 Catalogue", "IPerth 70", "KYale", "L2MASS", "MGSC-2.3", "NSDSS-DR7", "OSST-RC1", "PMPOSC3",
   "QCMC-15", "RSST-RC4", "SURAT-1", "TURAT-2", "UGaia-DR1", "VGaia-DR2", "WGaia-DR3", "XGaia-EDR3", "YUCAC-5", "ZATLAS-2" };

PROP( catalogue_codes, 600000, 30)
{
   const int n = (int)( sizeof( codes) / sizeof( codes[0]));
   const char *c = codes[d.raw( (uint64_t)n - 1)];
   const char *got = byte_code_to_net_name( *c);
   REQUIRE( got && !strcmp( got, c + 1), "code '%c' is '%s', expected '%s'", *c, got ? got : "(none)", c + 1);
   std::string s;
   const bool keep_dash = d.flip( );
   for( const char *p = c + 1; *p; p++)
      {
      if( (*p == '-' || *p == ' ') && !keep_dash)
         { const char *r[] = { "", " ", "-", "  " }; s += r[d.raw( 3)]; }
      else if( p[0] == 'D' && p[1] == 'R' && d.rare( 3) && p[2] && !strncmp( c + 1, "Gaia", 4))
         p++;
      else
         s += d.flip( ) ? *p : (d.flip( ) ? (char)toupper( *p) : (char)tolower( *p));
      }
   const char last = s.back( );
   if( isdigit( last) && s.find( '.') == std::string::npos && d.rare( 4)) s += ".0";
   d.note( "'%s' is code %c", s.c_str( ), *c);
   const char code = net_name_to_byte_code( s.c_str( ));
   REQUIRE( code == *c, "code '%c'", code);
   std::string junk = s + d.str( "qQzZkK", 1, 100);
   if( d.flip( )) junk = "z" + s;
   const char jc = net_name_to_byte_code( junk.c_str( ));
   REQUIRE( jc == '?', "'%s' was taken to be code '%c'", junk.c_str( ), jc);
   const char b = (char)d.raw( 255);
   const char *nm = byte_code_to_net_name( b);
   const bool known = b && (isalpha( (unsigned char)b) != 0) && (unsigned char)b < 128;
   REQUIRE( (nm != NULL) == known, "byte %d: %s", b, nm ? nm : "(none)");
}

static const std::vector<std::string> &var_list( )
{
   static std::vector<std::string> v;
   if( v.empty( ))
      {
      for( char a = 'R'; a <= 'Z'; a++) v.push_back( std::string( 1, a));
      for( char a = 'R'; a <= 'Z'; a++)
         for( char b = a; b <= 'Z'; b++) v.push_back( std::string( 1, a) + b);
      for( char a = 'A'; a <= 'Q'; a++)
         for( char b = a; b <= 'Z'; b++)
            if( a != 'J' && b != 'J')
               v.push_back( std::string( 1, a) + b);
      for( int i = 335; i <= 9999; i++) v.push_back( pbt::strf( "V%d", i));
      }
   return( v);
}

PROP( variable_stars, 500000, 30)
{
   const auto &v = var_list( );
   const int n = d.flip( ) ? (int)d.ival( 1, 345) : (int)d.ival( 1, 9999);
   char buff[20];
   memset( buff, '#', sizeof( buff));
   make_var_desig( buff, n);
   REQUIRE( memchr( buff, 0, 8), "unterminated");
   d.note( "variable %d = '%s'", n, buff);
   REQUIRE( v[(size_t)n - 1] == buff, "'%s', expected '%s'", buff, v[(size_t)n - 1].c_str( ));
   std::string s = v[(size_t)n - 1];
   if( s.size( ) > 1 && d.flip( )) for( char &c : s) if( d.flip( )) c = (char)tolower( c);
   if( d.rare( 3)) s += " And";
   REQUIRE( decipher_var_desig( s.c_str( )) == n, "'%s' read as %d", s.c_str( ), decipher_var_desig( s.c_str( )));
}

            /* two-letter strings which are not designations,  and Bayer-like one-letter ones */
PROP( not_variables, 300000, 30)
{
   const auto &v = var_list( );
   std::string s = d.str( "ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 2);
   d.note( "'%s'", s.c_str( ));
   const int got = decipher_var_desig( s.c_str( ));
   const auto it = std::find( v.begin( ), v.begin( ) + 334, s);
   if( it != v.begin( ) + 334)
      REQUIRE( got == (int)( it - v.begin( )) + 1, "read as %d", got);
   else if( s.size( ) == 2)
      REQUIRE( got < 1, "is no designation, but was read as %d", got);
   else
      REQUIRE( got >= 9200, "single letter before R read as %d", got);
}
