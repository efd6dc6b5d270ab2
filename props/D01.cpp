// flavor: plain
/* MPC packed designations */
#include <cctype>
#include <cstdio>
#include "watdefs.h"
#include "mpc_func.h"
#include "pbt.h"

PROPERTY( "D01", "designations drawn per family (numbered, provisional, survey, comets, fragments, natural and artificial satellites) with their packed form built by an independent model; non-trivial = all",
   "Packed forms follow the MPC's PackedDes page (base-62 digits, cycle counts, extended schemes)",
   "extended provisional designations: years 2000-2061 as the repository's own test list states")

static const char *b62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

static std::string base62( long v, int n)
{
   std::string s( (size_t)n, '0');
   while( n--) { s[(size_t)n] = b62[v % 62]; v /= 62; }
   return( s);
}

static const char *half_months = "ABCDEFGHJKLMNOPQRSTUVWXY";
static const char *second = "ABCDEFGHJKLMNOPQRSTUVWXYZ";

static std::string pad( std::string s) { s.resize( 12, ' '); return( s); }

struct Case { std::string name, packed; int type; };

static long gen_num( Draw &d, long lo, long hi, const std::vector<long> &knots)
{
   if( !knots.empty( ) && d.rare( 3))
      {
      long v = d.pick( knots) + d.ival( -2, 2);
      return( std::min( hi, std::max( lo, v)));
      }
   if( d.flip( ))
      return( d.ival( lo, hi));
   return( std::min( hi, lo + (long)d.logreal( 1., (double)( hi - lo + 1))) );
}

            /* 7-character packed provisional part */
static std::string pack_prov( int year, char half, char sec, long cycle, char frag)
{
   if( cycle < 620)
      return( pbt::strf( "%c%02d%c%c%ld%c", b62[year / 100], year % 100, half, b62[cycle / 10], cycle % 10,
                     frag ? (char)tolower( frag) : (sec ? sec : '0')));
   const long n = (cycle - 620) * 25 + (long)( strchr( second, sec) - second);
   return( pbt::strf( "_%c%c", b62[year - 2000], half) + base62( n, 4));
}

static std::string prov_name( int year, char half, char sec, long cycle)
{
   std::string s = pbt::strf( "%d %c", year, half);
   if( sec) s += sec;
   if( cycle) s += pbt::strf( "%ld", cycle);
   return( s);
}

struct Prov { int year; char half, sec; long cycle; };

static Prov gen_prov( Draw &d, bool ext_ok)
{
   Prov p;
   p.half = d.chr( half_months);
   p.sec = d.chr( second);
   if( ext_ok && d.rare( 3))
      {
      p.year = (int)d.ival( 2000, 2061);
      const long n = gen_num( d, 0, 62L * 62 * 62 * 62 - 1, { 25, 62, 62 * 62, 62 * 62 * 62, 62L * 62 * 62 * 62 - 1 });
      p.sec = second[n % 25];
      p.cycle = 620 + n / 25;
      }
   else
      {
      p.year = d.flip( ) ? (int)d.ival( 1995, 2030) : (int)d.ival( 1600, 2099);
      p.cycle = gen_num( d, 0, 619, { 0, 9, 99, 109, 359, 369, 619 });
      }
   return( p);
}

static std::string roman( int n)
{
   static const int v[] = { 900, 500, 400, 100, 90, 50, 40, 10, 9, 5, 4, 1 };
   static const char *r[] = { "CM", "D", "CD", "C", "XC", "L", "XL", "X", "IX", "V", "IV", "I" };
   std::string s;
   for( int i = 0; i < 12; i++)
      while( n >= v[i]) { s += r[i]; n -= v[i]; }
   return( s);
}

static Case gen( Draw &d)
{
   Case c;
   static const char *planets[] = { "Venus", "Earth", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto" };
   switch( d.raw( 9))
      {
      case 0:
         {
         const long n = gen_num( d, 1, 15396335, { 9999, 99999, 100000, 359999, 360000, 619999, 620000, 999999, 620000 + 62, 620000 + 3844, 620000 + 238328, 15396335 });
         c.name = pbt::strf( "(%ld)", n);
         c.packed = n < 620000 ? pbt::strf( "%c%04ld", b62[n / 10000], n % 10000) : "~" + base62( n - 620000, 4);
         c.type = OBJ_DESIG_ASTEROID_NUMBERED;
         d.cls( "numbered");
         break;
         }
      case 1: case 2:
         {
         const Prov p = gen_prov( d, true);
         c.name = prov_name( p.year, p.half, p.sec, p.cycle);
         c.packed = "     " + pack_prov( p.year, p.half, p.sec, p.cycle, 0);
         c.type = OBJ_DESIG_ASTEROID_PROVISIONAL;
         d.cls( p.cycle < 620 ? "provisional" : "extended provisional");
         break;
         }
      case 3:
         {
         const long n = d.ival( 1000, 9999);
         const int k = (int)d.raw( 3);
         c.name = pbt::strf( "%ld %s", n, k ? pbt::strf( "T-%d", k).c_str( ) : "P-L");
         c.packed = pbt::strf( "     %s%ld", k ? pbt::strf( "T%dS", k).c_str( ) : "PLS", n);
         c.type = OBJ_DESIG_ASTEROID_PROVISIONAL;
         d.cls( "survey");
         break;
         }
      case 4:
         {
         const char pre = d.chr( "PCDXA");
         const int year = d.flip( ) ? (int)d.ival( 1995, 2030) : (int)d.ival( 1600, 2099);
         const char half = d.chr( half_months);
         const char frag = d.rare( 3) ? (char)( 'A' + d.raw( 25)) : '\0';
         const long num = gen_num( d, 1, 619, { 9, 10, 99, 100, 359, 619 });
         c.name = pbt::strf( "%c/%s", pre, prov_name( year, half, 0, num).c_str( ));
         if( frag) c.name += pbt::strf( "-%c", frag);
         c.packed = pbt::strf( "    %c", pre) + pack_prov( year, half, 0, num, frag);
         c.type = (pre == 'A' ? OBJ_DESIG_ASTEROID_PROVISIONAL : OBJ_DESIG_COMET_PROVISIONAL);
         d.cls( frag ? "comet fragment" : "comet");
         break;
         }
      case 5:
         {
         const char pre = d.chr( "PCDXA");
         const Prov p = gen_prov( d, true);
         c.name = pbt::strf( "%c/%s", pre, prov_name( p.year, p.half, p.sec, p.cycle).c_str( ));
         c.packed = pbt::strf( "    %c", pre) + pack_prov( p.year, p.half, p.sec, p.cycle, 0);
         c.type = (pre == 'A' ? OBJ_DESIG_ASTEROID_PROVISIONAL : OBJ_DESIG_COMET_PROVISIONAL);
         d.cls( "comet with asteroidal designation");
         break;
         }
      case 6:
         {
         const char t = d.chr( "PDI");
         const int n = (int)gen_num( d, 1, 9999, { 9, 99, 999, 9999 }), nf = (int)d.raw( 2);
         c.name = pbt::strf( "%d%c", n, t);
         c.packed = pbt::strf( "%04d%c       ", n, t);
         if( nf)
            {
            c.name += '-';
            for( int i = 0; i < nf; i++)
               {
               const char ch = (char)( 'A' + d.raw( 25));
               c.name += ch;
               c.packed[(size_t)( 12 - nf + i)] = (char)tolower( ch);
               }
            }
         c.type = OBJ_DESIG_COMET_NUMBERED;
         d.cls( "numbered comet");
         break;
         }
      case 7:
         {
         const int p = (int)d.raw( 7), n = (int)gen_num( d, 1, 999, { 10, 100, 238, 999 });
         c.name = pbt::strf( "%s %s", planets[p], roman( n).c_str( ));
         c.packed = pbt::strf( "%c%03dS", planets[p][0], n);
         c.type = OBJ_DESIG_NATSAT_NUMBERED;
         d.cls( "natural satellite");
         break;
         }
      case 8:
         {
         const int year = (int)d.ival( 1901, 2099), n = (int)gen_num( d, 1, 619, { 9, 10, 99, 100, 109, 359, 619 });
         const char p = d.chr( "VEMJSUNP");
         c.name = pbt::strf( "S/%d %c %d", year, p, n);
         c.packed = pbt::strf( "    S%c%02d%c%c%d0", b62[year / 100], year % 100, p, b62[n / 10], n % 10);
         c.type = OBJ_DESIG_NATSAT_PROVISIONAL;
         d.cls( "provisional satellite");
         break;
         }
      default:
         c.name = pbt::strf( "%ld-%03ld%s", d.ival( 1957, 2099), d.ival( 0, 999), d.str( "ABCDEFGHIJKLMNOPQRSTUVWXYZ", 1, 3).c_str( ));
         c.packed = c.name;
         c.type = OBJ_DESIG_ARTSAT;
         d.cls( "artificial satellite");
         break;
      }
   c.packed = pad( c.packed);
   return( c);
}

static std::string unpack( const std::string &packed, int *type, int unaligned = 0)
{
   char buff[100];
   memset( buff, '#', sizeof( buff));
   *type = unaligned ? unpack_unaligned_mpc_desig( buff, packed.c_str( )) : unpack_mpc_desig( buff, packed.c_str( ));
   REQUIRE( memchr( buff, 0, 60), "output not terminated");
   return( buff);
}

PROP( packing, 1500000, 40)
{
   const Case c = gen( d);
   d.note( "'%s' <-> '%s' type %d", c.name.c_str( ), c.packed.c_str( ), c.type);
   char packed[40];
   memset( packed, '#', sizeof( packed));
   const int rval = create_mpc_packed_desig( packed, c.name.c_str( ));
   REQUIRE( !rval, "not packed: returned %d", rval);
   REQUIRE( !memcmp( packed, c.packed.c_str( ), 13), "packed as '%.12s'", packed);
}

PROP( unpacking, 1500000, 40)
{
   const Case c = gen( d);
   int t;
   d.note( "'%s' <-> '%s' type %d", c.name.c_str( ), c.packed.c_str( ), c.type);
            /* what follows the twelve columns in an 80-column record must not matter */
   const std::string tail = d.flip( ) ? "" : d.str( " *CX12K2026 ", 1, 20);
   const std::string got = unpack( c.packed + (c.type == OBJ_DESIG_ARTSAT ? std::string( ) : tail), &t);
   REQUIRE( got == c.name, "unpacked as '%s' (type %d)", got.c_str( ), t);
   REQUIRE( t == c.type, "type %d", t);
   const int t2 = unpack_mpc_desig( NULL, c.packed.c_str( ));
   REQUIRE( t2 == c.type, "type %d when no text is asked for", t2);
}

            /* spaces,  alternative spellings,  misalignment */
PROP( spellings, 1000000, 40)
{
   Case c = gen( d);
   std::string name = c.name;
   char packed[40];
   if( c.name[0] == '(' && c.name.size( ) >= 7 && c.name.size( ) <= 8 && d.flip( ))
      name = c.name.substr( 1, c.name.size( ) - 2);      /* five or six digits need no parentheses */
   else if( c.type == OBJ_DESIG_COMET_NUMBERED && c.name.find( '-') == std::string::npos && c.name.back( ) != 'I' && d.flip( ))
      name = pbt::strf( "%c/%d", c.name.back( ), atoi( c.name.c_str( )));
   else if( c.type == OBJ_DESIG_NATSAT_NUMBERED && d.flip( ))
      name = c.name.substr( 0, c.name.find( ' ') + 1) + pbt::strf( "%d", atoi( c.packed.c_str( ) + 1));
   else if( c.type == OBJ_DESIG_ASTEROID_PROVISIONAL && c.packed[4] == ' ' && c.packed[7] != 'S' && d.flip( ))
      name.erase( 4, 1);                                /* 2004JX42 */
   name = std::string( d.raw( 2), ' ') + name;
   d.note( "'%s' -> '%s'", name.c_str( ), c.packed.c_str( ));
   const int rval = create_mpc_packed_desig( packed, name.c_str( ));
   REQUIRE( !rval && c.packed == packed, "'%s' returned %d, packed '%.12s'", name.c_str( ), rval, packed);
   if( c.packed.substr( 0, c.packed.find_last_not_of( ' ') + 1).find( ' ', c.packed.find_first_not_of( ' ')) == std::string::npos)
      {
      std::string un = c.packed;
      un.erase( 0, un.find_first_not_of( ' '));
      un.erase( un.find_last_not_of( ' ') + 1);
      un = std::string( d.raw( 5), ' ') + un;
      if( d.flip( )) un += " ";
      int t;
      const std::string got = unpack( un, &t, 1);
      REQUIRE( got == c.name && t == c.type, "unaligned '%s' unpacked as '%s', type %d", un.c_str( ), got.c_str( ), t);
      }
}

            /* number and provisional designation given together */
PROP( doubly_designated, 500000, 40)
{
   const Prov p = gen_prov( d, true);
   const long n = gen_num( d, 1, 15396335, { 99999, 619999, 620000 });
   const std::string packed = (n < 620000 ? pbt::strf( "%c%04ld", b62[n / 10000], n % 10000) : "~" + base62( n - 620000, 4))
                  + pack_prov( p.year, p.half, p.sec, p.cycle, 0);
   int t;
   d.note( "'%s'", packed.c_str( ));
   const std::string got = unpack( packed, &t);
   std::string want = pbt::strf( "(%ld)%s ", n, n < 620000 ? " =" : "") + prov_name( p.year, p.half, p.sec, p.cycle);
   if( want.size( ) > 23)     /* no room for both */
      want = pbt::strf( "(%ld)", n);
   REQUIRE( t == OBJ_DESIG_ASTEROID_NUMBERED && got == want, "unpacked as '%s' type %d, expected '%s'", got.c_str( ), t, want.c_str( ));
            /* numbered comets with the provisional part */
   const char ty = d.chr( "PCDXAI");
   const int cn = (int)d.ival( 1, 9999);
   const long num = d.ival( 0, 619);
   const char frag = d.flip( ) ? (char)( 'a' + d.raw( 25)) : '0';
   const std::string cp = pbt::strf( "%04d%c", cn, ty) + pack_prov( p.year, p.half, 0, num, frag == '0' ? '\0' : frag);
   const std::string got2 = unpack( cp, &t);
   std::string want2 = pbt::strf( "%d%c", cn, ty);
   if( frag != '0') want2 += pbt::strf( "-%c", toupper( frag));
   REQUIRE( t == OBJ_DESIG_COMET_NUMBERED && got2 == want2, "'%s' unpacked as '%s' type %d", cp.c_str( ), got2.c_str( ), t);
}

            /* observer-assigned and over-long names survive */
PROP( other_names, 500000, 40)
{
   const std::string name = d.str( "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", 1, 11);
   char packed[40];
   int t;
   const int rval = create_mpc_packed_desig( packed, name.c_str( ));
   d.note( "'%s' packed as '%s' (%d)", name.c_str( ), packed, rval);
   REQUIRE( strlen( packed) == 12, "packed form is %d bytes", (int)strlen( packed));
   d.nontrivial( rval != 0);
   if( rval)
      {
      const std::string got = unpack( packed, &t);
      if( name.size( ) > 7)
         {
         std::string g = got;
         REQUIRE( packed[0] == '$', "packed as '%s'", packed);
         while( !g.empty( ) && g.back( ) == ' ') g.pop_back( );
         REQUIRE( g == name, "unpacked as '%s'", got.c_str( ));
         }
      else if( t == OBJ_DESIG_OTHER)
         REQUIRE( got == name, "unpacked as '%s'", got.c_str( ));
      }
}

            /* names that only resemble designations :  whatever is accepted as a
               provisional designation must denote the same object */
PROP( near_misses, 700000, 40)
{
   std::string name;
   if( d.rare( 3)) name = pbt::strf( "%c/", d.chr( "PCDXA"));
   name += pbt::strf( "%ld %c", d.flip( ) ? d.ival( 1990, 2070) : d.ival( 1600, 2099), d.chr( half_months));
   if( d.flip( )) name += d.chr( second);
   if( d.flip( )) name += pbt::strf( "%ld", d.rare( 8) ? (long)d.logreal( 1e5, 1e18) + d.ival( 0, 20) : d.flip( ) ? d.ival( 1, 700) : d.ival( 1, 700000));
   if( isdigit( name.back( )) && d.rare( 20)) name += d.str( "0123456789", 1, 6);
   char packed[40];
   int t;
   const int rval = create_mpc_packed_desig( packed, name.c_str( ));
   d.note( "'%s' packed as '%s' (%d)", name.c_str( ), packed, rval);
   REQUIRE( strlen( packed) == 12, "packed form is %d bytes", (int)strlen( packed));
   d.nontrivial( !rval);
   const std::string got = unpack( packed, &t);
   if( !rval)
      REQUIRE( got == name, "unpacked as '%s'", got.c_str( ));
}

            /* damaged packed designations are either recognised as not being
               designations or denote an object whose packed form they are */
PROP( damaged, 3000000, 20)
{
   const Case c = gen( d);
   std::string p = c.packed;
   if( c.type == OBJ_DESIG_ASTEROID_NUMBERED && d.flip( ))
      {
      const Prov pr = gen_prov( d, true);
      p = p.substr( 0, 5) + pack_prov( pr.year, pr.half, pr.sec, pr.cycle, 0);
      }
   for( int n = 1 + (int)d.raw( 1); n; n--)
      {
      const size_t at = (size_t)d.raw( 11);
      if( d.flip( ))
         p[at] = d.chr( "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz ~_-/$");
      else if( at)
         std::swap( p[at], p[at - 1]);
      }
   int t;
   d.note( "'%s' from '%s'", p.c_str( ), c.packed.c_str( ));
   if( p[0] == '$')
      return;
   std::string got = unpack( p, &t);
   d.nontrivial( t != OBJ_DESIG_OTHER && p != c.packed);
   if( t == OBJ_DESIG_OTHER || t == OBJ_DESIG_ARTSAT)
      {
      std::string s = p;
      s.erase( 0, std::min( s.find_first_not_of( ' '), s.size( )));
      s.erase( s.find_last_not_of( ' ') + 1);
      REQUIRE( got == s, "shown as '%s' (type %d)", got.c_str( ), t);
      return;
      }
   char packed[40];
   std::string q = p;
   if( t == OBJ_DESIG_ASTEROID_NUMBERED && p.substr( 5, 5) != "     ")
      {                    /* number and provisional designation */
      const size_t end = got.find( ") ");
      if( end == std::string::npos && p[5] == '_' && p[7] >= '1')
         return;           /* too long for the buffer;  only the number is shown */
      REQUIRE( end != std::string::npos, "taken as '%s'", got.c_str( ));
      std::string prov = got.substr( end + 2);
      if( prov.substr( 0, 2) == "= ")
         prov.erase( 0, 2);
      if( isupper( p[11]) || p[5] == '_')
         {
         const int rv = create_mpc_packed_desig( packed, prov.c_str( ));
         REQUIRE( !rv && "     " + p.substr( 5) == packed, "taken as '%s',  whose second part is packed as '%.12s'", got.c_str( ), packed);
         }
      got = got.substr( 0, end + 1);
      q = p = p.substr( 0, 5) + "       ";
      }
   if( t == OBJ_DESIG_COMET_NUMBERED && strchr( "CXA", p[4]))
      return;              /* numbered objects of these sorts exist as packed forms only */
   if( p[7] == 'S' && p[8] == '0')
      return;              /* surveys number from 1000 */
   if( t == OBJ_DESIG_NATSAT_PROVISIONAL && p[5] != 'J' && p[5] != 'K')
      return;
   if( (p[4] == ' ' || p[4] == 'A') && p[5] != ' ' && !isupper( p[11]) && p[5] != '_' && p[7] != 'S')
      return;              /* comets without 'C/' are shown,  but can't be packed */
   if( p.substr( 1, 4) == "000S" || (p[4] == 'S' && (p.substr( 5, 3) == "J00" || p.substr( 9, 3) == "000")))
      return;              /* nor are there satellites 0 or of 1900 */
   if( p[4] != ' ' && p.substr( 9, 2) == "00" && islower( p[11]))
      return;              /* nor are comets given number 0 */
   if( t == OBJ_DESIG_COMET_NUMBERED && p.substr( 5, 5) != "     ")
      {                    /* only the number and fragment of a comet are shown */
      for( size_t i = 5; i < 12; i++)
         if( i < 10 || !islower( p[11]) || !islower( p[i]))
            q[i] = p[i] = ' ';
      }
   if( !memcmp( p.c_str( ), "0000", 4) && strchr( "0PDI", p[4]))
      return;              /* number zero */
   if( p.substr( 5, 5) == "     ")
      {                    /* letters other than those of fragments are ignored */
      if( t == OBJ_DESIG_ASTEROID_NUMBERED || !islower( p[11]))
         q[11] = ' ';
      if( q[11] == ' ' || !islower( p[10]))
         q[10] = ' ';
      }
   const int rval = create_mpc_packed_desig( packed, got.c_str( ));
   REQUIRE( !rval && q == packed, "taken as '%s' (type %d),  which is packed as '%.12s' (%d)", got.c_str( ), t, packed, rval);
}
