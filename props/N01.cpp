// flavor: asan
/* Orientations, radii and rotation rates of planets and satellites */
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "N01", "histories of up to ten requests for orientations, radii and rotation rates: every object of the distributed file under its number and its old number, unknown objects, four longitude systems, instants from -1000 to 5000, with the file not yet loaded, reloaded, replaced by another or missing; generated orientation files (objects in any order, comments, blanks, one to three systems, polynomial and periodic terms, multiples of angles, remappings); non-trivial = an object in the file other than the earth",
   "Reference: the published IAU pole and rotation expressions of the sun, planets, Moon, Galilean satellites and Triton; an independent reading of the distributed file; for generated files, the terms that were written; orientation from pole vector and node in long double",
   "expressions the author says he truncated (Mars, Jupiter) are taken as truncated; the earth is only checked against the precession matrix (its matrix has no rotation); the library's own Delta-T is used (decided by T04)")

static const ld pil = 3.14159265358979323846264338327950288L, rad = pil / 180.L;

struct ang { ld c, lin; bool per_day; };
struct term { char kind; ld coeff; int mult; ang a; };            /* kind: 0 const, 'd','D'(d2),'T','U'(T2),'s','c' */
typedef std::vector<term> series;
struct object { series a, d, w[4]; bool has_w[4] = { false, false, false, false }; double r[3] = { 0, 0, 0 }; };
typedef std::map<int, object> universe;

static ld eval( const series &s, ld d)
{
   const ld T = d / 36525.L;
   ld sum = 0;
   for( auto &t : s)
      switch( t.kind)
         {
         case 0: sum += t.coeff; break;
         case 'd': sum += t.coeff * d; break;
         case 'D': sum += t.coeff * d * d; break;
         case 'T': sum += t.coeff * T; break;
         case 'U': sum += t.coeff * T * T; break;
         default:
            {
            const ld x = (t.a.c + t.a.lin * (t.a.per_day ? d : T)) * t.mult * rad;
            sum += t.coeff * (t.kind == 's' ? sinl( x) : cosl( x));
            }
         }
   return( sum);
}

            /* ---- independent reading of the file ---- */
static series parse_series( std::string s, const std::map<std::string, ang> &angles)
{
   series out;
   size_t i = 0;
   while( i < s.size( ))
      {
      ld sign = 1;
      if( s[i] == '+' || s[i] == '-') { if( s[i] == '-') sign = -1; i++; }
      size_t used = 0;
      ld v;
      try { v = std::stold( s.substr( i), &used); } catch( ...) { break; }
      i += used;
      term t = { 0, sign * v, 1, { 0, 0, false } };
      if( s.compare( i, 2, "d2") == 0) { t.kind = 'D'; i += 2; }
      else if( s.compare( i, 2, "T2") == 0) { t.kind = 'U'; i += 2; }
      else if( s.compare( i, 1, "d") == 0) { t.kind = 'd'; i++; }
      else if( s.compare( i, 1, "T") == 0) { t.kind = 'T'; i++; }
      else if( s.compare( i, 3, "sin") == 0 || s.compare( i, 3, "cos") == 0)
         {
         t.kind = s[i];
         i += 3;
         if( isdigit( s[i])) t.mult = s[i++] - '0';
         size_t j = i + 1;
         while( j < s.size( ) && isdigit( s[j])) j++;
         auto it = angles.find( s.substr( i, j - i));
         if( it != angles.end( )) t.a = it->second;
         else t.coeff = NAN;
         i = j;
         }
      out.push_back( t);
      while( i < s.size( ) && s[i] != '+' && s[i] != '-') i++;
      }
   return( out);
}
static void read_file( const char *name, universe &u, std::map<int, int> &remap)
{
   std::ifstream f( name);
   std::string line;
   std::map<std::string, ang> angles;
   object *cur = NULL;
   while( std::getline( f, line))
      {
      if( line.compare( 0, 3, "END") == 0) break;
      const size_t h = line.find( '#');
      if( h != std::string::npos) line.resize( h);
      if( line.compare( 0, 6, "Remap:") == 0)
         {
         std::istringstream is( line.substr( 6));
         int a, b;
         while( is >> a >> b) remap[b] = a;
         continue;
         }
      std::string s;
      for( char c : line) if( c > ' ' || c < 0) s += c;
                  /* a typographical minus sign is a minus sign */
      for( size_t p; (p = s.find( "\xe2\x88\x92")) != std::string::npos; ) s.replace( p, 3, "-");
      const size_t eq = s.find( '=');
      if( s.compare( 0, 7, "Planet:") == 0) { cur = NULL; angles.clear( ); }
      else if( s.compare( 0, 4, "Obj:") == 0) cur = &u[atoi( s.c_str( ) + 4)];
      else if( eq != std::string::npos && eq)
         {
         const std::string key = s.substr( 0, eq), val = s.substr( eq + 1);
         if( !cur)
            {
            const series p = parse_series( val, angles);
            if( p.size( ) == 2) angles[key] = { p[0].coeff, p[1].coeff, p[1].kind == 'd' };
            }
         else if( key[0] == 'a') cur->a = parse_series( val, angles);
         else if( key[0] == 'd') cur->d = parse_series( val, angles);
         else if( key[0] == 'r') sscanf( val.c_str( ), "%lf,%lf,%lf", cur->r, cur->r + 1, cur->r + 2);
         else if( key[0] == 'W') { const int k = key.size( ) > 1 ? key[1] - '0' : 0; cur->w[k] = parse_series( val, angles); cur->has_w[k] = true; }
         }
      }
}
static const series &pick_w( const object &o, int system)
{
   return( system > 0 && system < 4 && o.has_w[system] ? o.w[system] : o.w[0]);
}

            /* ---- the matrix ---- */
static void ref_matrix( ld a0, ld d0, ld W, bool retro, ld *m)
{
   a0 *= rad; d0 *= rad; W = fmodl( W, 360.L) * rad;
   const ld p[3] = { cosl( a0) * cosl( d0), sinl( a0) * cosl( d0), sinl( d0) };
   const ld q[3] = { -sinl( a0), cosl( a0), 0 };                 /* ascending node on the J2000 equator */
   const ld n[3] = { p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0] };
   for( int i = 0; i < 3; i++)
      {
      m[i] = q[i] * cosl( W) + n[i] * sinl( W);
      const ld east = n[i] * cosl( W) - q[i] * sinl( W);
      m[i + 3] = retro ? east : -east;         /* longitude 90 is the one to come into view a quarter turn later */
      m[i + 6] = p[i];
      }
}
static bool retrograde( const series &w)
{
   for( auto &t : w) if( (t.kind == 'd' || t.kind == 'T') && t.coeff < 0) return( true);
   return( false);
}
static void compare( const char *what, int obj, int system, double jd, const object &o, double tol)
{
   double m[9];
   for( auto &x : m) x = 1e30;
   const int rv = calc_planet_orientation( obj, system, jd, m);
   REQUIRE( rv == 0, "%s: object %d system %d JD %.6f: returned %d", what, obj, system, jd, rv);
   const ld d = (ld)( jd + td_minus_ut( jd) / 86400.) - 2451545.L;
   const series &w = pick_w( o, system);
   ld r[9];
   ref_matrix( eval( o.a, d), eval( o.d, d), eval( w, d), retrograde( w), r);
               /* a day count rounded to a double,  times the rotation rate */
   ld rate = 0;
   for( auto &t : w) if( t.kind == 'd') rate = fabsl( t.coeff);
   tol += (double)( rate * rad * 2e-9L) + 1e-12 * fabs( (double)d) * 1e-3;
   for( int i = 0; i < 9; i++)
      REQUIRE( fabsl( m[i] - r[i]) < tol, "%s: object %d system %d JD %.6f: element %d is %.9f, expected %.9Lf", what, obj, system, jd, i, m[i], r[i]);
}
static double gen_jd( Draw &d)
{
   return( d.rare( 5) ? 2451545. : d.flip( ) ? d.real( 2440000., 2460000.) : d.real( 1400000., 3500000.));
}

            /* ---- published values,  typed in from the WGCCRE reports ---- */
#define S_(A, C, L, D) term{ 's', A, 1, { C, L, D } }
#define C_(A, C, L, D) term{ 'c', A, 1, { C, L, D } }
#define K_(X) term{ 0, X, 1, { 0, 0, false } }
#define T_(X) term{ 'T', X, 1, { 0, 0, false } }
#define D_(X) term{ 'd', X, 1, { 0, 0, false } }
static object obj3( const series &a, const series &d, const series &w, const series &w2 = { }, const series &w3 = { })
{
   object o;
   o.a = a; o.d = d; o.w[0] = w;
   o.has_w[0] = true;
   if( !w2.empty( )) { o.w[2] = w2; o.has_w[2] = true; }
   if( !w3.empty( )) { o.w[3] = w3; o.has_w[3] = true; }
   return( o);
}
static const universe &published( )
{
   static universe u;
   if( !u.empty( )) return( u);
   u[0] = obj3( { K_( 286.13L) }, { K_( 63.87L) }, { K_( 84.176L), D_( 14.1844L) });
   u[1] = obj3( { K_( 281.0103L), T_( -.0328L) }, { K_( 61.4155L), T_( -.0049L) }, { K_( 329.5988L), D_( 6.1385108L),
            S_( .01067257L, 174.7910857L, 4.092335L, true), S_( -.00112309L, 349.5821714L, 8.184670L, true), S_( -.00011040L, 164.3732571L, 12.277005L, true),
            S_( -.00002539L, 339.1643429L, 16.369340L, true), S_( -.00000571L, 153.9554286L, 20.461675L, true) });
   u[2] = obj3( { K_( 272.76L) }, { K_( 67.16L) }, { K_( 160.20L), D_( -1.4813688L) });
   u[4] = obj3( { K_( 317.269202L), T_( -.10927547L), S_( .419057L, 79.398797L, .5042615L, false) },
                { K_( 54.432516L), T_( -.05827105L), C_( 1.591274L, 166.325722L, .5042615L, false) },
                { K_( 176.049863L), D_( 350.891982443297L), S_( .584542L, 95.391654L, .5042615L, false) });
   u[5] = obj3( { K_( 268.056595L), T_( -.006499L) }, { K_( 64.495303L), T_( .002413L) }, { K_( 67.1L), D_( 877.9L) }, { K_( 43.3L), D_( 870.27L) }, { K_( 284.95L), D_( 870.536L) });
   u[6] = obj3( { K_( 40.589L), T_( -.036L) }, { K_( 83.537L), T_( -.004L) }, { K_( 227.9L), D_( 844.3L) }, { K_( 104.9L), D_( 812.L) }, { K_( 38.9L), D_( 810.7939024L) });
   u[7] = obj3( { K_( 257.311L) }, { K_( -15.175L) }, { K_( 203.81L), D_( -501.1600928L) });
   u[8] = obj3( { K_( 299.36L), S_( .70L, 357.85L, 52.316L, false) }, { K_( 43.46L), C_( -.51L, 357.85L, 52.316L, false) }, { K_( 249.978L), D_( 541.1397757L), S_( -.48L, 357.85L, 52.316L, false) });
   u[9] = obj3( { K_( 132.993L) }, { K_( -6.163L) }, { K_( 302.695L), D_( 56.3625225L) });
   const ang E[14] = { { 0, 0, true }, { 125.045L, -.0529921L, true }, { 250.089L, -.1059842L, true }, { 260.008L, 13.0120009L, true }, { 176.625L, 13.3407154L, true }, { 357.529L, .9856003L, true },
         { 311.589L, 26.4057084L, true }, { 134.963L, 13.0649930L, true }, { 276.617L, .3287146L, true }, { 34.226L, 1.7484877L, true }, { 15.134L, -.1589763L, true }, { 119.743L, .0036096L, true },
         { 239.961L, .1643573L, true }, { 25.053L, 12.9590088L, true } };
   auto s = [&]( ld c, int i) { return( term{ 's', c, 1, E[i] }); };
   auto c = [&]( ld k, int i) { return( term{ 'c', k, 1, E[i] }); };
   u[3001] = obj3( { K_( 269.9949L), T_( .0031L), s( -3.8787L, 1), s( -.1204L, 2), s( .0700L, 3), s( -.0172L, 4), s( .0072L, 6), s( -.0052L, 10), s( .0043L, 13) },
         { K_( 66.5392L), T_( .0130L), c( 1.5419L, 1), c( .0239L, 2), c( -.0278L, 3), c( .0068L, 4), c( -.0029L, 6), c( .0009L, 7), c( .0008L, 10), c( -.0009L, 13) },
         { K_( 38.3213L), D_( 13.17635815L), term{ 'D', -1.4e-12L, 1, { 0, 0, false } }, s( 3.5610L, 1), s( .1208L, 2), s( -.0642L, 3), s( .0158L, 4), s( .0252L, 5), s( -.0066L, 6), s( -.0047L, 7), s( -.0046L, 8),
           s( .0028L, 9), s( .0052L, 10), s( .0040L, 11), s( .0019L, 12), s( -.0044L, 13) });
   const ang J[9] = { { 0, 0, false }, { 73.32L, 91472.9L, false }, { 24.62L, 45137.2L, false }, { 283.90L, 4850.7L, false }, { 355.80L, 1191.3L, false }, { 119.90L, 262.1L, false }, { 229.80L, 64.3L, false }, { 352.35L, 2382.6L, false }, { 113.35L, 6070.0L, false } };
   auto js = [&]( ld k, int i) { return( term{ 's', k, 1, J[i] }); };
   auto jc = [&]( ld k, int i) { return( term{ 'c', k, 1, J[i] }); };
   u[5001] = obj3( { K_( 268.05L), T_( -.009L), js( .094L, 3), js( .024L, 4) }, { K_( 64.50L), T_( .003L), jc( .040L, 3), jc( .011L, 4) }, { K_( 200.39L), D_( 203.4889538L), js( -.085L, 3), js( -.022L, 4) });
   u[5002] = obj3( { K_( 268.08L), T_( -.009L), js( 1.086L, 4), js( .060L, 5), js( .015L, 6), js( .009L, 7) }, { K_( 64.51L), T_( .003L), jc( .468L, 4), jc( .026L, 5), jc( .007L, 6), jc( .002L, 7) },
         { K_( 36.022L), D_( 101.3747235L), js( -.980L, 4), js( -.054L, 5), js( -.014L, 6), js( -.008L, 7) });
   u[5003] = obj3( { K_( 268.20L), T_( -.009L), js( -.037L, 4), js( .431L, 5), js( .091L, 6) }, { K_( 64.57L), T_( .003L), jc( -.016L, 4), jc( .186L, 5), jc( .039L, 6) },
         { K_( 44.064L), D_( 50.3176081L), js( .033L, 4), js( -.389L, 5), js( -.082L, 6) });
   u[5004] = obj3( { K_( 268.72L), T_( -.009L), js( -.068L, 5), js( .590L, 6), js( .010L, 8) }, { K_( 64.83L), T_( .003L), jc( -.029L, 5), jc( .254L, 6), jc( -.004L, 8) },
         { K_( 259.51L), D_( 21.5710715L), js( .061L, 5), js( -.533L, 6), js( -.009L, 8) });
   const ang N7 = { 177.85L, 52.316L, false };
   series ta = { K_( 299.36L) }, td = { K_( 41.17L) }, tw = { K_( 296.53L), D_( -61.2572637L) };
   const ld sa[9] = { -32.35L, -6.28L, -2.08L, -.74L, -.28L, -.11L, -.07L, -.02L, -.01L }, cd[7] = { 22.55L, 2.10L, .55L, .16L, .05L, .02L, .01L }, sw[9] = { 22.25L, 6.73L, 2.05L, .74L, .28L, .11L, .05L, .02L, .01L };
   for( int i = 0; i < 9; i++) { ta.push_back( term{ 's', sa[i], i + 1, N7 }); tw.push_back( term{ 's', sw[i], i + 1, N7 }); if( i < 7) td.push_back( term{ 'c', cd[i], i + 1, N7 }); }
   u[8001] = obj3( ta, td, tw);
   const ang N0 = { 357.85L, 52.316L, false }, N1 = { 323.92L, 62606.6L, false };
   u[8003] = obj3( { K_( 299.36L), term{ 's', .70L, 1, N0 }, term{ 's', -6.49L, 1, N1 }, term{ 's', .25L, 2, N1 } }, { K_( 43.36L), term{ 'c', -.51L, 1, N0 }, term{ 'c', -4.75L, 1, N1 }, term{ 'c', .09L, 2, N1 } },
         { K_( 254.06L), D_( 1222.8441209L), term{ 's', -.48L, 1, N0 }, term{ 's', 4.40L, 1, N1 }, term{ 's', -.27L, 2, N1 } });
   return( u);
}
static void fresh( )          /* no file loaded, nothing remembered that could matter */
{
   double m[9];
   load_cospar_file( NULL);
   calc_planet_orientation( 3, 0, 1., m);
}

PROP( published_expressions, 100000, 10)
{
   const universe &u = published( );
   auto it = u.begin( );
   std::advance( it, d.raw( u.size( ) - 1));
   const int system = (int)d.ival( 0, 3);
   if( it->first == 2 && system == 2) return;          /* an unofficial system */
   const double jd = gen_jd( d);
   d.note( "object %d, system %d, JD %.9f", it->first, system, jd);
   d.nontrivial( true);
   compare( "published expression", it->first, system, jd, it->second, 1e-9);
}

struct world { universe u; std::map<int, int> remap; };
static const world &distributed( )
{
   static world w;
   if( w.u.empty( )) read_file( "cospar.txt", w.u, w.remap);
   return( w);
}
static const object *find( const world &w, int obj)
{
   if( obj > 9 && obj < 1000) { auto r = w.remap.find( obj); if( r != w.remap.end( )) obj = r->second; }
   auto it = w.u.find( obj);
   return( it == w.u.end( ) ? NULL : &it->second);
}
static void one_request( Draw &d, const world &w, const std::vector<int> &objs, bool &nontriv)
{
   int obj = objs[d.raw( objs.size( ) - 1)];
   if( d.rare( 6)) obj = (int)d.ival( -30, 300);
   const object *o = find( w, obj);
   const int system = (int)d.ival( 0, 3);
   const double jd = gen_jd( d);
   const int what = (int)d.raw( 3);
   d.note( "; %s %d", what == 3 ? "radii of" : what == 2 ? "rate of" : "orientation of", obj);
   if( o && obj != 3) nontriv = true;
   double m[9];
   if( what == 3)
      {
      double r[3] = { 1e30, 1e30, 1e30 };
      const int rv = planet_radii( obj, r);
      if( !o) REQUIRE( rv != 0, "radii for unknown object %d: returned 0", obj);
      else REQUIRE( rv == 0 && r[0] == o->r[0] && r[1] == o->r[1] && r[2] == o->r[2], "radii of %d: returned %d, %g %g %g, expected %g %g %g", obj, rv, r[0], r[1], r[2], o->r[0], o->r[1], o->r[2]);
      }
   else if( what == 2)
      {
      const double rate = planet_rotation_rate( obj, system);
      ld want = 0;
      if( o) for( auto &t : pick_w( *o, system)) if( t.kind == 'd') want = t.coeff;
      REQUIRE( fabsl( rate - want) < 1e-12L * (1 + fabsl( want)), "rotation rate of %d, system %d is %.9f, expected %.9Lf", obj, system, rate, want);
      }
   else if( obj == 3)
      {
      double p[9];
      const double tdt = jd + td_minus_ut( jd) / 86400.;
      const int rv = calc_planet_orientation( 3, system, jd, m);
      setup_precession_with_nutation_eops( p, 2000. + (tdt - 2451545.) / 365.25);
      for( int i = 0; i < 9; i++)
         REQUIRE( rv == 0 && fabs( m[i] - (i / 3 == 1 ? -p[i] : p[i])) < 1e-14, "earth: element %d is %.15f, expected %.15f", i, m[i], p[i]);
      }
   else if( !o)
      REQUIRE( calc_planet_orientation( obj, system, jd, m) != 0, "orientation of unknown object %d: returned 0", obj);
   else
      {
      compare( "orientation", obj, system, jd, *o, 1e-8);
      if( d.rare( 3)) compare( "orientation, again", obj, system, jd, *o, 1e-8);
      }
}
static std::vector<int> ids( const world &w)
{
   std::vector<int> v;
   for( auto &x : w.u) v.push_back( x.first);
   for( auto &x : w.remap) v.push_back( x.first);
   return( v);
}

PROP( distributed_file, 60000, 10)
{
   const world &w = distributed( );
   REQUIRE( w.u.size( ) >= 76 && w.remap.size( ) > 50, "cospar.txt has only %d objects", (int)w.u.size( ));
   const std::vector<int> objs = ids( w);
   const int n = 1 + (int)d.raw( 9);
   bool nt = false;
   fresh( );
   d.note( "distributed file");
   for( int i = 0; i < n; i++)
      {
      if( d.rare( 6)) { d.note( "; reload"); REQUIRE( load_cospar_file( d.flip( ) ? "cospar.txt" : NULL) == 0, "load failed"); }
      one_request( d, w, objs, nt);
      }
   d.nontrivial( nt);
}

PROP( radii_make_sense, 3000, 3)
{
   const std::vector<int> objs = ids( distributed( ));
   const int obj = objs[d.raw( objs.size( ) - 1)];
   double r[3];
   d.note( "object %d", obj);
   d.nontrivial( true);
   if( !find( distributed( ), obj)) return;
   REQUIRE( !planet_radii( obj, r), "radii of %d not found", obj);
   REQUIRE( r[0] >= r[1] && r[1] >= r[2] && r[0] >= 0. && (r[1] == 0. || r[1] > r[0] * .25) && (r[2] == 0. || r[2] > r[0] * .25), "radii of %d: %g %g %g", obj, r[0], r[1], r[2]);
}

static std::string num( Draw &d, double lo, double hi, bool sign)
{
   const double v = d.real( lo, hi);
   std::string s = pbt::strf( d.flip( ) ? "%.3f" : d.flip( ) ? "%.9f" : "%.0f", v);
   if( sign && s[0] != '-') s = "+" + s;
   return( s);
}
static std::string blanks( Draw &d) { return( d.rare( 3) ? std::string( 1 + d.raw( 3), ' ') : ""); }

PROP( generated_file, 15000, 10)
{
   world worlds[2];
   std::string text[2];
   static const char *extra[] = { "", "# comment\n", "\n", "   \n", "# a0=77\n", "   # indented\n" };
   for( int f = 0; f < 2; f++)
      {
      world &w = worlds[f];
      std::string &s = text[f];
      const int n_planets = 1 + (int)d.raw( 2);
      int id = 0;
      std::string remaps;
      std::vector<std::string> blocks;
      for( int p = 0; p < n_planets; p++)
         {
         const char letter = "HEMJSUN"[d.raw( 6)];
         s += pbt::strf( "Planet: %c%s\n", letter, d.flip( ) ? "  # planet" : "");
         const int n_ang = d.rare( 4) ? 0 : 1 + (int)d.raw( 11);
         std::vector<ang> angs;
         for( int i = 1; i <= n_ang; i++)
            {
            const bool day = d.flip( );
            const double lim = (day ? 100. : 50000.);
            const std::string c = num( d, 1., 360., false), l = num( d, -lim, lim, true);
            angs.push_back( { strtold( c.c_str( ), NULL), strtold( l.c_str( ), NULL), day });
            s += pbt::strf( "  %c%d%s=%s%s%s%s%c%s\n", letter, i, blanks( d).c_str( ), blanks( d).c_str( ), c.c_str( ), blanks( d).c_str( ), l.c_str( ), day ? 'd' : 'T', d.rare( 5) ? "  # +1T2" : "");
            s += extra[d.raw( 5)];
            }
         const int n_obj = 1 + (int)d.raw( 3);
         for( int k = 0; k < n_obj; k++)
            {
            id += 1 + (int)d.raw( 3);
            const int num_id = d.flip( ) ? id : d.flip( ) ? 4000 + id : -id;
            if( num_id == 3 || w.u.count( num_id) || (num_id > 9 && num_id < 1000)) continue;
            if( num_id > 1000 && d.flip( ))
               {
               const int old = 11 + (int)d.raw( 988);
               if( !w.remap.count( old)) { w.remap[old] = num_id; remaps += pbt::strf( "Remap:  %d %d\n", num_id, old); }
               }
            object &o = w.u[num_id];
            s += pbt::strf( "Obj: %d%s\n", num_id, d.flip( ) ? " # name" : "");
            const int nr = (int)d.raw( 3);
            if( nr)
               {
               s += "   r=";
               for( int i = 0; i < nr; i++)
                  {
                  const std::string v = pbt::strf( "%.2f", d.real( 1., 70000.));
                  o.r[i] = atof( v.c_str( ));
                  s += (i ? "," : "") + v;
                  }
               s += "\n";
               }
            auto make = [&]( series &out, double lo, double hi, bool rot)
               {
               std::string v = num( d, lo, hi, false);
               out.push_back( { 0, strtold( v.c_str( ), NULL), 1, { 0, 0, false } });
               if( rot)
                  {
                  const std::string q = num( d, -1000., 1000., true);
                  out.push_back( { 'd', strtold( q.c_str( ), NULL), 1, { 0, 0, false } });
                  v += blanks( d) + q + "d";
                  if( d.rare( 3)) { v += blanks( d) + "-1.4e-12d2"; out.push_back( { 'D', -1.4e-12L, 1, { 0, 0, false } }); }
                  }
               else if( d.flip( ))
                  {
                  const std::string q = num( d, -1., 1., true);
                  out.push_back( { 'T', strtold( q.c_str( ), NULL), 1, { 0, 0, false } });
                  v += blanks( d) + q + "T";
                  }
               if( d.rare( 4))
                  {
                  const std::string q = num( d, -1., 1., true);
                  out.push_back( { 'U', strtold( q.c_str( ), NULL), 1, { 0, 0, false } });
                  v += blanks( d) + q + "T2";
                  }
               if( n_ang) for( int i = (int)d.raw( 4); i > 0; i--)
                  {
                  const std::string q = num( d, -30., 30., true);
                  const int which = (int)d.raw( n_ang - 1), mult = d.flip( ) ? 1 : 1 + (int)d.raw( 8);
                  const bool sine = d.flip( );
                  if( v.size( ) > 200) break;
                  v += blanks( d) + q + (d.flip( ) ? " " : "") + (sine ? "sin" : "cos") + (d.flip( ) ? " " : "") + (mult > 1 ? pbt::strf( "%d", mult) : std::string( )) + pbt::strf( "%c%d", letter, which + 1);
                  out.push_back( { sine ? 's' : 'c', strtold( q.c_str( ), NULL), mult, angs[which] });
                  }
               return( v);
               };
            s += "   a0" + blanks( d) + "=" + blanks( d) + make( o.a, 0., 360., false) + "\n";
            s += extra[d.raw( 5)];
            s += "   d0" + blanks( d) + "=" + blanks( d) + make( o.d, -85., 85., false) + (d.flip( ) ? "  # +12 " : "") + "\n";
            for( int k2 = 3; k2 >= 0; k2--)
               if( !k2 || d.rare( 3))
                  {
                  o.has_w[k2] = true;
                  s += (k2 ? pbt::strf( "   W%d=", k2) : std::string( "   W=")) + blanks( d) + make( o.w[k2], -360., 360., true) + "\n";
                  }
            }
         }
      s = "# header\nRemap: 2999 10\n" + remaps + s;         /* (the file always begins by remapping the moon) */
      if( d.flip( )) s += "END of it\nObj: 77\n   a0=1\n   d0=1\n   W=1+1d\n";
      if( w.u.empty( )) return;
      }
   char name[2][64];
   for( int f = 0; f < 2; f++)
      {
      snprintf( name[f], sizeof( name[f]), "gen_%d_%d.txt", (int)getpid( ), f);
      FILE *fp = fopen( name[f], "wb");
      REQUIRE( fp && fwrite( text[f].c_str( ), 1, text[f].size( ), fp) == text[f].size( ) && !fclose( fp), "can't write %s", name[f]);
      }
   d.note( "file 0 [%s] file 1 [%s]", text[0].c_str( ), text[1].c_str( ));
   struct tidy { char (*n)[64]; ~tidy( ) { unlink( n[0]); unlink( n[1]); load_cospar_file( NULL); } } t{ name };
   fresh( );
   int cur = -1;
   bool nt = false;
   const int n = 2 + (int)d.raw( 8);
   for( int i = 0; i < n; i++)
      {
      if( cur < 0 || d.rare( 5))
         {
         const int which = (int)d.raw( 1);
         d.note( "; load %d", which);
         REQUIRE( load_cospar_file( name[which]) == 0, "load of generated file failed");
         cur = which;
         }
      one_request( d, worlds[cur], ids( worlds[cur]), nt);
      }
   if( d.rare( 4))
      {
      double m[9], r[3];
      REQUIRE( load_cospar_file( "no_such_file.txt") == -1, "loading a missing file isn't reported");
      (void)m; (void)r;
      }
   d.nontrivial( nt);
}
