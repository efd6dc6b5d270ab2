// flavor: plain
/* Earth orientation parameters: loading, interpolation and the orientation of the earth */
#include <cstdio>
#include <string>
#include <vector>
#include <unistd.h>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "P03", "generated IERS 'finals' files of 16371 to 16900 days (starting on any of several dates, leap seconds of either sign on any day, observed then predicted rows, nutations ending early, with and without rows lacking data at the end), damaged and missing files, histories of loading, unloading and requests with any mask at instants inside, at the ends of and outside the file; non-trivial = request within the file's span",
   "Reference: the rows as generated (fixed-point), interpolated with the documented cubic in long double; Delta-T as a continuous curve; the earth's orientation composed from Lieske's precession, nutation plus corrections, IAU 1982 sidereal time and the standard polar motion rotations",
   "polar motion and nutation corrections stay within the historical ranges that the code asserts; the end intervals (one day at the start, two at the end) may be served or declined")

double default_td_minus_ut( const double jd);

static const ld pil = 3.14159265358979323846264338327950288L;
static const ld as = pil / 648000.L;
struct mat { ld m[9]; };
static mat mul( const mat &a, const mat &b)
{
   mat r;
   for( int i = 0; i < 3; i++)
      for( int j = 0; j < 3; j++)
         {
         r.m[i * 3 + j] = 0;
         for( int k = 0; k < 3; k++) r.m[i * 3 + j] += a.m[i * 3 + k] * b.m[k * 3 + j];
         }
   return( r);
}
static mat R( int axis, ld ang)           /* coordinates in axes turned by 'ang' about 'axis' */
{
   mat r = { { 0, 0, 0, 0, 0, 0, 0, 0, 0 } };
   const int a = (axis + 1) % 3, b = (axis + 2) % 3;
   r.m[axis * 4] = 1;
   r.m[a * 3 + a] = r.m[b * 3 + b] = cosl( ang);
   r.m[a * 3 + b] = sinl( ang);
   r.m[b * 3 + a] = -sinl( ang);
   return( r);
}
static ld gmst( ld jd)
{
   const ld u = jd - 2451545.L, day = floorl( u - .5L) + .5L, T0 = day / 36525.L, frac = u - day;
   const ld g0 = 24110.54841L + 8640184.812866L * T0 + .093104L * T0 * T0 - 6.2e-6L * T0 * T0 * T0;
   const ld rate = 1.002737909350795L + 5.9006e-11L * T0 - 5.9e-15L * T0 * T0;
   return( (g0 + frac * 86400.L * rate) * pil / 43200.L);
}
static ld mean_obl( ld T)
{
   const ld U = T / 100.L, c[11] = { 84381.448L, -4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L };
   ld r = 0;
   for( int i = 10; i >= 0; i--) r = r * U + c[i];
   return( r * as);
}

struct eops
{
   int mjd0, n, n_nut, n_obs, n_blank;
   std::vector<int> v[5];         /* 1e-6", 1e-6", (Delta-T, 1e-7 s), .001 mas, .001 mas */
   std::vector<int> ut1;          /* UT1-UTC,  1e-7 s */
   ld value( int which, int i) const
   {
      const ld k = v[which][i];
      return( which < 2 ? k * 1e-6L * as : which == 2 ? k * 1e-7L : k * 1e-6L * as);
   }
   bool get( int which, ld t, ld &out) const
   {
      const int lim = (which < 3 ? n : n_nut), i = (int)floorl( t);
      if( i < 1 || i > lim - 3) return( false);
      const ld a = value( which, i - 1), b = value( which, i), c = value( which, i + 1), e = value( which, i + 2), x = t - i;
               /* cubic with given values and slopes at both ends */
      const ld m0 = (c - a) / 2, m1 = (e - b) / 2;
      out = (1 + 2 * x) * (1 - x) * (1 - x) * b + x * (1 - x) * (1 - x) * m0 + x * x * (3 - 2 * x) * c + x * x * (x - 1) * m1;
      return( true);
   }
};
static const struct { int mjd, tai_utc; } starts[] = { { 41684, 12 }, { 41700, 12 }, { 43000, 15 }, { 46000, 22 }, { 48622, 26 }, { 50000, 29 }, { 53000, 32 } };

static void gen( Draw &d, eops &e)
{
   const auto st = starts[d.raw( 6)];
   e.mjd0 = st.mjd;
   e.n = 16371 + (int)( d.flip( ) ? d.raw( 5) : d.raw( 500));
   e.n_blank = (int)( d.flip( ) ? d.raw( 3) : d.raw( 100));
   e.n_nut = d.rare( 6) ? 0 : e.n - (int)( d.flip( ) ? d.raw( 10) : d.raw( 1000));
   e.n_obs = 1 + (int)d.raw( e.n - 1);
   const double ph = d.real( 0., 6.28), amp = d.real( 0., 1.), drift = d.real( -.003, .004), noise = d.flip( ) ? 0. : d.real( 0., 1.);
   unsigned long long rng = 1 + d.raw( 1000000);
   auto rnd = [&]( ) { rng = rng * 6364136223846793005ULL + 1442695040888963407ULL; return( (double)( rng >> 40) / 8388608. - 1.); };
   for( int k = 0; k < 5; k++) e.v[k].resize( e.n);
   e.ut1.resize( e.n);
   const int leap_mode = (int)d.raw( 2);
   int leaps = 0;
   double dt = st.tai_utc + 32.184 - d.real( -.85, .85);
   for( int i = 0; i < e.n; i++)
      {
      e.v[0][i] = (int)( (.04 + .2 * amp * sin( i * .0145 + ph) + .02 * noise * rnd( )) * 1e6);
      e.v[1][i] = (int)( (.28 + .2 * amp * cos( i * .0145 + ph) + .02 * noise * rnd( )) * 1e6);
      e.v[3][i] = (int)( (-40. + 60. * amp * sin( i * .001 + ph) + 5. * noise * rnd( )) * 1e3);
      e.v[4][i] = (int)( (-5. + 8. * amp * cos( i * .001 + ph) + 1. * noise * rnd( )) * 1e3);
      if( i) dt += drift + .002 * noise * rnd( );
      e.v[2][i] = (int)floor( dt * 1e7 + .5);
      double u = st.tai_utc + 32.184 + leaps - dt;
      if( i)
         {
         const double lim = leap_mode == 0 ? .7 : leap_mode == 1 ? .55 : .88;
         if( u > lim) { leaps--; u -= 1.; }
         else if( u < -lim) { leaps++; u += 1.; }
         }
      e.ut1[i] = (st.tai_utc + leaps) * 10000000 + 321840000 - e.v[2][i];
      }
}
static void put( char *buff, const char *fmt, double v, int col)
{
   char t[40];
   const int len = snprintf( t, sizeof( t), fmt, v);
   memcpy( buff + col, t, len);
}
static std::string text( const eops &e)
{
   std::string s;
   s.reserve( (e.n + e.n_blank) * 188);
   for( int i = 0; i < e.n + e.n_blank; i++)
      {
      char b[189];
      memset( b, ' ', 187);
      b[187] = '\n';
      b[188] = 0;
      memcpy( b, "73 1 2", 6);
      put( b, "%8.2f", e.mjd0 + i, 7);
      if( i < e.n)
         {
         b[16] = b[57] = (i < e.n_obs ? 'I' : 'P');
         put( b, "%9.6f", e.v[0][i] * 1e-6, 18);
         put( b, "%9.6f", .000123, 27);
         put( b, "%9.6f", e.v[1][i] * 1e-6, 37);
         put( b, "%9.6f", .000234, 46);
         put( b, "%10.7f", e.ut1[i] * 1e-7, 58);
         put( b, "%10.7f", .0000345, 68);
         if( i < e.n_nut)
            {
            b[95] = b[16];
            put( b, "%9.3f", e.v[3][i] * 1e-3, 97);
            put( b, "%9.3f", .456, 106);
            put( b, "%9.3f", e.v[4][i] * 1e-3, 116);
            put( b, "%9.3f", .567, 125);
            }
         }
      s.append( b, 188);
      }
   return( s);
}
static bool write( const char *name, const std::string &s)
{
   FILE *f = fopen( name, "wb");
   if( !f) return( false);
   const bool ok = fwrite( s.data( ), 1, s.size( ), f) == s.size( );
   return( !fclose( f) && ok);
}
static void no_eops( const char *when, double jd)
{
   earth_orientation_params p = { 9, 9, 9, 9, 9 };
   const int rv = get_earth_orientation_params( jd, &p, 31);
   REQUIRE( rv != 0 && p.dX == 0. && p.dY == 0. && p.dPsi == 0. && p.dEps == 0., "%s: returned %d and values %g %g %g %g", when, rv, p.dX, p.dY, p.dPsi, p.dEps);
   REQUIRE( p.tdt_minus_ut1 == default_td_minus_ut( jd) && td_minus_ut( jd) == p.tdt_minus_ut1, "%s: Delta-T at JD %f is %f", when, jd, p.tdt_minus_ut1);
   int info[3] = { 5, 5, 5 };
   REQUIRE( load_earth_orientation_params( NULL, info) == -1 && !info[0] && !info[1] && !info[2], "%s: dates of nonexistent data given", when);
}
static void orientation( const eops *e, double jd)
{
   const double year = 2000. + (jd - 2451545.) / 365.25;
   const double jdt = 2451545. + (year - 2000.) * 365.25;
   double m[9], dpsi, deps;
   setup_precession_with_nutation_eops( m, year);
   ld v[5] = { 0, 0, default_td_minus_ut( jdt), 0, 0 };
   if( e) for( int k = 0; k < 5; k++)
      {
      const ld t = (ld)jdt - 2400000.5L - e->mjd0;
      ld x;
      if( e->get( k, t, x)) v[k] = x;
      }
   const ld T = ((ld)year - 2000.L) / 100.L;
   nutation( (double)T, &dpsi, &deps);
   const ld ps = (ld)dpsi * as + v[3], ep = (ld)deps * as + v[4], eps = mean_obl( T);
   const ld zeta = T * (2306.2181L + T * (.30188L + T * .017998L)) * as, z = T * (2306.2181L + T * (1.09468L + T * .018203L)) * as, th = T * (2004.3109L - T * (.42665L + T * .041833L)) * as;
   mat P = mul( R( 2, -z), mul( R( 1, th), R( 2, -zeta)));
   mat N = mul( R( 0, -eps - ep), mul( R( 2, -ps), R( 0, eps)));
   const ld gst = gmst( (ld)jdt - v[2] / 86400.L) + ps * cosl( eps);
   mat M = mul( R( 0, -v[1]), mul( R( 1, -v[0]), mul( R( 2, gst), mul( N, P))));
   for( int i = 0; i < 9; i++)
      REQUIRE( fabsl( M.m[i] - m[i]) < (i < 6 ? 2e-8L : 3e-11L), "orientation of the earth at JD %.6f: element %d is %.12f, expected %.12Lf", jdt, i, m[i], M.m[i]);
}
static int wrong_format( const char *name, int *date)
{
   return( load_earth_orientation_params( name, date));
}

PROP( histories, 700, 10)
{
   eops e;
   char name[64];
   gen( d, e);
   snprintf( name, sizeof( name), "eop_%d.txt", (int)getpid( ));
   struct tidy { const char *n; ~tidy( ) { unlink( n); load_earth_orientation_params( NULL, NULL); } } t{ name };
   std::string s = text( e);
   REQUIRE( write( name, s), "can't write");
   load_earth_orientation_params( NULL, NULL);
   d.note( "file from MJD %d: %d days, %d observed, %d with nutations, %d without data", e.mjd0, e.n, e.n_obs, e.n_nut, e.n_blank);
   bool loaded = false, nt = false;
   const int steps = 3 + (int)d.raw( 200);
   for( int i = 0; i < steps; i++)
      {
      double jd = 2400000.5 + e.mjd0;
      switch( d.raw( 4))
         {
         case 0: jd += (double)d.raw( 5) + d.pick( std::vector<double>{ -3., 0., .5, -.001, .001 }); break;
         case 1: jd += (d.flip( ) ? e.n : e.n_nut) - (double)d.raw( 5) + d.pick( std::vector<double>{ 3., 0., .5, -.001, .001 }); break;
         case 2: jd += (double)d.raw( e.n); break;
         case 3: jd += d.real( 0., e.n); break;
         default: jd += d.real( -30000., 50000.); break;
         }
      const int act = (!loaded && i == 0) ? 0 : d.rare( 30) ? (int)d.raw( 3) : 4 + (int)d.raw( 5);
      switch( act)
         {
         case 0:
            {
            int date = -77;
            const int rv = load_earth_orientation_params( name, d.flip( ) ? &date : NULL);
            d.note( "; load");
            loaded = true;
            REQUIRE( rv == e.mjd0 + e.n - 1, "loading: returned %d, expected %d (the last day with data)", rv, e.mjd0 + e.n - 1);
            REQUIRE( date == -77 || date == e.mjd0 + e.n_obs - 1, "loading: last observed day given as %d, expected %d", date, e.mjd0 + e.n_obs - 1);
            break;
            }
         case 1:
            d.note( "; unload");
            REQUIRE( load_earth_orientation_params( NULL, NULL) == 0, "unloading isn't 0");
            loaded = false;
            break;
         case 2:
            d.note( "; load missing");
            REQUIRE( wrong_format( "no_such_file", NULL) == EOP_FILE_NOT_FOUND, "missing file isn't reported");
            loaded = false;
            break;
         case 3:
            {
            char bad[64];
            snprintf( bad, sizeof( bad), "eop_%d.bad", (int)getpid( ));
            struct tidy2 { const char *n; ~tidy2( ) { unlink( n); } } t2{ bad };
            std::string b = s;
            const int how = (int)d.raw( 3);
            d.note( "; load damaged (%d)", how);
            if( how == 0) b.resize( 188 * d.raw( 16370) + d.raw( 187));         /* cut short */
            else if( how == 1) b[188 * d.raw( 16370) + 12] = 'x';
            else if( how == 2) b.insert( 188 * d.raw( 16370), 1 + d.raw( 3), ' ');
            else b[188 * d.raw( 16370) + d.raw( 187)] = '\n';
            REQUIRE( write( bad, b), "can't write");
            const int rv = wrong_format( bad, NULL);
            REQUIRE( rv == (b.empty( ) ? EOP_FILE_NOT_FOUND : EOP_FILE_WRONG_FORMAT) || how == 3, "damaged file: returned %d", rv);
            if( rv > 0) load_earth_orientation_params( NULL, NULL);          /* (a newline where one was already) */
            loaded = false;
            break;
            }
         case 4: case 5: case 6:
            {
            if( !loaded) { no_eops( "nothing loaded", jd); break; }
            const int mask = d.flip( ) ? 31 : (int)d.raw( 31);
            earth_orientation_params p = { 9, 9, 9, 9, 9 };
            const int rv = get_earth_orientation_params( jd, &p, mask);
            const double got[5] = { p.dX, p.dY, p.tdt_minus_ut1, p.dPsi, p.dEps };
            const ld tt = (ld)jd - 2400000.5L - e.mjd0;
            REQUIRE( !(rv & ~mask), "JD %.6f mask %d: returned %d", jd, mask, rv);
            for( int k = 0; k < 5; k++)
               {
               ld want;
               const int lim = (k < 3 ? e.n : e.n_nut);
               if( !((mask >> k) & 1)) REQUIRE( got[k] == 0., "JD %.6f: parameter %d, not asked for, is %g", jd, k, got[k]);
               else if( e.get( k, tt, want))
                  {
                  nt = true;
                  REQUIRE( !((rv >> k) & 1), "JD %.6f: parameter %d said to be unavailable", jd, k);
                  REQUIRE( fabsl( want - got[k]) < (k == 2 ? 1e-9L : 1e-15L), "JD %.6f: parameter %d is %.15g, expected %.15Lg", jd, k, got[k], want);
                  }
               else
                  {
                  const bool outside = (tt < 0 || tt > lim - 1);
                  REQUIRE( !outside || ((rv >> k) & 1), "JD %.6f: parameter %d, outside the file, said to be available", jd, k);
                  if( (rv >> k) & 1) REQUIRE( got[k] == (k == 2 ? default_td_minus_ut( jd) : 0.), "JD %.6f: unavailable parameter %d is %.15g", jd, k, got[k]);
                  }
               }
            break;
            }
         case 7:
            {
            if( !loaded) { no_eops( "nothing loaded", jd); break; }
            ld want;
            const ld tt = (ld)jd - 2400000.5L - e.mjd0;
            const double got = td_minus_ut( jd);
            if( e.get( 2, tt, want)) { nt = true; REQUIRE( fabsl( got - want) < 1e-9L, "Delta-T at JD %.6f is %.9f, expected %.9Lf", jd, got, want); }
            else if( tt < 0 || tt > e.n - 1) REQUIRE( got == default_td_minus_ut( jd), "Delta-T at JD %.6f is %.9f", jd, got);
            int info[3];
            REQUIRE( load_earth_orientation_params( NULL, info) == 0 && info[0] == e.mjd0 && abs( info[1] - e.mjd0 - e.n) < 3 && abs( info[2] - e.mjd0 - e.n_nut) < 3,
                        "dates of data given as %d %d %d", info[0], info[1], info[2]);
            break;
            }
         default:
            {
            ld tt = (ld)jd - 2400000.5L - e.mjd0;
            if( loaded && ((tt >= 0 && tt < 1.01L) || (tt > e.n - 2.01L && tt < e.n) || (tt > e.n_nut - 2.01L && tt < e.n_nut))) break;
            if( jd > 2400000. && jd < 2500000.) { orientation( loaded ? &e : NULL, jd); nt |= loaded; }
            break;
            }
         }
      }
   d.nontrivial( nt);
}

PROP( no_file, 50000, 10)
{
   load_earth_orientation_params( NULL, NULL);
   const double jd = 2451545. + d.special( -200000., 200000.);
   d.note( "JD %.6f", jd);
   d.nontrivial( true);
   REQUIRE( get_earth_orientation_params( jd, NULL, 31) == -1, "omitted output not reported");
   if( d.flip( )) no_eops( "nothing loaded", jd);
   else
      orientation( NULL, 2451545. + fmod( jd, 50000.));
   double m[9], m2[9];
   const double y = d.real( 1500., 2500.);
   setup_precession_with_nutation( m, y);
   setup_precession_with_nutation_delta( m2, y, 0., 0.);
   for( int i = 0; i < 9; i++) REQUIRE( m[i] == m2[i], "setup_precession_with_nutation differs from zero corrections");
}
