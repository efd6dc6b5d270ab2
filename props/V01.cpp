// flavor: asanu
/* Planetary positions from VSOP87 */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include "watdefs.h"
#include "lunar.h"
#include "afuncs.h"
#include "pbt.h"
#include "vsopgen.h"
using vg::ld;
using vg::pi;

int get_earth_loc( const double t_millennia, double *results);     /* eart2000.cpp */

PROPERTY( "V01", "generated data files in the formats of vsop.bin and big_vsop.bin (series of any lengths including none, amplitudes over nine orders of magnitude, either sign), sequences of requests for planets, coordinates, times within 40 centuries of J2000 and precisions; times within 60 centuries for the built-in theory of the earth; non-trivial = the time isn't J2000 and some series has terms",
   "the sum of the file's series in long double; the built-in theory's table of coefficients in long double, and its agreement with the equinox-of-date solar theory of Meeus's chapter 25; coordinate systems by composing rotations; truncated results differ by no more than what was neglected",
   "planets 0 to 10 and coordinates 0 to 2; data that isn't that of a vsop.bin is refused by assertions, by design; changing big_vsop.bin while the program runs isn't supported")

static double epoch( pbt::Draw &d, double range)
{
   switch( d.ival( 0, 7))
      {
      case 0: return( 0.);
      case 1: return( d.real( -1e-3, 1e-3));
      case 2: return( (double)d.ival( -10, 10));
      case 3: return( d.real( -range, range));
      default: return( d.real( -3., 3.));
      }
}

static std::vector<char> exact( const std::vector<char> &v) { return( std::vector<char>( v)); }

PROP( small_file, 12000, 20)
{
   vg::Image im;
   const int style = d.ival( 0, 15);
   const uint64_t seed = d.raw( 1u << 30);
   im.synthetic( seed, style);
   im.serialize( );
   char *data = (char *)malloc( vg::size);
   memcpy( data, &im.bytes[0], vg::size);
   const int n = d.ival( 1, 12);
   bool nontrivial = false;
   std::string err;

   d.note( "file %llx style %d\n", (unsigned long long)seed, style);
   for( int i = 0; i < n && err.empty( ); i++)
      {
      const int planet = d.ival( 0, 8), value = d.ival( 0, 2);
      const double t = epoch( d, 40.);
      double prec = d.rare( 3) ? d.logreal( 1., 1e9) : 0.;
      if( prec && d.rare( 3))
         prec = -prec;
      const double got = calc_vsop_loc( data, planet, value, t, prec);
      d.note( "planet %d coordinate %d t %.15g prec %.6g -> %.15g\n", planet, value, t, prec, got);
      if( !planet)
         {
         if( got != 0.)
            err = "the sun isn't at the origin";
         continue;
         }
      ld slack, dropped, want = im.vsop( planet, value, t, &slack, fabs( prec), &dropped) * 1e-8L;
      const ld tol = (slack + fabsl( want * 1e8L) * 4e-16L + (prec ? dropped : 0)) * 1e-8L + 1e-15L;
      ld diff = got - want;
      if( im.head[(planet - 1) * 18 + value * 6 + 6] > im.head[(planet - 1) * 18 + value * 6] && t != 0.)
         nontrivial = true;
      if( !value)
         {
         diff = vg::wrap( diff, 2 * pi);
         if( !(got >= 0. && got <= (double)( 2 * pi)))
            err = pbt::strf( "longitude %.17g isn't between 0 and 2pi", got);
         }
      if( !(fabsl( diff) <= tol))
         err = pbt::strf( "planet %d coordinate %d at %.15g,  precision %.6g: %.17g instead of %.17Lg (tolerance %Lg)", planet, value, t, prec, got, want, tol);
      d.cls( prec != 0. ? "limited precision" : "full precision");
      }
   free( data);
   d.nontrivial( nontrivial);
   REQUIRE( err.empty( ), "%s", err.c_str( ));
}

static int open_files( )
{
   int n = 0;
   DIR *dir = opendir( "/proc/self/fd");
   while( readdir( dir))
      n++;
   closedir( dir);
   return( n);
}

               /* the name is fixed,  so each process needs its own directory */
static bool own_directory( )
{
   static pid_t pid = 0;
   static std::string top;
   if( pid == getpid( ))
      return( true);
   char cwd[600];
   if( top.empty( ) && getcwd( cwd, sizeof( cwd)))
      top = cwd;
   pid = getpid( );
   const std::string dir = top + pbt::strf( "/vsop_%d", (int)pid);
   mkdir( dir.c_str( ), 0777);
   return( !chdir( dir.c_str( )));
}

PROP( big_file, 4000, 20)
{
   REQUIRE( own_directory( ), "can't get a scratch directory");
   vg::Image im;
   const int style = d.ival( 0, 15);
   const uint64_t seed = d.raw( 1u << 30);
   im.synthetic( seed, style);
               /* in radians and AU,  not in units of 1e-8 */
   for( vg::Term &t : im.term)
      t.a *= 1e-8;
   im.serialize( );
   const bool damaged = d.rare( 8);
   const size_t file_size = (damaged ? (size_t)d.ival( 0, 290 + 24 * im.head[144]) : (size_t)( 290 + 24 * im.head[144]));
   remove( "big_vsop.bin");
   const int before = open_files( );
   double o[5] = { 5., 5., 5., 77., 88. };
   REQUIRE( calc_big_vsop_loc( NULL, 3, o, 0., 0.) == -1 && !o[0] && !o[1] && !o[2], "missing file not reported");
   FILE *fp = fopen( "big_vsop.bin", "wb");
   fwrite( &im.bytes[0], file_size, 1, fp);
   fclose( fp);
   d.note( "file %llx style %d,  %d bytes of %d\n", (unsigned long long)seed, style, (int)file_size, 290 + 24 * im.head[144]);
               /* make sure the library has the header of this file */
   calc_big_vsop_loc( NULL, 1, o, 0., 0.);
   calc_big_vsop_loc( NULL, 2, o, 0., 0.);
   fp = d.flip() ? fopen( "big_vsop.bin", "rb") : nullptr;
   const int n = d.ival( 1, 8);
   bool nontrivial = false;
   std::string err;

   for( int i = 0; i < n && err.empty( ); i++)
      {
      const int planet = d.ival( 0, 8);
      const double t = epoch( d, 40.);
      double prec = d.rare( 3) ? d.logreal( 1e-8, 1e1) : 0.;
      if( prec && d.rare( 3))
         prec = -prec;
      if( fp && d.rare( 4))
         fseek( fp, d.ival( 0, 100000), SEEK_SET);
      const int rval = calc_big_vsop_loc( d.rare( 3) ? NULL : fp, planet, o, t, prec);
      d.note( "planet %d t %.15g prec %.6g -> %d: %.15g %.15g %.15g\n", planet, t, prec, rval, o[0], o[1], o[2]);
      if( !planet)
         {
         if( rval || o[0] || o[1] || o[2])
            err = "the sun isn't at the origin";
         continue;
         }
      if( rval)
         {
         if( file_size >= (size_t)( 290 + 24 * im.head[planet * 18]))
            err = pbt::strf( "failed (%d) with all the data there", rval);
         d.cls( "damaged file");
         continue;
         }
      if( file_size < (size_t)( 290 + 24 * im.head[planet * 18]) && im.head[planet * 18] > im.head[(planet - 1) * 18])
         {
         err = pbt::strf( "planet %d: data was missing,  but that wasn't reported", planet);
         break;
         }
      for( int value = 0; value < 3 && err.empty( ); value++)
         {
         ld slack, dropped, want = im.vsop( planet, value, t, &slack, fabs( prec), &dropped);
         const ld tol = slack + fabsl( want) * 4e-16L + (prec ? dropped : 0) + 1e-15L;
         ld diff = o[value] - want;
         if( im.head[(planet - 1) * 18 + value * 6 + 6] > im.head[(planet - 1) * 18 + value * 6] && t != 0.)
            nontrivial = true;
         if( !value)
            {
            diff = vg::wrap( diff, 2 * pi);
            if( !(o[0] >= 0. && o[0] <= (double)( 2 * pi)))
               err = pbt::strf( "longitude %.17g isn't between 0 and 2pi", o[0]);
            }
         if( !(fabsl( diff) <= tol))
            err = pbt::strf( "planet %d coordinate %d at %.15g,  precision %.6g: %.17g instead of %.17Lg (tolerance %Lg)", planet, value, t, prec, o[value], want, tol);
         }
      d.cls( prec != 0. ? "limited precision" : "full precision");
      }
   if( fp)
      fclose( fp);
   remove( "big_vsop.bin");
   d.nontrivial( nontrivial);
   REQUIRE( err.empty( ), "%s", err.c_str( ));
   REQUIRE( o[3] == 77. && o[4] == 88., "more than three values stored");
   REQUIRE( open_files( ) == before, "%d files were open before,  %d afterward", before, open_files( ));
}

static const int ecount[18] = { 64, 34, 20, 7, 2, 0, 5, 7, 4, 3, 2, 0, 40, 10, 6, 2, 1, 0 };
static const double etab[207][3] = {
#include "earth_j2000.inc"
};

PROP( earth, 60000, 20)
{
   const double t = epoch( d, 60.) / 10.;
   double r[8] = { 0, 0, 0, 0, 0, 0, 77., 88. };
   ld v[3], tol[3];
   int k = 0;

   d.note( "t = %.15g millennia\n", t);
   d.nontrivial( t != 0.);
   get_earth_loc( t, r);
   for( int i = 0; i < 3; i++)
      {
      ld p = 1;
      v[i] = tol[i] = 0;
      for( int j = 0; j < 6; j++, p *= t)
         for( int n = 0; n < ecount[i * 6 + j]; n++, k++)
            {
            v[i] += etab[k][0] * p * cosl( etab[k][1] + (ld)etab[k][2] * t);
            tol[i] += fabsl( etab[k][0] * p) * (1e-15L + fabsl( etab[k][2] * t) * 4e-16L);
            }
      v[i] *= 1e-8L;
      tol[i] = tol[i] * 1e-8L + fabsl( v[i]) * 2e-15L + 1e-15L;
      REQUIRE( fabsl( r[i + 3] - v[i]) < tol[i], "coordinate %d is %.17g instead of %.17Lg at %.15g millennia", i, r[i + 3], v[i], t);
      }
   const ld x[3] = { v[2] * cosl( v[0]) * cosl( v[1]), v[2] * sinl( v[0]) * cosl( v[1]), v[2] * sinl( v[1]) };
   for( int i = 0; i < 3; i++)
      REQUIRE( fabsl( r[i] - x[i]) < 1e-14L + tol[0] + tol[1] + tol[2], "x%d is %.17g instead of %.17Lg at %.15g millennia", i, r[i], x[i], t);
   REQUIRE( r[6] == 77. && r[7] == 88., "more than six values stored");
               /* against the low-precision solar theory,  with general precession */
   const ld T = (ld)t * 10, deg = pi / 180;
   if( fabsl( T) < 5)
      {
      const ld L0 = 280.46646L + 36000.76983L * T + .0003032L * T * T, M = (357.52911L + 35999.05029L * T - .0001537L * T * T) * deg, e = .016708634L - .000042037L * T;
      const ld C = (1.914602L - .004817L * T) * sinl( M) + (.019993L - .000101L * T) * sinl( 2 * M) + .000289L * sinl( 3 * M);
      const ld lon = L0 + C + 180 - (5029.0966L * T + 1.11161L * T * T) / 3600, nu = M + C * deg, R = 1.000001018L * (1 - e * e) / (1 + e * cosl( nu));
      REQUIRE( fabsl( vg::wrap( r[3] / deg - lon, 360)) < .02L && fabsl( r[5] - R) < 2e-4L && fabsl( r[4] / deg) < .013L * fabsl( T) + .001L,
             "at %.15g millennia the earth is at longitude %.8Lg, latitude %.8Lg, distance %.8g;  roughly %.8Lg, 0, %.8Lg", t, fmodl( r[3] / deg, 360), r[4] / deg, r[5], fmodl( lon, 360), R);
      }
}

PROP( systems, 6000, 20)
{
   vg::Image im;
   const int style = d.ival( 0, 15);
   const uint64_t seed = d.raw( 1u << 30);
   const int planet = d.ival( 0, 10);
   const double t = epoch( d, 20.);
   im.synthetic( seed, style);
   for( int i = 0; i < vg::n_terms; i++)
      im.term[i].a *= .01;
   im.serialize( );
   char *data = (char *)malloc( vg::size);
   memcpy( data, &im.bytes[0], vg::size);
   double o[17];
   for( double &x : o)
      x = 77.;
   compute_planet( data, planet, t, o);
   ld lon = 0, lat = 0, r = 0, tol = 1e-12L, s;

   d.note( "file %llx style %d: planet %d t %.15g\n", (unsigned long long)seed, style, planet, t);
   d.cls( planet == 10 ? "moon" : planet == 9 ? "pluto" : planet ? "planets" : "sun");
   d.nontrivial( planet && t != 0.);
   const double obliq = mean_obliquity( t), eps0 = 23.4392911 * (double)pi / 180.;
   double m[9];
   setup_precession( m, 2000. + t * 100., 2000.);
   if( planet == 9)
      {
      double p[3];
      calc_pluto_loc( data, p, t, 0L);
      const ld x = p[2] * cosl( p[0]) * cosl( p[1]), y = p[2] * sinl( p[0]) * cosl( p[1]), z = p[2] * sinl( p[1]);
      free( data);
      const ld sc = fabs( p[2]) + 1e-9L;
      REQUIRE( fabsl( o[12] - x) < 1e-11L * sc && fabsl( o[13] - y) < 1e-11L * sc && fabsl( o[14] - z) < 1e-11L * sc, "J2000 ecliptic position %.12g %.12g %.12g,  instead of %.12Lg %.12Lg %.12Lg", o[12], o[13], o[14], x, y, z);
      lon = o[0];
      lat = o[1];
      r = o[2];
      tol = 1e-11L;
      }
   else
      {
      free( data);
      if( planet == 10)
         {
         im.lunar( t, &lon, &r, &lat);
         lon *= pi / 180;
         lat *= pi / 180;
         r /= AU_IN_KM;
         tol = 1e-10L + 1e-9L * fabsl( t);
         }
      else if( planet)
         {
         lon = im.vsop( planet, 0, t, &s) * 1e-8L;
         tol += s * 1e-8L;
         lat = im.vsop( planet, 1, t, &s) * 1e-8L;
         tol += s * 1e-8L;
         r = im.vsop( planet, 2, t, &s) * 1e-8L;
         tol += s * 1e-8L;
         }
      REQUIRE( fabsl( vg::wrap( o[0] - lon, 2 * pi)) < tol && fabsl( o[1] - lat) < tol && fabsl( o[2] - r) < tol * (1 + fabsl( r)), "longitude %.15g latitude %.15g distance %.15g,  instead of %.15Lg %.15Lg %.15Lg", o[0], o[1], o[2], fmodl( lon, 2 * pi), lat, r);
      }
   const ld x = r * cosl( lon) * cosl( lat), y = r * sinl( lon) * cosl( lat), z = r * sinl( lat), tt = (tol + 1e-14L) * (1 + fabsl( r));
   const ld eq[3] = { x, y * cosl( obliq) - z * sinl( obliq), y * sinl( obliq) + z * cosl( obliq) };
   ld j[3];
   for( int i = 0; i < 3; i++)
      j[i] = m[i * 3] * eq[0] + m[i * 3 + 1] * eq[1] + m[i * 3 + 2] * eq[2];
   const ld want[12] = { x, y, z, eq[0], eq[1], eq[2], j[0], j[1], j[2],
            j[0], j[1] * cosl( eps0) + j[2] * sinl( eps0), j[2] * cosl( eps0) - j[1] * sinl( eps0) };
   for( int i = 0; i < 12; i++)
      REQUIRE( fabsl( o[i + 3] - want[i]) < tt * 4, "planet %d at %.15g: value %d is %.15g instead of %.15Lg", planet, t, i + 3, o[i + 3], want[i]);
   REQUIRE( o[15] == 77. && o[16] == 77., "more than fifteen values stored");
}
