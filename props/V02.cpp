// flavor: asanu
/* Lunar theories: Meeus's chapter 47,  ELP 2000-82B */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include "watdefs.h"
#include "lunar.h"
#include "pbt.h"
#include "vsopgen.h"
using vg::ld;
using vg::pi;

PROPERTY( "V02", "vsop.bin images with Meeus's lunar tables or altered ones, times within 60 centuries of J2000, cutoffs; elp82.dat files with 36 generated series of 0 to 3000 terms (any multipliers, phases and signs, descending amplitudes), with polynomials near the real ones; non-trivial = the time isn't J2000",
   "the published formulae of the two theories summed in long double; truncated sums differ by no more than what was left out; files missing or too short reported with zeroes for results",
   "elp82.dat files cut off within the series aren't generated (the library doesn't report them); little-endian files as the library requires")

static double epoch( pbt::Draw &d, double range)
{
   switch( d.ival( 0, 7))
      {
      case 0: return( 0.);
      case 1: return( d.real( -1e-3, 1e-3));
      case 2: return( (double)d.ival( -10, 10));
      case 3: return( d.real( -range, range));
      default: return( d.real( -3., 3.));
      }
}

PROP( meeus, 30000, 20)
{
   vg::Image im;
   const int style = (d.flip( ) ? 8 : 0);
   const uint64_t seed = (style ? d.raw( 1u << 30) : 0);
   const double t = epoch( d, 60.);
   const long prec = (d.rare( 3) ? (long)d.logreal( 1., 3e7) : d.rare( 6) ? d.ival( 2230, 4000) : 0);
   im.synthetic( seed, style);
   im.serialize( );
   char *data = (char *)malloc( vg::size);
   memcpy( data, &im.bytes[0], vg::size);
   double fund[N_FUND + 1], lon = 77., r[2] = { 77., 88. };
   ld f[5], want[3], drop[3];

   d.note( "file %llx style %d: t %.15g,  cutoff %ld\n", (unsigned long long)seed, style, t, prec);
   d.nontrivial( t != 0.);
   d.cls( style ? "altered tables" : "Meeus's tables");
   if( prec)
      d.cls( "truncated");
   fund[N_FUND] = 99.;
   lunar_fundamentals( data, t, fund);
   im.lunar_args( t, f);
   const ld extra[3] = { 119.75L + 131.849L * t, 53.09L + 479264.29L * t, 313.45L + 481266.484L * t };
   for( int i = 0; i < 8; i++)
      {
      const ld w = (i < 5 ? f[i] : extra[i - 5] * vg::deg);
      REQUIRE( fund[i] >= 0. && fund[i] <= (double)( 2 * pi), "fundamental argument %d is %.15g", i, fund[i]);
      REQUIRE( fabsl( vg::wrap( fund[i] - w, 2 * pi)) < 1e-13L + 1e-11L * fabsl( t), "fundamental argument %d is %.15g instead of %.15Lg at t = %.15g", i, fund[i], w, t);
      }
   REQUIRE( fund[8] == t && fund[N_FUND] == 99., "time not stored,  or too much stored");
   im.lunar( t, want, want + 1, want + 2, prec, drop);
   const int rval = lunar_lon_and_dist( data, fund, &lon, r, prec);
   const double lat = lunar_lat( data, fund, prec);
   free( data);
   const ld tol = 1e-8L + 2e-8L * fabsl( t);     /* arguments lose 1e-12 rad per century */
   REQUIRE( !rval && r[1] == 88. && lon >= 0. && lon <= 360., "return value %d,  longitude %.15g", rval, lon);
   REQUIRE( fabsl( vg::wrap( lon - want[0], 360)) < tol + drop[0], "longitude %.15g instead of %.15Lg,  t = %.15g, %Lg may be dropped", lon, want[0], t, drop[0]);
   REQUIRE( fabsl( r[0] - want[1]) < tol * 100 + drop[1], "distance %.15g instead of %.15Lg,  t = %.15g, %Lg may be dropped", r[0], want[1], t, drop[1]);
   REQUIRE( fabsl( lat - want[2]) < tol + drop[2], "latitude %.15g instead of %.15Lg,  t = %.15g, %Lg may be dropped", lat, want[2], t, drop[2]);
}

static int open_files( )
{
   int n = 0;
   DIR *dir = opendir( "/proc/self/fd");
   while( readdir( dir))
      n++;
   closedir( dir);
   return( n);
}

               /* the name is fixed,  so each process needs its own directory */
static bool own_directory( )
{
   static pid_t pid = 0;
   static std::string top;
   if( pid == getpid( ))
      return( true);
   char cwd[600];
   if( top.empty( ) && getcwd( cwd, sizeof( cwd)))
      top = cwd;
   pid = getpid( );
   const std::string dir = top + pbt::strf( "/elp_%d", (int)pid);
   mkdir( dir.c_str( ), 0777);
   return( !chdir( dir.c_str( )));
}

struct ElpTerm { int32_t amp, phase; signed char c[11]; };

struct Elp
{
   int32_t offsets[74];
   double poly[39];
   std::vector<ElpTerm> s[36];
   std::string bytes;

   static int n_coeffs( int type) { return( !type ? 4 : type < 3 ? 5 : type < 7 ? 11 : 4); }

   void generate( uint64_t seed, int style, int big)
   {
      auto u = [&]( ) { return( (double)( pbt::splitmix( seed) >> 11) / 9007199254740992.); };
      auto n = [&]( int k) { return( (int)( pbt::splitmix( seed) % (unsigned)k)); };
               /* radians */
      static const double rates[12] = { 8399.684, 70.993, -33.781, 628.302, .0056, 2608.79, 1021.33, 334.06, 52.969, 21.33, 7.478, 3.813 };
      for( int i = 0; i < 5; i++)
         {
         poly[i * 5] = u( ) * 6.2832;
         poly[i * 5 + 1] = rates[i] * (style & 1 ? .5 + u( ) : 1.);
         for( int j = 2; j < 5; j++)
            poly[i * 5 + j] = (u( ) - .5) * pow( 10., -2. - 2. * j);
         }
      for( int i = 0; i < 7; i++)
         {
         poly[25 + i] = u( ) * 6.2832;
         poly[32 + i] = rates[i + 5] * (style & 1 ? .5 + u( ) : 1.);
         }
      for( int i = 0; i < 36; i++)
         {
         const int nterms = (i == big ? 500 + n( 2500) : (style & 2) ? n( 3) : (style & 4) ? n( 40) : n( 12));
         const double top = 3. + 6. * u( );
         s[i].resize( (size_t)nterms);
         for( ElpTerm &t : s[i])
            {
            t.amp = (int32_t)pow( 10., top * u( ));
            if( n( 2))
               t.amp = -t.amp;
            t.phase = (int32_t)( u( ) * 36000000. * (n( 4) ? 1. : -1.));
            for( int k = 0; k < 11; k++)
               t.c[k] = (signed char)( n( 3) ? n( 5) - 2 : n( 8) ? n( 41) - 20 : n( 256) - 128);
            }
         std::sort( s[i].begin( ), s[i].end( ), []( const ElpTerm &a, const ElpTerm &b) { return( labs( a.amp) > labs( b.amp)); });
         }
      std::string body;
      for( int i = 0; i < 36; i++)
         {
         offsets[i * 2] = (int32_t)( 608 + body.size( ));
         offsets[i * 2 + 1] = (int32_t)s[i].size( );
         for( const ElpTerm &t : s[i])
            {
            body.append( (const char *)&t.amp, 4);
            if( i > 2)
               body.append( (const char *)&t.phase, 4);
            body.append( (const char *)t.c, (size_t)n_coeffs( i / 3));
            }
         if( style & 8)
            body.append( (size_t)n( 30), 'x');
         }
      offsets[72] = offsets[73] = 0;
      bytes = std::string( (const char *)offsets, 296) + std::string( (const char *)poly, 312) + body;
   }
               /* spherical,  in radians and km */
   void position( ld t, double prec, ld *v, ld *dropped, ld *slack) const
   {
      const ld sec = pi / 648000;
      ld f[5], pl[7], arg[4], lin[5], zeta;
      for( int i = 0; i < 5; i++)
         f[i] = poly[i * 5] + t * (poly[i * 5 + 1] + t * (poly[i * 5 + 2] + t * (poly[i * 5 + 3] + t * poly[i * 5 + 4])));
      for( int i = 0; i < 7; i++)
         pl[i] = poly[25 + i] + t * poly[32 + i];
      arg[0] = f[0] - f[3] + pi;             /* D, l', l, F */
      arg[1] = f[3] - f[4];
      arg[2] = f[0] - f[1];
      arg[3] = f[0] - f[2];
               /* constants of Chapront-Touze & Chapront */
      const ld w1 = ((218 * 60 + 18) * 60 + 59.95571L) * sec, w2 = ((83 * 60 + 21) * 60 + 11.67475L) * sec, w3 = ((125 * 60 + 2) * 60 + 40.39816L) * sec,
               te = ((100 * 60 + 27) * 60 + 59.22059L) * sec, om = ((102 * 60 + 56) * 60 + 14.42753L) * sec;
      const ld w1d = 1732559343.73604L * sec, w2d = 14643420.2632L * sec, w3d = -6967919.3622L * sec, ted = 129597742.2758L * sec, omd = 1161.2283L * sec;
      lin[0] = w1 - te + pi + t * (w1d - ted);
      lin[1] = te - om + t * (ted - omd);
      lin[2] = w1 - w2 + t * (w1d - w2d);
      lin[3] = w1 - w3 + t * (w1d - w3d);
      lin[4] = te + t * ted;
      zeta = w1 + t * (w1d + 5029.0966L * sec);
      v[0] = f[0] + 22639.58578L * sec * sinl( arg[2]);
      v[1] = 0;
      v[2] = 385000.52719L;
      slack[0] = slack[1] = slack[2] = dropped[0] = dropped[1] = dropped[2] = 0;
      for( int i = 0; i < 36; i++)
         {
         const int type = i / 3, which = i % 3;
         const ld power = ((type == 2 || type == 4 || type == 6 || type == 8) ? t : type == 11 ? t * t : 1);
         const ld cutoff = (which == 2 ? prec * 384747.980674L : prec / sec) * 100000;
         ld sum = 0, small = 0, size = 0;
         for( const ElpTerm &x : s[i])
            {
            ld a = (type ? x.phase * 1e-5L * vg::deg : 0);
            switch( type)
               {
               case 0:
                  for( int k = 0; k < 4; k++)
                     a += x.c[k] * arg[k];
                  break;
               case 3: case 4:
                  a += x.c[0] * pl[0] + x.c[1] * pl[1] + x.c[2] * lin[4] + x.c[3] * pl[2] + x.c[4] * pl[3] + x.c[5] * pl[4] + x.c[6] * pl[5] + x.c[7] * pl[6]
                     + x.c[8] * lin[0] + x.c[9] * lin[2] + x.c[10] * lin[3];
                  break;
               case 5: case 6:
                  a += x.c[0] * pl[0] + x.c[1] * pl[1] + x.c[2] * lin[4] + x.c[3] * pl[2] + x.c[4] * pl[3] + x.c[5] * pl[4] + x.c[6] * pl[5];
                  for( int k = 0; k < 4; k++)
                     a += x.c[7 + k] * lin[k];
                  break;
               default:
                  for( int k = 0; k < 4; k++)
                     a += x.c[k] * lin[k];
                  if( type < 3)
                     a += x.c[4] * zeta;
                  break;
               }
            sum += x.amp * (i == 2 ? cosl( a) : sinl( a));
            int mult = 1;
            for( int k = 0; k < n_coeffs( type); k++)
               mult += abs( x.c[k]);
            size += (ld)labs( x.amp) * mult;
            if( labs( x.amp) < cutoff)
               small += labs( x.amp);
            }
         const ld unit = (which == 2 ? 1e-5L : 1e-5L * sec);
         v[which] += sum * unit * power;
         dropped[which] += small * unit * fabsl( power);
         slack[which] += size * unit * fabsl( power);
         }
   }
};

PROP( elp, 1600, 20)
{
   REQUIRE( own_directory( ), "can't get a scratch directory");
   Elp e;
   const int style = d.ival( 0, 15);
   const int big = (d.rare( 3) ? d.ival( 0, 35) : -1);
   const uint64_t seed = d.raw( 1u << 30);
   const bool damaged = d.rare( 12);
   e.generate( seed, style, big);
   const size_t size = damaged ? (size_t)d.ival( 0, 607) : e.bytes.size( );
   const int n = d.ival( 1, 6), before = open_files( );
   double o[6] = { 5., 5., 5., 5., 77., 88. };

   d.note( "file %llx style %d, long series %d, %d bytes of %d\n", (unsigned long long)seed, style, big, (int)size, (int)e.bytes.size( ));
   remove( "elp82.dat");
   REQUIRE( compute_elp_xyz( NULL, 0., 0., o) == -1, "missing file not reported");
   FILE *fp = fopen( "elp82.dat", "wb");
   fwrite( e.bytes.data( ), size, 1, fp);
   fclose( fp);
   fp = d.flip( ) ? fopen( "elp82.dat", "rb") : nullptr;
   std::string err;
   bool nontrivial = false;
   for( int i = 0; i < n && err.empty( ); i++)
      {
      const double t = epoch( d, 50.);
      const double prec = d.rare( 3) ? d.logreal( 1e-11, 1e-2) : 0.;
      const int rval = compute_elp_xyz( fp, t, prec, o);
      d.note( "t %.15g precision %.6g -> %d: %.15g %.15g %.15g %.15g\n", t, prec, rval, o[0], o[1], o[2], o[3]);
      if( t != 0.)
         nontrivial = true;
      if( damaged)
         {
         if( !rval || o[0] || o[1] || o[2] || o[3])
            err = pbt::strf( "header of %d bytes: return value %d, %g %g %g %g", (int)size, rval, o[0], o[1], o[2], o[3]);
         continue;
         }
      if( rval)
         {
         err = pbt::strf( "failed (%d) with a complete file", rval);
         break;
         }
      ld v[3], drop[3], slack[3];
      const ld year = 2000 + 100 * (ld)t, tt = t - .000091L * (-23.8946L + 26) * (year - 1955) * (year - 1955) / (86400. * 36525.);
      e.position( tt, prec, v, drop, slack);
      const ld x = v[2] * cosl( v[0]) * cosl( v[1]), y = v[2] * sinl( v[0]) * cosl( v[1]), z = v[2] * sinl( v[1]);
      const ld p = tt * (.10180391e-4L + tt * (.47020439e-6L + tt * (-.5417367e-9L + tt * (-.2507948e-11L + tt * .463486e-14L))));
      const ld q = tt * (-.113469002e-3L + tt * (.12372674e-6L + tt * (.1265417e-8L + tt * (-.1371808e-11L + tt * -.320334e-14L))));
      const ld root = 2 * sqrtl( 1 - p * p - q * q);
      const ld want[3] = { (1 - 2 * p * p) * x + 2 * p * q * y + p * root * z, 2 * p * q * x + (1 - 2 * q * q) * y - q * root * z,
               -p * root * x + q * root * y + (1 - 2 * p * p - 2 * q * q) * z };
               /* mean longitudes of about 8400 t radians,  multiplied (see 'slack') */
      const ld arg_err = 2e-15L * (8400 * fabsl( t) + 7);
      const ld r = fabsl( v[2]), tol = (arg_err + slack[0] * arg_err + slack[1] * arg_err + drop[0] + drop[1]) * r + slack[2] * arg_err + drop[2] + (fabsl( v[0]) + fabsl( v[1]) + 1) * 1e-15L * r;
      if( !(fabsl( o[3] - v[2]) <= slack[2] * arg_err + drop[2] + r * 1e-14L))
         err = pbt::strf( "distance %.15g instead of %.15Lg", o[3], v[2]);
      for( int j = 0; j < 3 && err.empty( ); j++)
         if( !(fabsl( o[j] - want[j]) <= tol * 1.01L))
            err = pbt::strf( "coordinate %d is %.15g instead of %.15Lg (t %.15g,  precision %g,  tolerance %Lg)", j, o[j], want[j], t, prec, tol);
      d.cls( prec != 0. ? "limited precision" : "full precision");
      }
   if( fp)
      fclose( fp);
   remove( "elp82.dat");
   d.nontrivial( nontrivial && !damaged);
   REQUIRE( err.empty( ), "%s", err.c_str( ));
   REQUIRE( o[4] == 77. && o[5] == 88., "more than four values stored");
   REQUIRE( open_files( ) == before, "%d files were open before,  %d afterward", before, open_files( ));
}
