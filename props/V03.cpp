// flavor: asanu
/* PS-1996 series,  and Meeus's series for Pluto */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include "watdefs.h"
#include "lunar.h"
#include "pbt.h"
#include "vsopgen.h"
using vg::ld;
using vg::pi;

PROPERTY( "V03", "ps_1996.dat files for up to nine planets with generated secular and Poisson terms in every packed width, one to thirty blocks, dates in, on the edges of and outside the blocks, sequences of loads and positions with several series in memory at once, truncated files; generated tables for Pluto with times and cutoffs; non-trivial = a position was computed (and, for Pluto, the time isn't J2000)",
   "the sums of the file's coefficients in long double, with velocities from the derivative of the formula; the sums of Meeus's chapter 37; refusal outside the range of dates or with incomplete data; no file left open",
   "planet numbers 1 to 9; at least one frequency per planet; positions at the exact edge between blocks come from either block's series as loaded")

static int open_files( )
{
   int n = 0;
   DIR *dir = opendir( "/proc/self/fd");
   while( readdir( dir))
      n++;
   closedir( dir);
   return( n);
}

               /* the name is fixed,  so each process needs its own directory */
static bool own_directory( )
{
   static pid_t pid = 0;
   static std::string top;
   if( pid == getpid( ))
      return( true);
   char cwd[600];
   if( top.empty( ) && getcwd( cwd, sizeof( cwd)))
      top = cwd;
   pid = getpid( );
   const std::string dir = top + pbt::strf( "/ps_%d", (int)pid);
   mkdir( dir.c_str( ), 0777);
   return( !chdir( dir.c_str( )));
}

struct Series
{
   double tzero, dt;
   int nf[3], n_blocks, total;
   std::vector<double> fqs;
   std::vector<std::vector<double> > secular, terms;     /* by block */
   size_t start, end;
   std::vector<size_t> block_end;
};

static void generate( uint64_t seed, int style, Series *s, int n_planets, std::string &bytes)
{
   auto u = [&]( ) { return( (double)( pbt::splitmix( seed) >> 11) / 9007199254740992.); };
   auto n = [&]( int k) { return( (int)( pbt::splitmix( seed) % (unsigned)k)); };
   auto add = [&]( const void *p, size_t len) { bytes.append( (const char *)p, len); };
   auto add16 = [&]( int x) { const int16_t y = (int16_t)x; add( &y, 2); };

   bytes.assign( 40, '\0');
   for( int pl = 0; pl < n_planets; pl++)
      {
      Series &x = s[pl];
      const int32_t offset = (int32_t)bytes.size( );
      memcpy( &bytes[(size_t)pl * 4], &offset, 4);
      x.start = bytes.size( );
      x.tzero = floor( 2415000. + 20000. * u( )) + (n( 2) ? .5 : 0.);
      x.dt = (n( 3) ? floor( 50. + u( ) * 4000.) : 50. + u( ) * 4000.);
      x.n_blocks = (n( 8) ? 1 + n( 5) : 1 + n( 30));
      x.total = 0;
      for( int i = 0; i < 3; i++)
         x.total += (x.nf[i] = ((style & 1) ? n( 3) : n( 20)));
      if( !x.total)
         x.total = x.nf[n( 3)] = 1;
      add( &x.tzero, 8);
      add( &x.dt, 8);
      for( int i = 0; i < 3; i++)
         add16( x.nf[i]);
      add16( x.n_blocks);
      add16( x.total);
      for( int i = 0; i < x.total; i++)
         {
         x.fqs.push_back( n( 12) ? pow( 10., -5. + 5. * u( )) : 0.);
         add( &x.fqs.back( ), 8);
         }
      std::string body, sizes;
      std::vector<size_t> ends;
      for( int b = 0; b < x.n_blocks; b++)
         {
         std::vector<double> sec, terms;
         std::string block;
         for( int i = 0; i < 12; i++)
            sec.push_back( (u( ) - .5) * pow( 10., 2. + 9. * u( )));
         block.append( (const char *)&sec[0], 96);
         for( int i = 0; i < x.total; i++)
            {
            unsigned flags = 0;
            std::string packed;
            for( int k = 0; k < 6; k++)
               {
               const int kind = ((style & 2) ? n( 4) : (n( 4) ? n( 2) : n( 4)));
               double v = 0.;
               flags |= (unsigned)kind << (2 * k);
               if( kind == 0)
                  {
                  const int8_t z = (int8_t)( n( 8) ? n( 256) : n( 2) ? -128 : 127);
                  v = z;
                  packed.append( (const char *)&z, 1);
                  }
               else if( kind == 1)
                  {
                  const int16_t z = (int16_t)( n( 8) ? n( 65536) : n( 2) ? -32768 : 32767);
                  v = z;
                  packed.append( (const char *)&z, 2);
                  }
               else if( kind == 2)
                  {
                  const int32_t z = (int32_t)( (u( ) - .5) * (n( 8) ? 4294967295. : 1e6));
                  v = z;
                  packed.append( (const char *)&z, 4);
                  }
               else
                  {
                  v = (u( ) - .5) * pow( 10., 12. * u( ));
                  packed.append( (const char *)&v, 8);
                  }
               terms.push_back( v);
               }
            const uint16_t f = (uint16_t)flags;
            block.append( (const char *)&f, 2);
            block += packed;
            }
         const int16_t size = (int16_t)block.size( );
         sizes.append( (const char *)&size, 2);
         body += block;
         ends.push_back( body.size( ));
         x.secular.push_back( sec);
         x.terms.push_back( terms);
         }
      bytes += sizes;
      for( size_t e : ends)
         x.block_end.push_back( bytes.size( ) + e);
      bytes += body;
      x.end = bytes.size( );
      if( style & 4)
         bytes.append( (size_t)n( 20), 'x');
      }
}

PROP( ps1996, 6000, 20)
{
   REQUIRE( own_directory( ), "can't get a scratch directory");
   Series s[9];
   const int n_planets = d.ival( 1, 9), style = d.ival( 0, 7);
   const uint64_t seed = d.raw( 1u << 30);
   std::string bytes;
   generate( seed, style, s, n_planets, bytes);
   const bool damaged = d.rare( 10);
   const size_t size = damaged ? (size_t)d.ival( 0, (int)bytes.size( ) - 1) : bytes.size( );
   d.note( "file %llx style %d, %d planets, %d bytes of %d\n", (unsigned long long)seed, style, n_planets, (int)size, (int)bytes.size( ));
   remove( "ps_1996.dat");
   const int before = open_files( );
   REQUIRE( !load_ps1996_series( NULL, 2451545., 1), "a series was loaded from nowhere");
   FILE *fp = fopen( "ps_1996.dat", "wb");
   fwrite( bytes.data( ), size, 1, fp);
   fclose( fp);
   fp = d.flip( ) ? fopen( "ps_1996.dat", "rb") : nullptr;

   struct Loaded { void *p; int planet, block; } slot[3] = { { nullptr, 0, 0 }, { nullptr, 0, 0 }, { nullptr, 0, 0 } };
   const int n = d.ival( 1, 16);
   bool nontrivial = false;
   std::string err;
   for( int i = 0; i < n && err.empty( ); i++)
      {
      Loaded &l = slot[d.ival( 0, 2)];
      if( !l.p || d.rare( 3))                /* load a series */
         {
         if( l.p)
            unload_ps1996_series( l.p);
         l.p = nullptr;
         l.planet = d.ival( 1, n_planets);
         const Series &x = s[l.planet - 1];
         double jd;
         switch( d.ival( 0, 5))
            {
            case 0: jd = x.tzero + x.dt * d.ival( 0, x.n_blocks); break;
            case 1: jd = x.tzero - d.logreal( 1e-6, 1e6); break;
            case 2: jd = x.tzero + x.dt * x.n_blocks + d.logreal( 1e-6, 1e6); break;
            default: jd = x.tzero + x.dt * x.n_blocks * d.unit( ); break;
            }
         l.p = load_ps1996_series( fp, jd, l.planet);
         const ld where = ((ld)jd - x.tzero) / x.dt, near = floorl( where + .5L);
         const bool edge = fabsl( where - near) < 1e-9L;
         const int block = (int)floorl( where);
         d.note( "load planet %d at %.10f (block %d of %d) -> %s\n", l.planet, jd, block, x.n_blocks, l.p ? "loaded" : "no");
         if( edge)
            l.block = -1;
         else
            l.block = block;
         if( !edge || (near > 0 && near < x.n_blocks))
            {
            const bool inside = (where > 0 && where < x.n_blocks);
            const int first = edge ? (int)near - 1 : block, last = edge ? (int)near : block;
            if( !inside && l.p)
               err = "a series was loaded for a date outside those covered";
            if( inside && !l.p && size >= x.block_end[(size_t)last])
               err = "a series that was there wasn't loaded";
            if( inside && l.p && size < x.block_end[(size_t)first])
               err = "a series was loaded though its data was incomplete";
            }
         }
      else
         {
         const Series &x = s[l.planet - 1];
         const bool vel = d.flip( );
         double st[7] = { 55., 55., 55., 66., 66., 66., 77. };
         if( l.block < 0)                  /* edge: which block is it? */
            {
            for( int b = 0; b < x.n_blocks && l.block < 0; b++)
               if( !get_ps1996_position( x.tzero + x.dt * (b + .5), l.p, st, 0))
                  l.block = b;
            if( l.block < 0)
               {
               err = "series was loaded for no block";
               break;
               }
            }
         const double t0 = x.tzero + (double)l.block * x.dt;
         double jd;
         switch( d.ival( 0, 5))
            {
            case 0: jd = t0 + x.dt * d.ival( 0, 2) / 2.; break;
            case 1: jd = t0 - d.logreal( 1e-3, 1e6); break;
            case 2: jd = t0 + x.dt + d.logreal( 1e-3, 1e6); break;
            default: jd = t0 + x.dt * d.unit( ); break;
            }
         st[3] = st[4] = st[5] = 66.;
         const int rval = get_ps1996_position( jd, l.p, st, vel);
         const bool inside = (jd >= t0 && jd <= t0 + x.dt), sure = fabs( jd - t0) > 1e-4 && fabs( jd - t0 - x.dt) > 1e-4;
         d.note( "planet %d block %d at %.10f, %s -> %d: %.12g %.12g %.12g %.12g %.12g %.12g\n", l.planet, l.block, jd, vel ? "with velocity" : "position only", rval, st[0], st[1], st[2], st[3], st[4], st[5]);
         if( sure && rval != (inside ? 0 : -1))
            {
            err = pbt::strf( "return value %d for a date %s the block", rval, inside ? "in" : "outside");
            break;
            }
         if( st[6] != 77. || (!vel && (st[3] != 66. || st[4] != 66. || st[5] != 66.)))
            err = "more was stored than was asked for";
         if( rval)
            continue;
         nontrivial = true;
         d.cls( vel ? "position and velocity" : "position");
         const std::vector<double> &sec = x.secular[(size_t)l.block], &term = x.terms[(size_t)l.block];
         const ld tau = (ld)jd - t0 - (ld)x.dt / 2, z = 2 * tau / x.dt, dz = 2 / (ld)x.dt;
         for( int k = 0; k < 3 && err.empty( ); k++)
            {
            const double *c = &sec[(size_t)k * 4];
            ld pos = c[0] + z * (c[1] + z * (c[2] + z * c[3])), v = dz * (c[1] + z * (2 * c[2] + z * 3 * c[3]));
            ld size1 = fabsl( c[0]) + fabsl( c[1]) + fabsl( c[2]) + fabsl( c[3]), size2 = dz * (fabsl( c[1]) + 2 * fabsl( c[2]) + 3 * fabsl( c[3]));
            int j = 0;
            for( int m = 0; m < 3; m++)
               for( int q = 0; q < x.nf[m]; q++, j++)
                  {
                  const ld w = x.fqs[(size_t)j], a = term[(size_t)( j * 6 + k * 2)], b = term[(size_t)( j * 6 + k * 2 + 1)];
                  const ld zm = (m == 2 ? z * z : m ? z : 1), dzm = (m == 2 ? 2 * z * dz : m ? dz : 0);
                  const ld co = cosl( w * tau), si = sinl( w * tau), amp = (fabsl( a) + fabsl( b)) * (1 + fabsl( w) * x.dt);
                  pos += zm * (a * co + b * si);
                  v += dzm * (a * co + b * si) + zm * w * (b * co - a * si);
                  size1 += amp;
                  size2 += amp * (w + 2 * dz);
                  }
                        /* JDs of about 2.4e6 in blocks' offsets: 1e-9 day */
            const ld tol1 = 1e-10L * (size1 * 1e-14L + size2 * 1e-9L), tol2 = 1e-10L * size2 * (1e-14L + 1e-9L * (1 + 2 * dz));
            if( !(fabsl( st[k] - pos * 1e-10L) <= tol1))
               err = pbt::strf( "coordinate %d is %.15g instead of %.15Lg", k, st[k], pos * 1e-10L);
            if( vel && !(fabsl( st[k + 3] - v * 1e-10L) <= tol2))
               err = pbt::strf( "velocity %d is %.15g instead of %.15Lg", k, st[k + 3], v * 1e-10L);
            }
         }
      }
   for( Loaded &l : slot)
      if( l.p)
         unload_ps1996_series( l.p);
   if( fp)
      fclose( fp);
   remove( "ps_1996.dat");
   if( damaged)
      d.cls( "truncated file");
   d.nontrivial( nontrivial);
   REQUIRE( err.empty( ), "%s", err.c_str( ));
   REQUIRE( open_files( ) == before, "%d files were open before,  %d afterward", before, open_files( ));
}

PROP( pluto, 20000, 20)
{
   vg::Image im;
   const int style = d.ival( 0, 7);
   const uint64_t seed = d.raw( 1u << 30);
   const double t = (d.rare( 8) ? 0. : d.rare( 3) ? (double)d.ival( -10, 10) : d.real( -20., 20.));
   const long prec = (d.rare( 3) ? (long)d.logreal( 1., 40000.) : 0);
   im.synthetic( seed, style);
   im.serialize( );
   char *data = (char *)malloc( vg::size);
   memcpy( data, &im.bytes[0], vg::size);
   double o[4] = { 1, 1, 1, 77. };
   const int rval = calc_pluto_loc( data, o, t, prec);
   free( data);
   d.note( "file %llx style %d: t %.15g cutoff %ld -> %.15g %.15g %.15g\n", (unsigned long long)seed, style, t, prec, o[0], o[1], o[2]);
   d.nontrivial( t != 0.);
   d.cls( prec ? "limited precision" : "full precision");
   const ld jup = (34.35L + 3034.9057L * t) * vg::deg, sat = (50.08L + 1222.1138L * t) * vg::deg, plu = (238.96L + 144.96L * t) * vg::deg;
   ld v[3] = { 238.956785L + 144.96L * t, -3.908202L, 40.7247248L }, tol[3], drop[3] = { 0, 0, 0 };
   for( int k = 0; k < 3; k++)
      {
      const ld unit = (k == 2 ? 1e-7L : 1e-6L);
      tol[k] = fabsl( v[k]) * 1e-14L;
      for( int i = 0; i < 43; i++)
         {
         ld arg, a, b;
         if( i < 7)
            {
            arg = (i == 6 ? jup - plu : (i + 1) * plu);
            a = im.pl[i * 6 + k * 2];
            b = im.pl[i * 6 + k * 2 + 1];
            }
         else
            {
            const vg::PTerm &p = im.pt[i - 7];
            bool small = true;
            arg = p.j * jup + p.s * sat + p.p * plu;
            a = p.c[k * 2];
            b = p.c[k * 2 + 1];
            for( int q = 0; q < 6; q++)
               if( abs( p.c[q]) > prec)
                  small = false;
            if( small)
               drop[k] += unit * (fabsl( a) + fabsl( b));
            }
         v[k] += unit * (a * sinl( arg) + b * cosl( arg));
         tol[k] += unit * (fabsl( a) + fabsl( b)) * (1e-14L + fabsl( t) * 2e-13L);
         }
      if( k < 2)
         {
         v[k] *= vg::deg;
         tol[k] *= vg::deg;
         drop[k] *= vg::deg;
         }
      }
   REQUIRE( !rval && o[3] == 77., "return value %d or too many values", rval);
   for( int k = 0; k < 3; k++)
      REQUIRE( fabsl( o[k] - v[k]) <= tol[k] + drop[k] + 1e-15L, "coordinate %d is %.15g instead of %.15Lg", k, o[k], v[k]);
}
