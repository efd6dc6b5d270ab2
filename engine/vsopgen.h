/* vsopgen.h: builds 'vsop.bin' images,  and evaluates the theories stored in
them in long double.

The layout is that documented in lunar2.cpp,  big_vsop.cpp and pluto.cpp: 145
little-endian shorts giving the start of each of the 144 VSOP series (8
planets,  three coordinates,  six powers of time),  2430 terms of three doubles
each,  Pluto,  then the moon.  The library insists on a few bytes of the real
file,  which any image made here therefore shares. */

#ifndef VSOPGEN_H
#define VSOPGEN_H

#include <cstring>
#include <cstdint>
#include <cmath>
#include <vector>
#include "pbt.h"

namespace vg {

typedef long double ld;
static const ld pi = 3.14159265358979323846264338327950288L, deg = pi / 180;
static const int n_terms = 2430, size = 60874;

struct Term { double a, b, c; };
struct Lon { int d, m, mp, f; int32_t sl, sr; };
struct Lat { int d, m, mp, f; int32_t sb; };
struct PTerm { int j, s, p; int16_t c[6]; };

      /* Meeus,  table 47.A and B;  polynomials of chapter 47 */
static const Lon meeus_lon[60] = {
   {0,0,1,0,6288774,-20905355}, {2,0,-1,0,1274027,-3699111}, {2,0,0,0,658314,-2955968}, {0,0,2,0,213618,-569925}, {0,1,0,0,-185116,48888}, {0,0,0,2,-114332,-3149},
   {2,0,-2,0,58793,246158}, {2,-1,-1,0,57066,-152138}, {2,0,1,0,53322,-170733}, {2,-1,0,0,45758,-204586}, {0,1,-1,0,-40923,-129620}, {1,0,0,0,-34720,108743},
   {0,1,1,0,-30383,104755}, {2,0,0,-2,15327,10321}, {0,0,1,2,-12528,0}, {0,0,1,-2,10980,79661}, {4,0,-1,0,10675,-34782}, {0,0,3,0,10034,-23210},
   {4,0,-2,0,8548,-21636}, {2,1,-1,0,-7888,24208}, {2,1,0,0,-6766,30824}, {1,0,-1,0,-5163,-8379}, {1,1,0,0,4987,-16675}, {2,-1,1,0,4036,-12831},
   {2,0,2,0,3994,-10445}, {4,0,0,0,3861,-11650}, {2,0,-3,0,3665,14403}, {0,1,-2,0,-2689,-7003}, {2,0,-1,2,-2602,0}, {2,-1,-2,0,2390,10056},
   {1,0,1,0,-2348,6322}, {2,-2,0,0,2236,-9884}, {0,1,2,0,-2120,5751}, {0,2,0,0,-2069,0}, {2,-2,-1,0,2048,-4950}, {2,0,1,-2,-1773,4130},
   {2,0,0,2,-1595,0}, {4,-1,-1,0,1215,-3958}, {0,0,2,2,-1110,0}, {3,0,-1,0,-892,3258}, {2,1,1,0,-810,2616}, {4,-1,-2,0,759,-1897},
   {0,2,-1,0,-713,-2117}, {2,2,-1,0,-700,2354}, {2,1,-2,0,691,0}, {2,-1,0,-2,596,0}, {4,0,1,0,549,-1423}, {0,0,4,0,537,-1117},
   {4,-1,0,0,520,-1571}, {1,0,-2,0,-487,-1739}, {2,1,0,-2,-399,0}, {0,0,2,-2,-381,-4421}, {1,1,1,0,351,0}, {3,0,-2,0,-340,0},
   {4,0,-3,0,330,0}, {2,-1,2,0,327,0}, {0,2,1,0,-323,1165}, {1,1,-1,0,299,0}, {2,0,3,0,294,0}, {2,0,-1,-2,0,8752}};
static const Lat meeus_lat[60] = {
   {0,0,0,1,5128122}, {0,0,1,1,280602}, {0,0,1,-1,277693}, {2,0,0,-1,173237}, {2,0,-1,1,55413}, {2,0,-1,-1,46271}, {2,0,0,1,32573}, {0,0,2,1,17198},
   {2,0,1,-1,9266}, {0,0,2,-1,8822}, {2,-1,0,-1,8216}, {2,0,-2,-1,4324}, {2,0,1,1,4200}, {2,1,0,-1,-3359}, {2,-1,-1,1,2463}, {2,-1,0,1,2211},
   {2,-1,-1,-1,2065}, {0,1,-1,-1,-1870}, {4,0,-1,-1,1828}, {0,1,0,1,-1794}, {0,0,0,3,-1749}, {0,1,-1,1,-1565}, {1,0,0,1,-1491}, {0,1,1,1,-1475},
   {0,1,1,-1,-1410}, {0,1,0,-1,-1344}, {1,0,0,-1,-1335}, {0,0,3,1,1107}, {4,0,0,-1,1021}, {4,0,-1,1,833}, {0,0,1,-3,777}, {4,0,-2,1,671},
   {2,0,0,-3,607}, {2,0,2,-1,596}, {2,-1,1,-1,491}, {2,0,-2,1,-451}, {0,0,3,-1,439}, {2,0,2,1,422}, {2,0,-3,-1,421}, {2,1,-1,1,-366},
   {2,1,0,1,-351}, {4,0,0,1,331}, {2,-1,1,1,315}, {2,-2,0,-1,302}, {0,0,1,3,-283}, {2,1,1,-1,-229}, {1,1,0,-1,223}, {1,1,0,1,223},
   {0,1,-2,-1,-220}, {2,1,-1,-1,-220}, {1,0,1,1,-185}, {2,-1,-2,-1,181}, {0,1,2,1,-177}, {4,0,-2,-1,176}, {4,-1,-1,-1,166}, {1,0,1,-1,-164},
   {4,0,1,-1,132}, {1,0,-1,-1,-119}, {4,-1,0,-1,115}, {2,-2,0,1,107}};
static const double meeus_fund[5][5] = {
   { 218.3164591, 481267.88134236, -.0013268, 1. / 538841., -1. / 65194000. },
   { 297.8502042, 445267.1115168, -.0016300, 1. / 545868., -1. / 113065000. },
   { 357.5291092, 35999.0502909, -.0001536, 1. / 24490000., 0. },
   { 134.9634114, 477198.8676313, .0089970, 1. / 69699., -1. / 14712000. },
   { 93.2720993, 483202.0175273, -.0034029, -1. / 3526000., 1. / 863310000. }};

struct Image
{
   int head[145];
   Term term[n_terms];
   int32_t pl[42];
   PTerm pt[36];
   Lon lon[60];
   Lat lat[60];
   double fund[5][5];
   std::vector<char> bytes;

   void put( size_t at, const void *p, size_t n) { memcpy( &bytes[at], p, n); }
   void serialize( )
   {
      bytes.assign( size, 0);
      for( int i = 0; i < 145; i++)
         {
         const uint16_t h = (uint16_t)head[i];
         put( 2 * i, &h, 2);
         }
      for( int i = 0; i < n_terms; i++)
         put( 290 + 24 * i, &term[i], 24);
      put( 58610, pl, sizeof( pl));
      for( int i = 0; i < 36; i++)
         {
         const signed char x[4] = { (signed char)pt[i].j, (signed char)pt[i].s, (signed char)pt[i].p, 0 };
         put( 58778 + 16 * i, x, 4);
         put( 58782 + 16 * i, pt[i].c, 12);
         }
      for( int i = 0; i < 60; i++)
         {
         const signed char x[4] = { (signed char)lon[i].d, (signed char)lon[i].m, (signed char)lon[i].mp, (signed char)lon[i].f };
         const signed char y[4] = { (signed char)lat[i].d, (signed char)lat[i].m, (signed char)lat[i].mp, (signed char)lat[i].f };
         put( 59354 + 12 * i, x, 4);
         put( 59358 + 12 * i, &lon[i].sl, 4);
         put( 59362 + 12 * i, &lon[i].sr, 4);
         put( 60074 + 8 * i, y, 4);
         put( 60078 + 8 * i, &lat[i].sb, 4);
         }
      put( 60554, fund, 320 > sizeof( fund) ? sizeof( fund) : 320);
   }
               /* the moon as in Meeus;  the rest to be filled in */
   void moon( )
   {
      memcpy( lon, meeus_lon, sizeof( lon));
      memcpy( lat, meeus_lat, sizeof( lat));
      memcpy( fund, meeus_fund, sizeof( fund));
   }
               /* arbitrary contents,  from a seed */
   void synthetic( uint64_t seed, int style)
   {
      auto u = [&]( ) { return( (double)( pbt::splitmix( seed) >> 11) / 9007199254740992.); };
      auto n = [&]( int k) { return( (int)( pbt::splitmix( seed) % (unsigned)k)); };
      moon( );
               /* header: entries 0, 1, 10 (low byte) and 134 are checked by the library */
      head[0] = 0;
      head[1] = 38;
      head[10] = 120 + 256 * n( 3);
      head[134] = 0x93e;
      head[144] = 0x93e + n( n_terms - 0x93e + 1);
      auto fill = [&]( int a, int b)
         {
         std::vector<int> v;
         for( int i = a + 1; i < b; i++)
            v.push_back( head[a] + (style & 1 ? (head[b] - head[a]) * n( 4) / 3 : n( head[b] - head[a] + 1)));
         std::sort( v.begin( ), v.end( ));
         for( int i = a + 1; i < b; i++)
            head[i] = v[(size_t)( i - a - 1)];
         };
      fill( 1, 10);
      fill( 10, 134);
      fill( 134, 144);
      for( int i = 0; i < n_terms; i++)
         {
         term[i].a = pow( 10., u( ) * 9.) * ((style & 2) && n( 2) ? -1. : 1.);
         term[i].b = (n( 6) ? u( ) * 6.2832 : 0.);
         term[i].c = (n( 6) ? pow( 10., u( ) * 6. - 1.) * ((style & 4) && n( 2) ? -1. : 1.) : 0.);
         }
      for( int i = 0; i < 42; i++)
         pl[i] = (int32_t)( (u( ) - .5) * pow( 10., 1. + u( ) * 7.));
      for( int i = 0; i < 36; i++)
         {
         pt[i].j = n( 4);
         pt[i].s = n( 5) - 2;
         pt[i].p = n( 9) - 4;
         for( int k = 0; k < 6; k++)
            pt[i].c[k] = (int16_t)( (u( ) - .5) * pow( 10., u( ) * 4.8));
         }
      if( style & 8)          /* an altered moon */
         {
         for( int i = 1; i < 60; i++)
            {
            if( i != 46)
               {
               lon[i].d = n( 9) - 4;
               lon[i].m = n( 7) - 3;
               lon[i].mp = n( 9) - 4;
               lon[i].f = n( 9) - 4;
               lon[i].sr = (n( 8) ? (int32_t)( (u( ) - .5) * pow( 10., 1. + u( ) * 6.)) : 0);
               }
            lon[i].sl = (n( 8) ? (int32_t)( (u( ) - .5) * pow( 10., 1. + u( ) * 6.)) : 0);
            lat[i].d = n( 9) - 4;
            lat[i].m = n( 7) - 3;
            lat[i].mp = n( 9) - 4;
            lat[i].f = n( 9) - 4;
            lat[i].sb = (int32_t)( (u( ) - .5) * pow( 10., 1. + u( ) * 6.));
            }
         for( int i = 0; i < 5; i++)
            for( int j = (i ? 0 : 1); j < 5; j++)
               fund[i][j] *= (j ? 1. : .5) + u( );
         }
   }
               /* sum of the six series for one coordinate (1e-8 radian or AU);  'slack' gets
               the sum of the magnitudes of terms times relative error of their arguments */
   ld vsop( int planet, int value, ld t_cen, ld *slack, ld prec = 0, ld *dropped = nullptr) const
   {
      const ld t = t_cen / 10;
      ld rval = 0, power = 1, s = 0, small = 0;
      for( int i = 0; i < 6; i++, power *= t)
         {
         const int *h = head + (planet - 1) * 18 + value * 6 + i;
         for( int k = h[0]; k < h[1]; k++)
            {
            const ld arg = term[k].b + term[k].c * t, a = fabsl( term[k].a * power);
            rval += term[k].a * power * cosl( arg);
            s += a * (1e-15L + fabsl( term[k].c * t) * 4e-16L);
            if( a <= prec * (1 + 1e-10L))
               small += a;
            }
         }
      if( slack)
         *slack = s;
      if( dropped)
         *dropped = small;
      return( rval);
   }
   void lunar_args( ld t, ld *f) const       /* L', D, M, M', F in radians */
   {
      for( int i = 0; i < 5; i++)
         f[i] = fmodl( fund[i][0] + t * (fund[i][1] + t * (fund[i][2] + t * (fund[i][3] + t * fund[i][4]))), 360) * deg;
   }
               /* degrees,  km,  degrees */
   void lunar( ld t, ld *longitude, ld *r, ld *latitude, long prec = 0, ld *dropped = nullptr) const
   {
      ld f[5], small[3] = { 0, 0, 0 };
      lunar_args( t, f);
      const ld a1 = (119.75L + 131.849L * t) * deg, a2 = (53.09L + 479264.29L * t) * deg, a3 = (313.45L + 481266.484L * t) * deg;
      const ld e = 1 - .002516L * t - .0000074L * t * t;
      ld l = 3958 * sinl( a1) + 1962 * sinl( f[0] - f[4]) + 318 * sinl( a2), rr = 0;
      ld b = -2235 * sinl( f[0]) + 382 * sinl( a3) + 175 * (sinl( a1 - f[4]) + sinl( a1 + f[4])) + 127 * sinl( f[0] - f[3]) - 115 * sinl( f[0] + f[3]);
      if( prec > 3958)
         small[0] += 3958 + 1962 + 318;
      if( prec > 2235)
         small[2] += 2235 + 382 + 350 + 127 + 115;
      for( int i = 0; i < 60; i++)
         {
         const Lon &x = lon[i];
         const Lat &y = lat[i];
         const ld arg = x.d * f[1] + x.m * f[2] + x.mp * f[3] + x.f * f[4], arg2 = y.d * f[1] + y.m * f[2] + y.mp * f[3] + y.f * f[4];
         const ld e1 = powl( e, abs( x.m)), e2 = powl( e, abs( y.m));
         l += x.sl * e1 * sinl( arg);
         rr += x.sr * e1 * cosl( arg);
         b += y.sb * e2 * sinl( arg2);
         if( labs( x.sl) <= prec && labs( x.sr) <= prec)
            {
            small[0] += fabsl( x.sl * e1);
            small[1] += fabsl( x.sr * e1);
            }
         if( labs( y.sb) <= prec)
            small[2] += fabsl( y.sb * e2);
         }
      *longitude = f[0] / deg + l * 1e-6L;
      *r = 385000.56L + rr / 1000;
      *latitude = b * 1e-6L;
      if( dropped)
         {
         dropped[0] = small[0] * 1e-6L;
         dropped[1] = small[1] / 1000;
         dropped[2] = small[2] * 1e-6L;
         }
   }
};

inline ld wrap( ld x, ld circle)             /* to -circle / 2 ... circle / 2 */
{
   x = fmodl( x, circle);
   if( x > circle / 2) x -= circle;
   if( x < -circle / 2) x += circle;
   return( x);
}

}
#endif
