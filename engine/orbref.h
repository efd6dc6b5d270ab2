/* Reference two-body propagation,  in long double,  by universal variables.
Independent of the code under test. */
#ifndef ORBREF_H
#define ORBREF_H
#include <cmath>
namespace orbref {
typedef long double ld;
static const ld PI_L = 3.14159265358979323846264338327950288419716939937510582L;

inline void stumpff( ld z, ld &c, ld &s)       /* C(z), S(z) */
{
   if( z > 1.L)
      { const ld q = sqrtl( z); c = (1.L - cosl( q)) / z; s = (q - sinl( q)) / (q * z); }
   else if( z < -1.L)
      { const ld q = sqrtl( -z); c = (1.L - coshl( q)) / z; s = (sinhl( q) - q) / (q * -z); }
   else
      {
      ld t = .5L, u = 1.L / 6.L;
      c = s = 0.L;
      for( int k = 0; k < 25; k++)
         {
         c += t; s += u;
         t *= -z / (ld)( (2 * k + 3) * (2 * k + 4));
         u *= -z / (ld)( (2 * k + 4) * (2 * k + 5));
         }
      }
}

            /* orientation:  P toward periapsis,  Q in the direction of motion there */
inline void orient( ld incl, ld node, ld argper, ld *P, ld *Q)
{
   const ld ci = cosl( incl), si = sinl( incl), cn = cosl( node), sn = sinl( node), cw = cosl( argper), sw = sinl( argper);
   P[0] = cn * cw - sn * sw * ci;
   P[1] = sn * cw + cn * sw * ci;
   P[2] = sw * si;
   Q[0] = -cn * sw - sn * cw * ci;
   Q[1] = -sn * sw + cn * cw * ci;
   Q[2] = cw * si;
}

            /* state dt after periapsis;  in-plane coordinates x,y,  vx,vy */
inline void in_plane( ld q, ld e, ld gm, ld dt, ld *xy, ld *vxy)
{
   const ld alpha = (1.L - e) / q, sg = sqrtl( gm);
   if( e < 1.L)
      {
      const ld a = q / (1.L - e), period = 2.L * PI_L * a * sqrtl( a / gm);
      dt -= period * roundl( dt / period);
      }
   const ld T = fabsl( dt) * sg;
   ld lo = 0.L, hi = 1.L, c, s;
   auto f = [&]( ld x) { stumpff( alpha * x * x, c, s); return( q * x + e * x * x * x * s - T); };
   hi = sqrtl( q);
   while( f( hi) < 0.L) { lo = hi; hi *= 2.L; }
   ld x = .5L * (lo + hi);
   for( int i = 0; i < 200; i++)
      {
      const ld v = f( x);
      if( v > 0.L) hi = x; else lo = x;
      ld dv = q + e * x * x * c;             /* dF/dx = r */
      ld nx = x - v / dv;
      if( !(nx > lo && nx < hi)) nx = .5L * (lo + hi);
      if( fabsl( nx - x) <= 1e-19L * fabsl( x) || lo == hi) { x = nx; break; }
      x = nx;
      }
   if( T == 0.L) x = 0.L;
   stumpff( alpha * x * x, c, s);
   const ld r = q + e * x * x * c;
   const ld v0 = sqrtl( gm * (1.L + e) / q);
   const ld ff = 1.L - x * x * c / q;
   const ld gg = (T - x * x * x * s) / sg;
   const ld fd = sg / (r * q) * x * (alpha * x * x * s - 1.L), gd = 1.L - x * x * c / r;
   const ld sign = dt < 0.L ? -1.L : 1.L;
   xy[0] = ff * q;
   xy[1] = gg * v0 * sign;
   vxy[0] = fd * q * sign;
   vxy[1] = gd * v0;
}

inline void state( ld q, ld e, ld incl, ld node, ld argper, ld gm, ld dt, ld *pos, ld *vel)
{
   ld P[3], Q[3], xy[2], vxy[2];
   orient( incl, node, argper, P, Q);
   in_plane( q, e, gm, dt, xy, vxy);
   for( int i = 0; i < 3; i++)
      {
      pos[i] = P[i] * xy[0] + Q[i] * xy[1];
      if( vel) vel[i] = P[i] * vxy[0] + Q[i] * vxy[1];
      }
}
}
#endif
