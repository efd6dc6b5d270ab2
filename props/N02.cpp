// flavor: plain
// extra: rocks.cpp
/* Satellites of Jupiter, Saturn and Neptune: the published theories, and mechanics */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <vector>
#include <initializer_list>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "N02", "instants from -3000 to 7000 (mostly 1600-2400) for the four Galilean satellites (every subset, with and without the fictitious pole satellite), the nine classical satellites of Saturn and Triton, in histories of several requests in any order; numbers that are no satellite; non-trivial = instant not 0h",
   "The published series (Lieske E5 as given by Meeus ch. 44, Dourneau's theory of the satellites of Saturn as in Meeus ch. 46, the Explanatory Supplement's Triton) written anew in long double with an exact Kepler solution; mechanics: acceleration from three successive positions against GM/r^2, orbit poles against the IAU poles, the Laplace resonance; Triton against the precessing ellipse of rocks.cpp",
   "the smaller terms of the theories the author says he omits are omitted; Phoebe ('should not be trusted very much') only against its own elements; mechanics 1800-2200 only")

static const ld pil = 3.14159265358979323846264338327950288L, rad = pil / 180.L;
static const ld au_km = 149597870.7L;

struct v3 { ld x[3]; };
static v3 rotz( v3 a, ld th) { return v3{ { a.x[0] * cosl( th) - a.x[1] * sinl( th), a.x[0] * sinl( th) + a.x[1] * cosl( th), a.x[2] } }; }
static v3 rotx( v3 a, ld th) { return v3{ { a.x[0], a.x[1] * cosl( th) - a.x[2] * sinl( th), a.x[1] * sinl( th) + a.x[2] * cosl( th) } }; }
static ld dot( v3 a, v3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static v3 cross( v3 a, v3 b) { return v3{ { a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0] } }; }
static ld len( v3 a) { return sqrtl( dot( a, a)); }
static ld angle( v3 a, v3 b) { return atan2l( len( cross( a, b)), dot( a, b)); }

            /* ---------------- Jupiter ---------------- */
struct jargs { ld l[5], p[5], w[5], psi, per, g, gp, lib; };
static jargs jupiter( ld jd)
{
   const ld t = jd - 2443000.5L;
   static const ld L[5][2] = { {}, { 106.07719L, 203.488955790L }, { 175.73161L, 101.374724735L }, { 120.55883L, 50.317609209L }, { 84.44459L, 21.571071177L } };
   static const ld P[5][2] = { {}, { 97.0881L, .16138586L }, { 154.8663L, .04726307L }, { 188.1840L, .00712734L }, { 335.2868L, .00184000L } };
   static const ld W[5][2] = { {}, { 312.3346L, -.13279386L }, { 100.4411L, -.03263064L }, { 119.1942L, -.00717703L }, { 322.6168L, -.00175934L } };
   jargs a;
   for( int i = 1; i < 5; i++)
      {
      a.l[i] = (L[i][0] + L[i][1] * t) * rad;
      a.p[i] = (P[i][0] + P[i][1] * t) * rad;
      a.w[i] = (W[i][0] + W[i][1] * t) * rad;
      }
   const ld gam = .33033L * sinl( (163.679L + .0010512L * t) * rad) + .03439L * sinl( (34.486L - .0161731L * t) * rad);
   a.lib = (199.6766L + .17379190L * t) * rad;
   a.psi = (316.5182L - .00000208L * t) * rad;
   a.g = (30.23756L + .0830925701L * t + gam) * rad;
   a.gp = (31.97853L + .0334597339L * t) * rad;
   a.per = 13.469942L * rad;
   return( a);
}
struct jt { ld c, arg; };
static ld sum_sin( std::initializer_list<jt> v) { ld s = 0; for( auto &t : v) s += t.c * sinl( t.arg); return( s); }
static ld sum_cos( std::initializer_list<jt> v) { ld s = 0; for( auto &t : v) s += t.c * cosl( t.arg); return( s); }

static v3 galilean( ld jd, int sat)                      /* 1..4;  5 = unit vector along Jupiter's pole */
{
   const jargs a = jupiter( jd);
   const ld l1 = a.l[1], l2 = a.l[2], l3 = a.l[3], l4 = a.l[4];
   const ld p1 = a.p[1], p2 = a.p[2], p3 = a.p[3], p4 = a.p[4];
   const ld w1 = a.w[1], w2 = a.w[2], w3 = a.w[3], w4 = a.w[4];
   const ld psi = a.psi, G = a.g, Gp = a.gp, Pi = a.per, S = psi - 2 * Pi - 2 * G;
   ld lon = 0, tanb = 0, r = 0;
   v3 v;
   switch( sat)
      {
      case 1:
         lon = l1 + rad * 1e-5L * sum_sin( { { 47259, 2 * (l1 - l2) }, { -3478, p3 - p4 }, { 1081, l2 - 2 * l3 + p3 }, { 738, a.lib },
               { 713, l2 - 2 * l3 + p2 }, { -674, p1 + p3 - 2 * Pi - 2 * G }, { 666, l2 - 2 * l3 + p4 }, { 445, l1 - p3 },
               { -354, l1 - l2 }, { -317, 2 * psi - 2 * Pi }, { 265, l1 - p4 }, { -186, G }, { 162, p2 - p3 },
               { 158, 4 * (l1 - l2) }, { -155, l1 - l3 } });
         tanb = 1e-7L * sum_sin( { { 6393, lon - w1 }, { 1825, lon - w2 }, { 329, lon - w3 }, { -311, lon - psi }, { 93, lon - w4 } });
         r = 5.90569L * (1 + 1e-7L * sum_cos( { { -41339, 2 * (l1 - l2) }, { -387, l1 - p3 }, { -214, l1 - p4 }, { 170, l1 - l2 },
               { -131, 4 * (l1 - l2) }, { 106, l1 - l3 } }));
         break;
      case 2:
         {
         const ld d = rad * 1e-5L * sum_sin( { { 106476, 2 * (l2 - l3) }, { 4256, l1 - 2 * l2 + p3 }, { 3581, l2 - p3 }, { 2395, l1 - 2 * l2 + p4 },
               { 1984, l2 - p4 }, { -1778, a.lib }, { 1654, l2 - p2 }, { 1334, l2 - 2 * l3 + p2 }, { 1294, p3 - p4 }, { -1142, l2 - l3 },
               { -1057, G }, { -775, 2 * (psi - Pi) }, { 524, 2 * (l1 - l2) }, { -460, l1 - l3 }, { 316, S + w3 },
               { -203, p1 + p3 - 2 * Pi - 2 * G }, { 146, psi - w3 }, { -145, 2 * G }, { 125, psi - w4 }, { -115, l1 - 2 * l3 + p3 },
               { -94, 2 * (l2 - w2) } });
         lon = l2 + d;
         tanb = 1e-7L * sum_sin( { { 81004, lon - w2 }, { 4512, lon - w3 }, { -3284, lon - psi }, { 1160, lon - w4 },
               { 272, l1 - 2 * l3 + 1.0146L * d + w2 }, { -144, lon - w1 }, { 143, lon + S } });
         r = 9.39657L * (1 + 1e-7L * sum_cos( { { 93848, l1 - l2 }, { -3116, l2 - p3 }, { -1744, l2 - p4 }, { -1442, l2 - p2 }, { 553, l2 - l3 },
               { 523, l1 - l3 }, { -290, 2 * (l1 - l2) }, { 164, 2 * (l2 - w2) }, { 107, l1 - 2 * l3 + p3 }, { -102, l2 - p1 }, { -91, 2 * (l1 - l3) } }));
         }
         break;
      case 3:
         lon = l3 + rad * 1e-5L * sum_sin( { { 16490, l3 - p3 }, { 9081, l3 - p4 }, { -6907, l2 - l3 }, { 3784, p3 - p4 }, { 1846, 2 * (l3 - l4) },
               { -1340, G }, { -1014, 2 * (psi - Pi) }, { 704, l2 - 2 * l3 + p3 }, { -620, l2 - 2 * l3 + p2 }, { -541, l3 - l4 },
               { 381, l2 - 2 * l3 + p4 }, { 235, psi - w3 }, { 198, psi - w4 }, { 176, a.lib }, { 130, 3 * (l3 - l4) }, { 125, l1 - l3 },
               { -119, 5 * Gp - 2 * G + 52.225L * rad }, { 109, l1 - l2 }, { -100, 3 * l3 - 7 * l4 + 4 * p4 }, { 91, w3 - w4 },
               { 80, 3 * l3 - 7 * l4 + p3 + 3 * p4 }, { -75, 2 * l2 - 3 * l3 + p3 }, { 72, p1 + p3 - 2 * Pi - 2 * G }, { 69, p4 - Pi },
               { -58, 2 * l3 - 3 * l4 + p4 }, { -57, l3 - 2 * l4 + p4 }, { 56, l3 + p3 - 2 * Pi - 2 * G }, { -52, l2 - 2 * l3 + p1 }, { -50, p2 - p3 } });
         tanb = 1e-7L * sum_sin( { { 32402, lon - w3 }, { -16911, lon - psi }, { 6847, lon - w4 }, { -2797, lon - w2 },
               { 321, lon + S }, { 51, lon - psi + G }, { -45, lon - psi - G }, { -45, lon + psi - 2 * Pi } });
         r = 14.98832L * (1 + 1e-7L * sum_cos( { { -14388, l3 - p3 }, { -7919, l3 - p4 }, { 6342, l2 - l3 }, { -1761, 2 * (l3 - l4) },
               { 294, l3 - l4 }, { -156, 3 * (l3 - l4) }, { 156, l1 - l3 }, { -153, l1 - l2 }, { 70, 2 * l2 - 3 * l3 + p3 } }));
         break;
      case 4:
         lon = l4 + rad * 1e-5L * sum_sin( { { 84287, l4 - p4 }, { 3431, p4 - p3 }, { -3305, 2 * (psi - Pi) }, { -3211, G }, { -1862, l4 - p3 },
               { 1186, psi - w4 }, { 623, l4 + p4 - 2 * G - 2 * Pi }, { 387, 2 * (l4 - p4) }, { -284, 5 * Gp - 2 * G + 52.225L * rad },
               { -234, 2 * (psi - p4) }, { -223, l3 - l4 }, { -208, l4 - Pi }, { 178, psi + w4 - 2 * p4 }, { 134, p4 - Pi },
               { 125, 2 * (l4 - G - Pi) }, { -117, 2 * G }, { -112, 2 * (l3 - l4) } });
         tanb = 1e-7L * sum_sin( { { -76579, lon - psi }, { 44134, lon - w4 }, { -5112, lon - w3 }, { 773, lon + S }, { 104, lon - psi + G },
               { -102, lon - psi - G }, { 88, lon + S - G }, { -38, lon + S + G } });
         r = 26.36273L * (1 + 1e-7L * sum_cos( { { -73546, l4 - p4 }, { 1621, l4 - p3 }, { 974, l3 - l4 }, { -543, l4 + p4 - 2 * Pi - 2 * G },
               { -271, 2 * (l4 - p4) }, { 182, l4 - Pi }, { 177, 2 * (l3 - l4) }, { -167, 2 * l4 - psi - w4 }, { 167, psi - w4 },
               { -155, 2 * (l4 - Pi - G) }, { 142, 2 * (l4 - psi) }, { 105, l1 - l4 }, { 92, l2 - l4 }, { -89, l4 - Pi - G },
               { -62, l4 + p4 - 2 * Pi - 3 * G }, { 48, 2 * (l4 - w4) } }));
         break;
      }
   if( sat == 5) v = v3{ { 0, 0, 1 } };
   else
      {
      const ld b = atanl( tanb);
      v = v3{ { r * cosl( lon - psi) * cosl( b), r * sinl( lon - psi) * cosl( b), r * sinl( b) } };
      }
   const ld T = (jd - 2451545.L) / 36525.L, T0 = (jd - 2433282.423L) / 36525.L, T1900 = (jd - 2415020.L) / 36525.L;
   const ld prec = (1.3966626L + .0003088L * T0) * T0 * rad;
   const ld node = (100.464407L + T * (1.0209774L + T * (.00040315L + T * .000000404L))) * rad;
   const ld incl = (1.303267L + T * (-.0054965L + T * (.00000466L - T * .000000002L))) * rad;
   v = rotx( v, (3.120262L + .0006L * T1900) * rad);
   v = rotz( v, psi + prec - node);
   v = rotx( v, incl);
   return( rotz( v, node));
}

            /* ---------------- Saturn ---------------- */
struct kep { ld a, e, i, node, per, lam; bool equator; };         /* per, lam: longitudes in degrees' radians */
static const ld unit = 9.538937L * pil / 180.L / 3600.L;          /* arcsec at mean distance -> AU */

static v3 on_ellipse( const kep &k)
{
   const ld M = remainderl( k.lam - k.per, 2 * pil);
   ld E = M;
   for( int n = 0; n < 60; n++) { const ld d = (E - k.e * sinl( E) - M) / (1 - k.e * cosl( E)); E -= d; if( fabsl( d) < 1e-19L) break; }
   v3 v = { { k.a * (cosl( E) - k.e), k.a * sqrtl( 1 - k.e * k.e) * sinl( E), 0 } };
   v = rotz( v, k.per - k.node);
   v = rotx( v, k.i);
   return( rotz( v, k.node));
}
static kep saturnian( ld jd, int sat)
{
   const ld i1 = 28.0817L, O1 = 168.8112L;                        /* Saturn's equator on the 1950 ecliptic, degrees */
   kep k;
   k.equator = sat < 4;
   const ld t1 = jd - 2411093.L, y1 = t1 / 365.25L;
   const ld t3 = jd - 2411368.L, y3 = t3 / 365.25L;
   auto S = []( ld deg) { return sinl( deg * rad); };
   auto C = []( ld deg) { return cosl( deg * rad); };
   ld lam = 0, per = 0, node = 0, inc = 0;
   if( sat == 0 || sat == 2)
      {
      const ld W = 5.095L * ((jd - 2451545.L) / 365.25L + 2000.L - 1866.39L);
      const ld lib = -43.57L * S( W) - .7209L * S( 3 * W) - .0205L * S( 5 * W);
      if( sat == 0)
         {
         k.a = 26.8180L; k.e = .01905L; inc = 1.563L; lam = 127.64L + 381.994497L * t1 + lib;
         node = 54.5L - 365.072L * y1; per = 106.1L + 365.549L * y1;
         }
      else
         {
         k.a = 42.6393L; k.e = 0; inc = 1.0976L; lam = 285.306L + 190.69791226L * t1 - lib / 21.12L;
         node = 111.33L - 72.2441L * y1; per = 0;
         }
      }
   else if( sat == 1 || sat == 3)
      {
      const ld lib = (15.4L * S( 74.4L + 32.39L * y1) + 12.59L * S( 134.3L + 92.62L * y1)) / 60.L;
      if( sat == 1)
         {
         k.a = 34.4301L; k.e = .00485L; inc = .0262L; lam = 200.317L + 262.7319002L * t1 + lib;
         node = 348.L - 151.95L * y1; per = 309.107L + 123.44121L * y1;
         }
      else
         {
         k.a = 54.5876L; k.e = .002157L; inc = .0139L; lam = 254.712L + 131.53493193L * t1 - lib / 12.L;
         node = 232.L - 30.27L * y1; per = 174.8L + 30.82L * y1;
         }
      }
   else if( sat == 4)
      {
      const ld N = 345.L - 10.057L * y1, Nt = 42.02L - .5118L * y1, p = 342.7L + 10.057L * y1, pt = 276.59L + .5118L * y1;
      const ld ks = .000265L * S( p) + .001L * S( pt), kc = .000265L * C( p) + .001L * C( pt);
      k.a = 76.2277L; k.e = hypotl( ks, kc); per = atan2l( ks, kc) / rad;
      lam = 359.244L + 79.6900472L * t1 + .00151337L / rad * S( N);
      inc = i1 - .0455L + .3469L * C( N) + .0193L * C( Nt);
      node = O1 - .0078L + (.3469L * S( N) + .0193L * S( Nt)) / S( i1);
      }
   else if( sat == 5)
      {
      const ld N = 42.L - .5118L * y3, p = 276.59L + .5118L * y3;
      lam = 261.1582L + 22.57697855L * t3 + .00129131L / rad * S( N);
      inc = i1 - .6303L + .2960L * C( N);
      node = O1 - .1420L + .2960L * S( N) / S( i1);
      const ld g = p - node - 4.6L, g0 = 103.199L;
      k.a = 176.6041L;
      k.e = .029092L * (1 + .3752L * rad * (C( 2 * g) - C( 2 * g0)));
      per = p + .3752L * (S( 2 * g) - S( 2 * g0));
      }
   else if( sat == 6)
      {
      const ld d = jd - 2415020.L, y = d / 365.25L, T = (jd - 2442000.5L) / 365.25L;
      const ld tau = 92.39L + .5621071L * d, zeta = 148.19L - 19.18L * y, phi = -34.7L - 61.7840L * y;
      const ld th = 184.8L - 35.41L * T, thp = 177.3L - 35.41L * T, Nt = 42.02L - .5118L * y3;
      const ld ls = 176.L + 12.22L * y, bs = 8.L + 24.44L * y, ds = bs + 5.L;
      const ld N = 94.9L - 2.292L * y;
      inc = i1 - .13L + .6435L * C( N) + .315L * C( Nt) - .018L * C( ds) + .018L * C( th);
      node = O1 - .747L + (.6435L * S( N) + .315L * S( Nt) - .018L * S( ds) + .0168L * S( thp)) / S( i1 - .13L);
      const ld both = .6435L * tanl( (i1 - .13L) / 2 * rad) * S( N);
      lam = 177.0470L + 16.91993829L * d + both + 9.142L * S( tau) + .007L * S( 2 * tau) - .014L * S( 3 * tau) + .2275L * S( zeta + tau)
            + .2112L * S( zeta - tau) - .26L * S( zeta) - .0098L * S( 2 * zeta) - .013L * S( ls) + .017L * S( bs) - .0303L * S( phi);
      per = 69.898L - 18.67088L * y + both - .4457L * S( tau) - .2657L * S( zeta + tau) - .3573L * S( zeta - tau) - 12.872L * S( zeta)
            + 1.668L * S( 2 * zeta) - .2419L * S( 3 * zeta);
      k.a = 214.0790L + (-.00003509L * C( tau) - .00000067L * C( zeta + tau) + .00000071L * C( zeta - tau)) / unit;
      k.e = .103458L - .004099L * C( tau) - .000167L * C( zeta + tau) + .000235L * C( zeta - tau) + .02303L * C( zeta)
            - .00212L * C( 2 * zeta) + .000151L * C( 3 * zeta) + .00013L * C( phi);
      }
   else if( sat == 7)
      {
      const ld d = jd - 2409786.L, T9 = d / 36525.L;
      const ld T = (jd - 2415020.L) / 36525.L;
      const ld e0 = .028298L + .001156L * T9, a0 = 514.8431L;
      const ld w0 = 352.91L + 11.71L * T9;
      const ld i0 = 18.4602L - .9518L * T9 - .072L * T9 * T9 + .0054L * T9 * T9 * T9;
      const ld O0 = 143.198L - 3.919L * T9 + .116L * T9 * T9 + .008L * T9 * T9 * T9;
      const ld lam0 = 76.3852L + 4.53795125L * d;
      const ld L = lam0 - w0, psi = 4.367L - .195L * T, phi = 60.470L + 1.521L * T;
      const ld g = w0 - O0 - psi, g1 = w0 - O0 - phi;
      const ld ls = 267.263L + 1222.114L * T - (91.796L + .562L * T);
      const ld gs = 91.796L + .562L * T - (146.819L - 3.918L * T);
      const ld lt = 261.319L + 22.576974L * t3 - (277.102L + .001389L * t3);
      const ld gt = 277.102L + .001389L * t3 - (205.055L - 2.091L * T);
      const ld U1 = 2 * (ls + gs - g), U2 = L + g1 - lt - gt, U3 = L + 2 * (g - ls - gs), U4 = lt + gt - g1, U5 = 2 * (ls + gs);
      k.a = a0 * (1 + 1e-5L * (7.87L * C( 2 * L - U1) + 98.79L * C( U2)));
      k.e = e0 + 1e-5L * (-140.97L * C( g1 - gt) + 37.33L * C( U1) + 11.80L * C( U3) + 24.08L * C( L) + 28.49L * C( L + U2) + 61.90L * C( U4));
      per = w0 + (.08077L * S( g1 - gt) + .02139L * S( U1) - .00676L * S( U3) + .01380L * S( L) + .01632L * S( L + U2) + .03547L * S( U4)) / e0;
      lam = lam0 - .04299L * S( U2) - .00789L * S( 2 * L - U1) - .06312L * S( ls) - .00295L * S( 2 * ls) - .02231L * S( U5) + .00650L * S( U5 + psi);
      inc = i0 + .04204L * C( U5 + psi) + .00235L * C( L + g1 + lt + gt + phi) + .00360L * C( U2 + phi);
      node = O0 + (.04204L * S( U5 + psi) + .00235L * S( L + g1 + lt + gt + phi) + .00358L * S( U2 + phi)) / S( i0);
      }
   else
      {
      const ld d = jd - 2433282.5L, y = d / 365.25L;
      k.a = 1872.0552L; k.e = .16326L; inc = 173.949L - .02L * y;
      node = 245.998L - .41353L * y;
      lam = 2 * node - (277.872L - .6541068L * d);
      per = 2 * node - (280.165L - .19586L * y);
      }
   if( k.equator) { lam -= O1; per -= O1; node -= O1; }
   k.a *= unit; k.i = inc * rad; k.node = node * rad; k.lam = fmodl( lam, 360.L) * rad; k.per = fmodl( per, 360.L) * rad;
   return( k);
}
static ld mean_obl( ld T)                 /* mean obliquity (Laskar), degrees */
{
   const ld U = T / 100;
   static const ld c[] = { 84381.448L, -4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L };
   ld s = 0;
   for( int i = 10; i >= 0; i--) s = s * U + c[i];
   return( s / 3600.L);
}
static v3 ecl_prec( v3 v, ld T, bool to)           /* ecliptic J2000 <-> ecliptic of date */
{
   const ld as = rad / 3600.L;
   const ld eta = T * (47.0029L + T * (-.03302L + .00006L * T)) * as;
   const ld Pi = 174.876384L * rad - T * (869.8089L - .03536L * T) * as;
   const ld p = T * (5029.0966L + T * (1.11113L - .00006L * T)) * as;
   if( to) return( rotz( rotx( rotz( v, -Pi), -eta), Pi + p));
   return( rotz( rotx( rotz( v, -Pi - p), eta), Pi));
}
static v3 saturnian_xyz( ld jd, int sat)           /* ecliptic of date, AU */
{
   const kep k = saturnian( jd, sat);
   v3 v = on_ellipse( k);
   if( k.equator) v = rotz( rotx( v, 28.0817L * rad), 168.8112L * rad);
   v = rotx( v, 23.445792L * rad - mean_obl( -.5L) * rad);      /* the 1950 ecliptic as the theory has it */
   v = ecl_prec( v, -.5L, false);
   return( ecl_prec( v, (jd - 2451545.L) / 36525.L, true));
}
            /* ---------------- Triton ---------------- */
static v3 triton( ld jd)
{
   const ld N = (359.28L + 54.308L * (jd - 2451545.L) / 36525.L) * rad, y = (jd - 2433282.5L) / 365.25L;
   const ld ap = 298.72L + 2.58L * sinl( N) - .04L * sinl( 2 * N), dp = 42.63L - 1.90L * cosl( N) + .01L * cosl( 2 * N);
   const v3 pole2000 = { { cosl( ap * rad) * cosl( dp * rad), sinl( ap * rad) * cosl( dp * rad), sinl( dp * rad) } };
   const ld o50 = mean_obl( -.5L) * rad, o20 = mean_obl( 0) * rad;
   const v3 pole = rotx( ecl_prec( rotx( pole2000, -o20), -.5L, true), o50);
   const ld u = (200.913L + 61.2588532L * (jd - 2433282.5L)) * rad;
   v3 v = { { cosl( u), sinl( u), 0 } };
   v = rotx( v, 158.996L * rad);
   v = rotz( v, (151.401L + .57806L * y) * rad);
   const ld ra = atan2l( pole.x[1], pole.x[0]), dec = asinl( pole.x[2]);
   v = rotx( v, pil / 2 - dec);
   v = rotz( v, ra + pil / 2);
   v = rotx( ecl_prec( rotx( v, -o50), -.5L, false), o20);
   for( int i = 0; i < 3; i++) v.x[i] *= 488.49L * pil / 180.L / 3600.L;
   return( v);
}

static double draw_jd( pbt::Draw &d, double lo, double hi)
{
   double jd;
   switch( (int)d.raw( 3))
      {
      case 0: jd = (double)d.ival( (int64_t)lo, (int64_t)hi) + (d.flip( ) ? .5 : 0.); break;
      case 1: jd = d.pick( std::vector<double>{ 2451545., 2433282.5, 2443000.5, 2411093., 2411368., 2415020., 2409786., 2442000.5, 2433282.423 }); if( d.flip( )) jd += d.real( -3., 3.); break;
      default: jd = d.real( lo, hi);
      }
   return( jd);
}
static double any_jd( pbt::Draw &d) { return( d.rare( 4) ? draw_jd( d, 625332., 4277757.) : draw_jd( d, 2305447., 2597641.)); }
static std::string show( const double *v) { return( pbt::strf( "(%.12f %.12f %.12f)", v[0], v[1], v[2])); }

PROP( galilean_series, 150000, 12)
{
   const int n = (int)d.ival( 1, 4);
   for( int step = 0; step < n; step++)
      {
      const double jd = any_jd( d);
      const int mask = d.flip( ) ? 15 : (int)d.ival( 1, 31);
      double v[15], before[15];
      for( int i = 0; i < 15; i++) v[i] = before[i] = 7.e+5 + i;
      d.note( "calc_jsat_loc( %.17g, ., %d, 0)", jd, mask);
      if( jd - floor( jd) != .5) d.nontrivial( true);
      d.cls( mask & 16 ? "with pole" : (mask == 15 ? "all four" : "some"));
      const int rv = calc_jsat_loc( jd, v, mask, 0L);
      REQUIRE( rv == mask, "calc_jsat_loc( ) returned %d for %d", rv, mask);
      for( int s = 1; s <= 5; s++)
         {
         const double *p = v + (s - 1) * 3;
         if( !(mask & (1 << (s - 1))))
            {
            if( s < 5) REQUIRE( !p[0] && !p[1] && !p[2], "satellite %d was not asked for, but its place is %s", s, show( p).c_str( ));
            else REQUIRE( !memcmp( p, before + 12, 3 * sizeof( double)), "the fictitious satellite was stored although not asked for");
            continue;
            }
         const v3 r = galilean( jd, s);
         ld err = 0;
         for( int i = 0; i < 3; i++) err = fmaxl( err, fabsl( r.x[i] - p[i]));
                  /* rounding of angles of 204 degrees/day times the days since 1976, in double */
         const ld tol = 2e-9L + 4e-15L * fabsl( jd - 2443000.5L) * 3.55L * 30.L;
         REQUIRE( err < tol, "JD %.9f satellite %d: %s, the theory gives (%.12Lf %.12Lf %.12Lf)", jd, s, show( p).c_str( ), r.x[0], r.x[1], r.x[2]);
         }
      }
}

PROP( saturn_series, 150000, 12)
{
   const int n = (int)d.ival( 1, 4);
   for( int step = 0; step < n; step++)
      {
      const double jd = any_jd( d);
      double v[3] = { 7, 8, 9 };
      if( d.rare( 12))
         {
         const int bad = d.flip( ) ? (int)d.ival( 9, 300) : -(int)d.ival( 1, 300);
         REQUIRE( calc_ssat_loc( jd, v, bad, 0L) == -1, "calc_ssat_loc( ) accepts satellite %d", bad);
         REQUIRE( v[0] == 7 && v[1] == 8 && v[2] == 9, "calc_ssat_loc( ) wrote a position for satellite %d", bad);
         continue;
         }
      const int s = (int)d.ival( 0, 8);
      static const char *name[9] = { "Mimas", "Enceladus", "Tethys", "Dione", "Rhea", "Titan", "Hyperion", "Iapetus", "Phoebe" };
      d.note( "calc_ssat_loc( %.17g, ., %d, 0)", jd, s);
      d.cls( name[s]);
      if( jd - floor( jd) != .5) d.nontrivial( true);
      REQUIRE( !calc_ssat_loc( jd, v, s, 0L), "calc_ssat_loc( ) fails for satellite %d", s);
      const v3 r = saturnian_xyz( jd, s);
      ld err = 0;
      for( int i = 0; i < 3; i++) err = fmaxl( err, fabsl( r.x[i] - v[i]));
      REQUIRE( err < len( r) * 3e-7L, "JD %.9f %s: %s, the theory gives (%.12Lf %.12Lf %.12Lf)", jd, name[s], show( v).c_str( ), r.x[0], r.x[1], r.x[2]);
      }
}

PROP( triton_series, 40000, 12)
{
   const double jd = any_jd( d);
   double v[3];
   d.note( "calc_triton_loc( %.17g, .)", jd);
   if( jd - floor( jd) != .5) d.nontrivial( true);
   calc_triton_loc( jd, v);
   const v3 r = triton( jd);
   for( int i = 0; i < 3; i++)
      REQUIRE( fabsl( r.x[i] - v[i]) < len( r) * 1e-8L, "JD %.9f Triton: %s, the theory gives (%.12Lf %.12Lf %.12Lf)", jd, show( v).c_str( ), r.x[0], r.x[1], r.x[2]);
}

            /* ---- mechanics ---- */
static v3 j2000( v3 v, double jd) { return( ecl_prec( v, (jd - 2451545.L) / 36525.L, false)); }
static v3 place( int who, double jd)       /* ecliptic J2000, km */
{
   double v[15];
   v3 r;
   ld scale = au_km;
   if( who < 4) { calc_jsat_loc( jd, v, 1 << who, 0L); memmove( v, v + who * 3, 3 * sizeof( double)); scale = 71398.L; }
   else if( who < 12) calc_ssat_loc( jd, v, who - 4, 0L);
   else calc_triton_loc( jd, v);
   for( int i = 0; i < 3; i++) r.x[i] = v[i] * scale;
   if( who < 12) return( j2000( r, jd));
   return( rotx( r, -mean_obl( 0) * rad));
}
            /* limits: fraction of GM/r^2, direction in degrees, tilt to the planet's equator */
static const ld ATOL[13] = { .0006L, .002L, .002L, .003L, .004L, .005L, .006L, .0035L, .003L, .001L, .003L, .006L, .0055L };
static const ld DTOL[13] = { .005L, .03L, .04L, .06L, .03L, .008L, .006L, .005L, .005L, .03L, .1L, .4L, .005L };
static const ld TILT[13][2] = { { 0, .09L }, { .36L, .56L }, { .0L, .4L }, { .1L, .75L }, { 1.47L, 1.66L }, { 0, .09L }, { 1.02L, 1.18L }, { 0, .08L },
         { .27L, .43L }, { .26L, .87L }, { 0, 1.5L }, { 11.5L, 19.L }, { 155.5L, 159.5L } };
PROP( mechanics, 50000, 10)
{
   static const char *name[13] = { "Io", "Europa", "Ganymede", "Callisto", "Mimas", "Enceladus", "Tethys", "Dione", "Rhea", "Titan", "Hyperion", "Iapetus", "Triton" };
   static const ld period[13] = { 1.769L, 3.551L, 7.155L, 16.689L, .942L, 1.370L, 1.888L, 2.737L, 4.518L, 15.945L, 21.277L, 79.33L, 5.877L };
   const int who = (int)d.ival( 0, 12);
   const double jd = draw_jd( d, 2378497., 2524593.);
   d.note( "%s at JD %.9f", name[who], jd);
   d.cls( name[who]);
   if( jd - floor( jd) != .5) d.nontrivial( true);
   const double h = (double)floorl( period[who] * 4096.L / 50.L) / 4096.;
   const v3 a = place( who, jd - h), b = place( who, jd), c = place( who, jd + h);
   const ld gm = who < 4 ? 126686534.L : (who < 12 ? 37931208.L : 6835100.L);
   const ld r = len( b), want = gm / (r * r) * 86400.L * 86400.L;
   v3 acc;
   for( int i = 0; i < 3; i++) acc.x[i] = (a.x[i] - 2 * b.x[i] + c.x[i]) / ((ld)h * h);
                     /* a chord of n h radians rather than an arc */
   const ld nh = 2 * pil * h / period[who];
   const ld got = len( acc) * (1 + nh * nh / 12);
   ld off = pil - angle( acc, b);
   d.note( "accel/(GM/r^2) = %.6Lf, %.4Lf deg off centre", got / want, off / rad);
   REQUIRE( fabsl( got / want - 1) < ATOL[who], "%s: acceleration is %.5Lf of GM/r^2", name[who], got / want);
   REQUIRE( off < DTOL[who] * rad, "%s: acceleration is %.4Lf degrees off the direction to the planet", name[who], off / rad);
   const v3 vel = { { c.x[0] - a.x[0], c.x[1] - a.x[1], c.x[2] - a.x[2] } };
   const v3 h0 = cross( b, vel);
   ld ra, de;
   const ld T = (jd - 2451545.L) / 36525.L;
   if( who < 4) { ra = 268.056595L - .006499L * T; de = 64.495303L + .002413L * T; }
   else if( who < 12) { ra = 40.589L - .036L * T; de = 83.537L - .004L * T; }
   else { const ld N = (357.85L + 52.316L * T) * rad; ra = 299.36L + .70L * sinl( N); de = 43.46L - .51L * cosl( N); }
   const v3 pole = rotx( v3{ { cosl( ra * rad) * cosl( de * rad), sinl( ra * rad) * cosl( de * rad), sinl( de * rad) } }, -mean_obl( 0) * rad);
   const ld tilt = angle( h0, pole) / rad;
   d.note( "orbit tilted %.3Lf", tilt);
   REQUIRE( tilt > TILT[who][0] && tilt < TILT[who][1], "%s: the orbit is tilted %.3Lf degrees to the planet's equator", name[who], tilt);
}

PROP( laplace_resonance, 30000, 12)
{
   const double jd = draw_jd( d, 2305447., 2597641.);
   double v[12];
   d.note( "JD %.9f", jd);
   if( jd - floor( jd) != .5) d.nontrivial( true);
   calc_jsat_loc( jd, v, 15, 0L);
   ld l[3];
   for( int i = 0; i < 3; i++) l[i] = atan2l( v[i * 3 + 1], v[i * 3]) / rad;
   const ld x = remainderl( l[0] - 3 * l[1] + 2 * l[2] - 180.L, 360.L);
   d.note( "l1 - 3 l2 + 2 l3 - 180 = %.4Lf", x);
   REQUIRE( fabsl( x) < 6.5L, "Io, Europa and Ganymede: l1 - 3 l2 + 2 l3 is %.4Lf off 180 degrees", x);
}

PROP( triton_twice, 10000, 12)
{
   const double jd = draw_jd( d, 2415020., 2488070.);
   double v[3], w[3];
   d.note( "JD %.9f", jd);
   if( jd - floor( jd) != .5) d.nontrivial( true);
   calc_triton_loc( jd, v);
   REQUIRE( !evaluate_rock( jd, 801, w), "evaluate_rock( ) does not know Triton");
   ld s = 0;
   for( int i = 0; i < 3; i++) { const ld e = v[i] * au_km - w[i]; s += e * e; }
   s = sqrtl( s);
   d.note( "%.1Lf km apart", s);
   REQUIRE( s < 25000, "the two theories of Triton differ by %.1Lf km", s);
}
