// flavor: plain
/* Minimum orbit intersection distance */
#include <cstdio>
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "pbt.h"
#include "orbref.h"
using orbref::ld;

PROPERTY( "M01", "pairs of orbits: planets against random ones, crossing and nearly tangent orbits, coplanar and polar planes, e up to .99 and unbound second orbits, sizes from .2 to 100 AU; non-trivial = all",
   "Reference: exhaustive grid over both orbits with the best cells refined by descent",
   "points of the second orbit beyond 1000 AU are not considered by the code (documented clamp); such pairs are not generated")

static const double pi = 3.14159265358979323846264338327950288;

struct geom
{
   double p, e, P[3], Q[3];
   void pos( double v, double *r) const
      {
      const double c = cos( v), s = sin( v), rr = p / (1. + e * c);
      for( int i = 0; i < 3; i++) r[i] = rr * (c * P[i] + s * Q[i]);
      }
   double d2( double v, const geom &o, double w) const
      {
      double a[3], b[3];
      pos( v, a); o.pos( w, b);
      return( (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
      }
};

static geom make( const ELEMENTS &e)
{
   geom g;
   ld P[3], Q[3];
   orbref::orient( e.incl, e.asc_node, e.arg_per, P, Q);
   for( int i = 0; i < 3; i++) { g.P[i] = (double)P[i]; g.Q[i] = (double)Q[i]; }
   g.p = e.q * (1. + e.ecc);
   g.e = e.ecc;
   return( g);
}

            /* distance from a point to an ellipse centred on the origin:  bisection for the Lagrange
            multiplier (Eberly),  in the first quadrant */
static double ellipse_dist2( double a, double b, double x, double y, double *ex, double *ey)
{
   const double sx = x < 0. ? -1. : 1., sy = y < 0. ? -1. : 1.;
   x = fabs( x); y = fabs( y);
   double cx, cy;
   if( y > 0.)
      {
      if( x > 0.)
         {
         const double r = a * a / (b * b), z0 = x / a, z1 = y / b;
         double lo = z1 - 1., hi = (z0 * z0 + z1 * z1 < 1.) ? 0. : sqrt( r * r * z0 * z0 + z1 * z1) - 1., s = 0.;
         for( int i = 0; i < 200; i++)
            {
            s = .5 * (lo + hi);
            if( s == lo || s == hi) break;
            const double q0 = r * z0 / (s + r), q1 = z1 / (s + 1.), g = q0 * q0 + q1 * q1 - 1.;
            if( g > 0.) lo = s; else if( g < 0.) hi = s; else break;
            }
         cx = r * x / (s + r); cy = y / (s + 1.);
         }
      else
         { cx = 0.; cy = b; }
      }
   else
      {
      const double num = a * x, den = a * a - b * b;
      if( num < den)
         { cx = a * num / den; cy = b * sqrt( std::max( 0., 1. - (num / den) * (num / den))); }
      else
         { cx = a; cy = 0.; }
      }
   if( ex) { *ex = cx * sx; *ey = cy * sy; }
   return( (x - cx) * (x - cx) + (y - cy) * (y - cy));
}

struct best_t { double d, v, w, room; };       /* 'room':  from the minimum to the nearest maximum */

struct pair_t
{
   geom a, b;
   double ax, bx;
   pair_t( const geom &A, const geom &B) : a( A), b( B) { ax = a.p / (1. - a.e * a.e); bx = ax * sqrt( 1. - a.e * a.e); }
   double f( double w, double *v = NULL) const
      {
      double r[3], z = 0., x = 0., y = 0., ex, ey;
      b.pos( w, r);
      for( int i = 0; i < 3; i++)
         {
         const int j = (i + 1) % 3, k = (i + 2) % 3;
         x += r[i] * a.P[i]; y += r[i] * a.Q[i]; z += r[i] * (a.P[j] * a.Q[k] - a.P[k] * a.Q[j]);
         }
      const double rval = ellipse_dist2( ax, bx, x + ax * a.e, y, &ex, &ey) + z * z;
      if( v) *v = atan2( ey, ex - ax * a.e);
      return( rval);
      }
};

static best_t brute( const geom &A, const geom &B, double wmax, int N, double *second = NULL)
{
   const pair_t pr( A, B);
   std::vector<double> f( (size_t)N + 1);
   for( int i = 0; i <= N; i++) f[(size_t)i] = pr.f( wmax * (2. * i / N - 1.));
   best_t r = { 1e30, 0., 0., 0. };
   int where = 0;
   if( second) *second = 1e30;
   const bool wrap = wmax > 3.141;
   for( int i = 0; i <= N; i++)
      {
      const double left = i ? f[(size_t)i - 1] : (wrap ? f[(size_t)N - 1] : 1e30), right = i < N ? f[(size_t)i + 1] : (wrap ? f[1] : 1e30);
      if( left < f[(size_t)i] || right < f[(size_t)i]) continue;
      const double step = 2. * wmax / N, w0 = wmax * (2. * i / N - 1.), g = .61803398874989485;
      double lo = w0 - step, hi = w0 + step;
      int bk = 0;
      double bf = 1e30;
      for( int k = -20; k <= 20; k++)          /* finer grid:  two minima can be close */
         {
         const double t = pr.f( w0 + k * step / 20.);
         if( t < bf) { bf = t; bk = k; }
         }
      lo = w0 + (bk - 1) * step / 20.; hi = w0 + (bk + 1) * step / 20.;
      if( !wrap) { lo = std::max( lo, -wmax); hi = std::min( hi, wmax); }
      double x1 = hi - g * (hi - lo), x2 = lo + g * (hi - lo), f1 = pr.f( x1), f2 = pr.f( x2);
      for( int k = 0; k < 70; k++)
         if( f1 < f2) { hi = x2; x2 = x1; f2 = f1; x1 = hi - g * (hi - lo); f1 = pr.f( x1); }
         else { lo = x1; x1 = x2; f1 = f2; x2 = lo + g * (hi - lo); f2 = pr.f( x2); }
      double w = f1 < f2 ? x1 : x2, t = std::min( f1, f2);
      if( bf <= t) { t = bf; w = w0 + bk * step / 20.; }
      if( t < r.d)
         {
         if( second && r.d < *second && fabs( remainder( r.w - w, 2. * pi)) > 1e-3) *second = r.d;
         r.d = t; r.w = w; where = i;
         }
      else if( second && t < *second && fabs( remainder( r.w - w, 2. * pi)) > 1e-3) *second = t;
      }
   pr.f( r.w, &r.v);
   r.room = pi;
   for( int dir = -1; dir <= 1; dir += 2)
      for( int k = 1; k < N; k++)
         {
         int i0 = where + dir * (k - 1), i1 = where + dir * k;
         if( !wrap && (i1 < 0 || i1 > N)) break;
         i0 = ((i0 % N) + N) % N; i1 = ((i1 % N) + N) % N;
         if( k > 1 && f[(size_t)i1] < f[(size_t)i0])
            {
            r.room = std::min( r.room, (double)( k - 1) * 2. * wmax / N);
            break;
            }
         }
   r.d = sqrt( r.d);
   if( second) *second = sqrt( *second);
   return( r);
}

static void gen_plane( Draw &d, ELEMENTS &e)
{
   e.incl = d.rare( 4) ? (double)d.ival( 0, 2) * pi / 2. : (d.flip( ) ? d.real( 0., pi) : d.logreal( 1e-6, .3));
   e.asc_node = d.real( 0., 2. * pi);
   e.arg_per = d.real( 0., 2. * pi);
   e.gm = .01720209895 * .01720209895;
   e.perih_time = 2451545. + d.real( -5000., 5000.);
}

static void velocity( const geom &g, double v, double *vel)
{
   const double s = .01720209895 / sqrt( g.p);
   for( int i = 0; i < 3; i++) vel[i] = s * (-sin( v) * g.P[i] + (g.e + cos( v)) * g.Q[i]);
}

PROP( distance, 100000, 20)
{
   ELEMENTS e1, e2;
   memset( &e1, 0, sizeof( e1));
   memset( &e2, 0, sizeof( e2));
   const double k2 = .01720209895 * .01720209895;
   if( d.flip( ))
      setup_planet_elem( &e1, 1 + (int)d.raw( 14), d.real( -1., 1.));
   else
      {
      e1.ecc = d.flip( ) ? d.real( 0., .3) : d.real( 0., .9);
      e1.q = d.logreal( .2, 30.);
      gen_plane( d, e1);
      derive_quantities( &e1, k2);
      }
   e1.gm = k2;
   gen_plane( d, e2);
   switch( d.raw( 4))
      {
      case 0: e2.ecc = d.real( 0., .9); break;
      case 1: e2.ecc = 1.; break;
      case 2: e2.ecc = d.real( 1., 3.); break;
      case 3: e2.ecc = 1. - d.logreal( 1e-2, .2); break;
      default: e2.ecc = d.real( 0., .3); break;
      }
   e2.q = e1.q * d.logreal( .05, 20.);
   const int kind = (int)d.raw( 5);
   if( kind == 1)             /* same plane */
      { e2.incl = e1.incl; e2.asc_node = e1.asc_node; }
   if( kind <= 2)             /* crossing or nearly so at a node of the two planes */
      {
      geom a = make( e1), b = make( e2);
      double ua[3], ub[3], n[3];
      for( int i = 0; i < 3; i++)
         {
         const int j = (i + 1) % 3, k = (i + 2) % 3;
         ua[i] = a.P[j] * a.Q[k] - a.P[k] * a.Q[j]; ub[i] = b.P[j] * b.Q[k] - b.P[k] * b.Q[j];
         }
      for( int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; n[i] = ua[j] * ub[k] - ua[k] * ub[j]; }
      if( kind == 1) for( int i = 0; i < 3; i++) n[i] = a.P[i];
      auto dot = []( const double *x, const double *y) { return( x[0] * y[0] + x[1] * y[1] + x[2] * y[2]); };
      const double va = atan2( dot( n, a.Q), dot( n, a.P)), vb = atan2( dot( n, b.Q), dot( n, b.P));
      const double ra = a.p / (1. + a.e * cos( va)), den = 1. + b.e * cos( vb);
      if( den > .05)
         e2.q = ra * den / (1. + b.e) * (d.flip( ) ? 1. : 1. + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-9, .1));
      }
   if( kind == 3)             /* similar orbit */
      {
      e2.ecc = e1.ecc + d.real( 0., .05); e2.q = e1.q * (1. + d.real( -.05, .05)); e2.incl = e1.incl + d.real( -.05, .05);
      e2.asc_node = e1.asc_node + d.real( -.05, .05); e2.arg_per = e1.arg_per + d.real( -.5, .5);
      }
   if( e2.ecc < 1. && e2.q * (1. + e2.ecc) / (1. - e2.ecc) > 900.) e2.ecc = .5;
   derive_quantities( &e2, k2);
   d.note( "q %.17g e %.17g i %.17g node %.17g w %.17g; q %.17g e %.17g i %.17g node %.17g w %.17g", e1.q, e1.ecc, e1.incl, e1.asc_node, e1.arg_per, e2.q, e2.ecc, e2.incl, e2.asc_node, e2.arg_per);
   const geom a = make( e1), b = make( e2);
   double wmax = pi;
   if( e2.ecc >= 1.)
      {        /* beyond twice the first orbit's aphelion plus the second's perihelion nothing can be closest */
      const double far = 2. * e1.q * (1. + e1.ecc) / (1. - e1.ecc) + e2.q * 2.5;
      wmax = acos( std::max( -1., std::min( 1., (b.p / far - 1.) / b.e)));
      }
   moid_data_t m;
   memset( &m, 0, sizeof( m));
   const double got = find_moid_full( &e1, &e2, &m);
   double second;
   const best_t want = brute( a, b, wmax, e2.ecc > .8 ? 2880 : 720, &second);
   d.cls( kind == 0 ? "crossing" : (kind == 1 ? "coplanar" : (kind == 2 ? "near-crossing" : (kind == 3 ? "similar" : "unrelated"))));
   d.cls( e2.ecc < 1. ? "bound" : "unbound");
   const double scale = std::max( e1.major_axis, e2.q), tol = 1e-9 * scale;
            /* the code looks at every 5 degrees of the second orbit's true anomaly;  a minimum is
            sure to be seen if the nearest maxima are two such steps away */
   const bool sure = want.room > 10.6 * pi / 180.;
   d.nontrivial( sure);
   REQUIRE( got == got && got > want.d - tol - 5e-9 * scale * scale / (want.d + 1e-3 * scale), "MOID %.12f, but %.12f found by exhaustive search (anomalies %.6f and %.6f)", got, want.d, want.v, want.w);
   if( sure)
      REQUIRE( got * got < want.d * want.d + 1e-7 + tol * tol, "MOID %.12f, but %.12f found by exhaustive search (anomalies %.6f and %.6f)", got, want.d, want.v, want.w);
   REQUIRE( find_moid_full( &e1, &e2, NULL) == got, "differs without details");
            /* details:  some point of the second orbit must be at distance 'got' from the point at
            'obj1_true_anom' of the first,  and move at 'barbee_speed' relative to it */
   double p1[3], v1[3], best = 1e30;
   const double v = m.obj1_true_anom;
   REQUIRE( v == v && m.barbee_speed == m.barbee_speed, "details are NaN");
   a.pos( v, p1);
   velocity( a, v, v1);
   auto miss = [&]( double w)
      {
      double p2[3], v2[3], dd = 0., sp = 0.;
      b.pos( w, p2);
      velocity( b, w, v2);
      for( int i = 0; i < 3; i++) { dd += (p1[i] - p2[i]) * (p1[i] - p2[i]); sp += (v1[i] - v2[i]) * (v1[i] - v2[i]); }
      return( fabs( dd - got * got) / (scale * scale) + fabs( sqrt( sp) - m.barbee_speed) / (.0172 / sqrt( scale)));
      };
   const int N = 1440;
   std::vector<double> f( (size_t)N + 1);
   const double wm = std::min( wmax * 1.02, pi);
   for( int i = 0; i <= N; i++) f[(size_t)i] = miss( wm * (2. * i / N - 1.));
   auto refine = [&]( double lo, double hi)
      {
      for( int k = 0; k < 8; k++)
         {
         int bj = 0;
         double bm = 1e30;
         for( int j = 0; j <= 40; j++)
            {
            const double t = miss( lo + (hi - lo) * j / 40.);
            if( t < bm) { bm = t; bj = j; }
            }
         const double c = lo + (hi - lo) * bj / 40., h = (hi - lo) / 25.;
         lo = c - h; hi = c + h;
         best = std::min( best, bm);
         }
      };
   refine( want.w - 1e-4, want.w + 1e-4);
   for( int i = 0; i <= N && best >= 1e-6; i++)
      if( (!i || f[(size_t)i - 1] >= f[(size_t)i]) && (i == N || f[(size_t)i + 1] >= f[(size_t)i]))
         refine( wm * (2. * (i - 1) / N - 1.), wm * (2. * (i + 1) / N - 1.));
   for( int i = 0; i < N && best >= 1e-6; i++)        /* slower,  seldom needed */
      if( f[(size_t)i] < .1)
         for( int j = 0; j < 40; j++)
            refine( wm * (2. * (i + j / 40.) / N - 1.), wm * (2. * (i + (j + 1) / 40.) / N - 1.));
   REQUIRE( best < 1e-6, "no point of orbit 2 is %.9f AU from the point at true anomaly %.9f of orbit 1 and has relative speed %.9f (closest mismatch %g; true minimum at %.6f and %.6f)", got, v, m.barbee_speed, best, want.v, want.w);
   double loc[4], dd = 0.;
   comet_posn( &e1, m.jd1, loc);
   for( int i = 0; i < 3; i++) dd += (loc[i] - p1[i]) * (loc[i] - p1[i]);
   REQUIRE( sqrt( dd) < 1e-7 * scale, "at jd1 %.6f the first object is %g AU from true anomaly %.9f", m.jd1, sqrt( dd), v);
}

            /* JPL's "approximate positions of the planets" (1800-2050):  a, e, i, L, long. of perihelion,
            node,  and rates per century */
static const double jpl[9][12] = {
 { 0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593, 0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081 },
 { 0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255, 0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418 },
 { 1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0, 0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0 },
 { 1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891, 0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343 },
 { 5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909, -0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106 },
 { 9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448, -0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794 },
 { 19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503, -0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589 },
 { 30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574, 0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664 },
 { 39.48211675, 0.24882730, 17.14001206, 238.92903833, 224.06891629, 110.30393684, -0.00031596, 0.00005170, 0.00004818, 145.20780515, -0.04062942, -0.01183482 } };
         /* asteroids (1), (2), (4), (29), (16), (15):  a, e, i, node, argument of perihelion */
static const double asteroid[6][5] = {
 { 2.7664603, 0.0783638, 10.583360, 80.494464, 73.921341 }, { 2.7723257, 0.2296435, 34.846130, 173.197757, 310.264059 },
 { 2.3615363, 0.0900245, 7.133918, 103.951631, 149.589094 }, { 2.5543838, 0.0722511, 6.102741, 356.567840, 62.015715 },
 { 2.9204983, 0.1382234, 3.093382, 150.465894, 229.122381 }, { 2.6437135, 0.1862108, 11.747399, 293.516504, 96.956836 } };

PROP( planet_orbits, 50000, 20)
{
   const int idx = (int)d.ival( -3, 20);
   const double t = d.special( -2., 1.);
   ELEMENTS e;
   memset( &e, 0x55, sizeof( e));
   const int rv = setup_planet_elem( &e, idx, t);
   d.note( "planet %d, %.17g centuries", idx, t);
   d.nontrivial( idx >= 1 && idx <= 15);
   REQUIRE( rv == (idx >= 1 && idx <= 15 ? 0 : -1), "planet %d: return value %d", idx, rv);
   if( rv) return;
   const double r = pi / 180.;
   double a, ecc, incl, node, argper, L = 0.;
   if( idx <= 9)
      {
      double x[6];
      for( int i = 0; i < 6; i++) x[i] = jpl[idx - 1][i] + t * jpl[idx - 1][i + 6];
      a = x[0]; ecc = x[1]; incl = x[2]; L = x[3]; node = x[5]; argper = x[4] - x[5];
      }
   else
      {
      const double *x = asteroid[idx - 10];
      a = x[0]; ecc = x[1]; incl = x[2]; node = x[3]; argper = x[4];
      }
   auto same = [&]( double x, double y) { return( fabs( remainder( x - y, 2. * pi)) < 1e-9); };
   REQUIRE( fabs( e.ecc - ecc) < 1e-12 && fabs( e.major_axis - a) < 1e-9 * a && fabs( e.q - a * (1. - ecc)) < 1e-9 * a, "planet %d: q %.9f e %.9f a %.9f", idx, e.q, e.ecc, e.major_axis);
   REQUIRE( same( e.incl, incl * r) && same( e.asc_node, node * r) && same( e.arg_per, argper * r), "planet %d: incl %.9f node %.9f argument of perihelion %.9f rather than %.9f %.9f %.9f", idx, e.incl / r, e.asc_node / r, e.arg_per / r, incl, node, argper);
   if( idx <= 9)
      {        /* where it is:  the mean longitude fixes the time of perihelion */
      const double n = .01720209895 / pow( a, 1.5), epoch = 2451545. + t * 36525.;
      REQUIRE( fabs( remainder( (epoch - e.perih_time) * n - (L - node - argper) * r, 2. * pi)) < 1e-8, "planet %d: perihelion on %.6f", idx, e.perih_time);
      ELEMENTS e2 = e;
      double loc[4], M = (L - node - argper) * r, E = M;
      for( int i = 0; i < 200; i++) E = M + ecc * sin( E);
      comet_posn( &e2, epoch, loc);
      REQUIRE( fabs( loc[3] - a * (1. - ecc * cos( E))) < 1e-7 * a, "planet %d: radius %.9f", idx, loc[3]);
      }
}
