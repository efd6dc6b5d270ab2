// flavor: plain
/* State vector to orbital elements and back */
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "pbt.h"
#include "orbref.h"
using orbref::ld;

PROPERTY( "K02", "orbits of eccentricity 0 to 100 (exactly 0, near 0, near 1, .9 neighbourhood), any orientation including exactly in the reference plane, both directions of motion, polar; states from perihelion to 100 q; non-trivial = all whose tolerance stays below 1e-4",
   "Reference: universal-variable propagation in long double",
   "tolerances scale with the distance from perihelion (r/q) and with 1/|1-e|, the conditioning of the problem",
   "directly after calc_classical_elements and again after derive_quantities")

static const double pi = 3.14159265358979323846264338327950288;

static double gen_ecc( Draw &d)
{
   switch( d.raw( 7))
      {
      case 0: return( 0.);
      case 1: return( d.logreal( 1e-10, .1));
      case 2: return( d.real( 0., 1.));
      case 3: return( 1. - d.logreal( 1e-6, .3));
      case 4: return( 1. + d.logreal( 1e-6, .3));
      case 5: return( .9 + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-15, .05));
      case 6: return( d.logreal( 1.0001, 100.));
      default: return( d.real( .9, 1.1));
      }
}

struct orb { double q, ecc, incl, node, w, gm, t0, dt; };

static orb gen( Draw &d)
{
   orb o;
   o.ecc = gen_ecc( d);
   o.q = d.flip( ) ? d.logreal( 1e-3, 1e3) : d.real( .1, 5.);
   switch( d.raw( 4))
      {
      case 0: o.incl = d.real( 0., pi); break;
      case 1: o.incl = d.flip( ) ? 0. : pi; break;
      case 2: o.incl = pi / 2.; break;
      case 3: o.incl = pi / 2. + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-10, .1); break;
      default: o.incl = d.flip( ) ? d.logreal( 1e-10, .1) : pi - d.logreal( 1e-10, .1); break;
      }
   o.node = d.rare( 4) ? (double)d.ival( -2, 4) * pi / 2. : d.real( 0., 2. * pi);
   o.w = d.rare( 4) ? (double)d.ival( -2, 4) * pi / 2. : d.real( 0., 2. * pi);
   o.gm = d.flip( ) ? .01720209895 * .01720209895 : d.logreal( 1e-8, 1e6);
   o.t0 = d.flip( ) ? 0. : 2451545. + d.real( -1e5, 1e5);
   const double ps = o.q * sqrt( o.q / o.gm);
   switch( d.raw( 3))
      {
      case 0: o.dt = 0.; break;
      case 1: o.dt = ps * d.logreal( 1e-4, 1.); break;
      case 2: o.dt = ps * d.real( 0., 10.); break;
      default:
         o.dt = ps * d.logreal( 1., 300.);
         if( o.ecc < 1.)
            {
            const double a = o.q / (1. - o.ecc), half = pi * a * sqrt( a / o.gm);
            if( o.dt > half || d.rare( 4)) o.dt = half * (d.rare( 4) ? 1. : d.unit( ));
            }
         break;
      }
   if( d.flip( )) o.dt = -o.dt;
   if( o.t0) o.dt = (o.t0 + o.dt) - o.t0;
   d.note( "q %.17g e %.17g i %.17g node %.17g argper %.17g gm %.9g T %.9f, %.17g after perihelion", o.q, o.ecc, o.incl, o.node, o.w, o.gm, o.t0, o.dt);
   return( o);
}

static double norm( const ld *v) { return( (double)sqrtl( v[0] * v[0] + v[1] * v[1] + v[2] * v[2])); }

static double angdiff( double a, double b)
{
   double x = fmod( a - b, 2. * pi);
   if( x > pi) x -= 2. * pi;
   if( x < -pi) x += 2. * pi;
   return( fabs( x));
}

static void check_state( ELEMENTS e, const orb &o, double dt, double tol, const char *what)
{
   ld p[3], v[3];
   double loc[4], vel[3];
   orbref::state( o.q, o.ecc, o.incl, o.node, o.w, o.gm, dt, p, v);
   comet_posn_and_vel( &e, o.t0 + dt, loc, vel);
   const double r = norm( p), s = norm( v);
   for( int i = 0; i < 3; i++)
      REQUIRE( fabs( (double)( loc[i] - p[i])) < tol * r && fabs( (double)( vel[i] - v[i])) < 2. * tol * s,
            "%s: %.14g %.14g %.14g (velocity %.14g %.14g %.14g) where %.14Lg %.14Lg %.14Lg (%.14Lg %.14Lg %.14Lg) was expected", what,
            loc[0], loc[1], loc[2], vel[0], vel[1], vel[2], p[0], p[1], p[2], v[0], v[1], v[2]);
}

PROP( round_trip, 900000, 40)
{
   const orb o = gen( d);
   ld p[3], v[3];
   double sv[6];
   orbref::state( o.q, o.ecc, o.incl, o.node, o.w, o.gm, o.dt, p, v);
   for( int i = 0; i < 3; i++)
      { sv[i] = (double)p[i]; sv[i + 3] = (double)v[i]; }
   if( (o.incl == 0. || o.incl == pi) && !d.rare( 4))
      sv[2] = sv[5] = 0.;                       /* exactly in the plane */
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   e.gm = o.gm;
   const double t = o.t0 + o.dt;
   calc_classical_elements( &e, sv, t, 1);
   const double off = fabs( 1. - o.ecc), r = norm( p), rq = r / o.q;
   const double teps = 2.5e-9 * sqrt( o.gm / o.q) / o.q * (o.t0 ? 1. : 0.) * (1. + o.ecc);    /* granularity of a Julian day */
   double tol = 1e-12 * (1. + rq) * (1. + rq) + 1e-14 * rq * rq / off + 1e-13 * o.ecc;
   tol *= (1. + sqrt( rq));
   if( o.ecc > .9) tol += 1e-7 * 0.;
   d.cls( !o.ecc ? "circle" : (o.ecc < 1. ? "ellipse" : "hyperbola"));
   d.cls( (o.incl == 0. || o.incl == pi) ? "in the plane" : "inclined");
   d.nontrivial( tol < 1e-4);
   if( tol >= 1e-4) return;
   REQUIRE( fabs( e.q / o.q - 1.) < tol && fabs( e.ecc - o.ecc) < tol * (1. + o.ecc), "q %.15g, e %.15g (tolerance %g)", e.q, e.ecc, tol);
   REQUIRE( e.incl >= 0. && e.incl <= pi && fabs( e.incl - o.incl) < tol + 1e-13, "inclination %.15g", e.incl);
   const double si = sin( o.incl);
   if( si > 1e-6)
      REQUIRE( angdiff( e.asc_node, o.node) < tol + 1e-13 / si, "node %.15g", e.asc_node);
   if( o.ecc > 1e-6 && si > 1e-6)
      REQUIRE( angdiff( e.arg_per, o.w) < tol / o.ecc + 1e-13 / si, "arg per %.15g", e.arg_per);
   const double sh = fabs( e.angular_momentum), h = sqrt( o.gm * o.q * (1. + o.ecc));
   REQUIRE( fabs( sh / h - 1.) < tol, "angular momentum %.15g, expected %.15g", sh, h);
            /* the perihelion direction as a vector,  whatever the angles are */
   ld P[3], Q[3];
   orbref::orient( o.incl, o.node, o.w, P, Q);
   if( o.ecc > 1e-6)
      for( int i = 0; i < 3; i++)
         REQUIRE( fabs( (double)( e.perih_vec[i] - P[i])) < tol / o.ecc, "perihelion toward %.12f %.12f %.12f, expected %.12Lf %.12Lf %.12Lf",
               e.perih_vec[0], e.perih_vec[1], e.perih_vec[2], P[0], P[1], P[2]);
   if( o.ecc > 1e-3)
      {
      const double per_tol = tol / o.ecc * o.q * sqrt( o.q / o.gm) + 1e-9;
      double diff = e.perih_time - o.t0;
      if( o.ecc < 1.)
         {
         const double a = o.q / (1. - o.ecc), period = 2. * pi * a * sqrt( a / o.gm);
         diff -= period * round( diff / period);
         REQUIRE( fabs( diff) < per_tol + period * tol, "perihelion %.12g from the expected time", diff);
         }
      else
         REQUIRE( fabs( diff) < per_tol + fabs( o.dt) * tol, "perihelion %.12g from the expected time", diff);
      }
   const double dt2 = o.dt + (d.flip( ) ? 1. : -1.) * d.unit( ) * o.q * sqrt( o.q / o.gm);
   check_state( e, o, o.dt, tol + teps, "elements do not give back the state");
   check_state( e, o, (o.t0 + dt2) - o.t0, tol * 5. + teps * 5., "elements do not propagate the state");
   ELEMENTS e2 = e;
   derive_quantities( &e2, e2.gm);
   check_state( e2, o, o.dt, tol + teps + 1e-12, "angular elements do not give back the state");
   check_state( e2, o, (o.t0 + dt2) - o.t0, (tol + teps) * 5. + 1e-12, "angular elements do not propagate the state");
   if( e.ecc < 1.)
      REQUIRE( fabs( e2.major_axis / e.major_axis - 1.) < tol * 1e3 + 1e-7 && fabs( e2.t0 / e.t0 - 1.) < tol * 1e3 + 1e-7, "axis %.15g and t0 %.15g, then %.15g and %.15g", e.major_axis, e.t0, e2.major_axis, e2.t0);
            /* without the angles */
   ELEMENTS e3;
   memset( &e3, 0, sizeof( e3));
   e3.gm = o.gm;
   calc_classical_elements( &e3, sv, t, 0);
   REQUIRE( e3.q == e.q && e3.ecc == e.ecc && e3.perih_time == e.perih_time && !e3.incl && !e3.asc_node && !e3.arg_per, "differs when no angles are asked for");
}

            /* parabolas and what roundoff makes of them */
PROP( near_parabolic, 300000, 40)
{
   orb o = gen( d);
   o.ecc = d.flip( ) ? 1. : 1. + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-16, 1e-5);
   d.note( " but e = %.17g", o.ecc);
   ld p[3], v[3];
   double sv[6];
   orbref::state( o.q, o.ecc, o.incl, o.node, o.w, o.gm, o.dt, p, v);
   for( int i = 0; i < 3; i++)
      { sv[i] = (double)p[i]; sv[i + 3] = (double)v[i]; }
   if( (o.incl == 0. || o.incl == pi) && !d.rare( 4))
      sv[2] = sv[5] = 0.;                       /* exactly in the plane */
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   e.gm = o.gm;
   calc_classical_elements( &e, sv, o.t0 + o.dt, 1);
   const double rq = norm( p) / o.q;
   double tol = 1e-12 * (1. + rq) * (1. + rq);
   REQUIRE( fabs( e.q / o.q - 1.) < tol && fabs( e.ecc - o.ecc) < tol, "q %.15g, e %.15g (tolerance %g)", e.q, e.ecc, tol);
   tol += 2.5e-9 * sqrt( o.gm / o.q) / o.q * (o.t0 ? 1. : 0.) * 2. + 1e-9 + 3e-13 / sqrt( 5e-15 + fabs( 1. - o.ecc));
   check_state( e, o, o.dt, tol, "elements do not give back the state");
   derive_quantities( &e, e.gm);
   check_state( e, o, o.dt, tol, "angular elements do not give back the state");
}
