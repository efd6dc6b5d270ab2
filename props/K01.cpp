// flavor: plain
/* Kepler's equation and two-body propagation */
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "pbt.h"
#include "orbref.h"
using orbref::ld;

double kepler( const double ecc, double mean_anom);

PROPERTY( "K01", "eccentricities 0 to 1000 with emphasis on the neighbourhoods of 0, .8, .9, 1, mean anomalies over many revolutions, perihelion distances 1e-3 to 1e3 and arbitrary orientation (poles, ecliptic); non-trivial = all",
   "Reference: universal-variable propagation in long double",
   "near a parabola the tolerance is 3e-13/sqrt|1-e|, and r/q times 2e-15 far from the sun; cases where these exceed 1e-3 are trivial")

static const double pi = 3.14159265358979323846264338327950288;

static double gen_ecc( Draw &d)
{
   switch( d.raw( 9))
      {
      case 0: return( 0.);
      case 1: return( d.logreal( 1e-12, .1));
      case 2: return( d.real( 0., 1.));
      case 3: return( 1.);
      case 4: return( 1. - d.logreal( 1e-13, .3));
      case 5: return( 1. + d.logreal( 1e-13, .3));
      case 6: return( .9 + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-15, .05));
      case 7: return( d.logreal( 1.0001, 1000.));
      case 8: return( d.real( .75, .95));
      default: return( d.real( .9, 1.1));
      }
}

static ld res_ell( ld E, ld e, ld M)          /* E - e sin E - M without cancellation */
{
   if( fabsl( E) < .3L)
      {
      ld term = E * E * E / 6.L, sum = 0.L;
      for( int k = 4; k < 40; k += 2) { sum += term; term *= -E * E / (ld)( k * (k + 1)); }
      return( (1.L - e) * E + e * sum - M);
      }
   return( E - e * sinl( E) - M);
}

static ld res_hyp( ld E, ld e, ld M)
{
   if( fabsl( E) < .3L)
      {
      ld term = E * E * E / 6.L, sum = 0.L;
      for( int k = 4; k < 40; k += 2) { sum += term; term *= E * E / (ld)( k * (k + 1)); }
      return( (e - 1.L) * E + e * sum - M);
      }
   return( e * sinhl( E) - E - M);
}

PROP( kepler_equation, 2000000, 40)
{
   double e = gen_ecc( d), M;
   if( e == 1.) e = d.flip( ) ? 1. - 1e-14 : 1. + 1e-14;
   switch( d.raw( 5))
      {
      case 0: M = d.logreal( 1e-15, pi); break;
      case 1: M = pi - d.logreal( 1e-15, 1.); break;
      case 2: M = d.real( 0., 2. * pi); break;
      case 3: M = (e > 1.) ? d.logreal( 1., 1e6) : pi / 3. + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-15, .1); break;
      case 4: M = (e > 1.) ? 3. * e * (1. + d.real( -1e-3, 1e-3)) : d.real( 0., 1000.); break;
      default: { const double k = 6. * fabs( 1. - e); M = sqrt( k) * fabs( 1. - e) * (1. + d.real( -.3, .3)); break; }
      }
   if( d.flip( )) M = -M;
   d.note( "e = %.17g, M = %.17g", e, M);
   d.cls( e < .9 ? "e<.9" : (e < 1. ? "e<1" : "hyperbolic"));
   const double E = kepler( e, M);
   REQUIRE( E == E && fabs( E) < 1e9, "E = %g", E);
   ld r, slope;
   if( e < 1.)
      {
      const ld off = (fabs( M) > pi ? 2.L * orbref::PI_L * roundl( (ld)M / (2.L * orbref::PI_L)) : 0.L);
               /* the revolutions are added back in double precision */
      r = res_ell( (ld)E - off, e, (ld)M - off);
      slope = 1.L - (ld)e * cosl( (ld)E);
      }
   else
      {
      r = res_hyp( E, e, M);
      slope = (ld)e * coshl( (ld)E) - 1.L;
      }
   const double tol = 1e-15 * (fabs( E) + fabs( M)) + 1e-13 * (double)slope;
   REQUIRE( fabsl( r) < tol, "E = %.17g leaves %Lg in Kepler's equation (allowed %g)", E, r, tol);
   REQUIRE( kepler( e, -M) == -E, "not odd: %.17g, %.17g", E, kepler( e, -M));
}

static ELEMENTS gen_orbit( Draw &d)
{
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   e.ecc = gen_ecc( d);
   e.q = d.flip( ) ? d.logreal( 1e-3, 1e3) : d.real( .1, 5.);
   switch( d.raw( 4))
      {
      case 0: e.incl = d.real( 0., pi); break;
      case 1: e.incl = d.flip( ) ? 0. : pi; break;
      case 2: e.incl = pi / 2.; break;
      case 3: e.incl = pi / 2. + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-14, .1); break;
      default: e.incl = d.flip( ) ? d.logreal( 1e-14, .1) : pi - d.logreal( 1e-14, .1); break;
      }
   e.asc_node = d.rare( 4) ? (double)d.ival( -2, 4) * pi / 2. : d.real( 0., 2. * pi);
   e.arg_per = d.rare( 4) ? (double)d.ival( -2, 4) * pi / 2. : d.real( 0., 2. * pi);
   e.gm = d.flip( ) ? .01720209895 * .01720209895 : d.logreal( 1e-8, 1e6);
   e.perih_time = d.flip( ) ? 0. : 2451545. + d.real( -1e5, 1e5);
   return( e);
}

static std::string show( const ELEMENTS &e)
{
   return( pbt::strf( "q %.17g e %.17g i %.17g node %.17g argper %.17g gm %.9g T %.9f", e.q, e.ecc, e.incl, e.asc_node, e.arg_per, e.gm, e.perih_time));
}

            /* interval after perihelion,  in units natural to the orbit */
static double gen_dt( Draw &d, const ELEMENTS &e)
{
   const double peri_scale = e.q * sqrt( e.q / e.gm);
   double dt;
   switch( d.raw( 5))
      {
      case 0: return( 0.);
      case 1: dt = peri_scale * d.logreal( 1e-6, 1.); break;
      case 2: dt = peri_scale * d.logreal( 1., 1e5); break;
      case 3: dt = peri_scale * d.real( 0., 10.); break;
      default:
         if( e.ecc < 1. && 1. - e.ecc > 1e-8)
            {
            const double a = e.q / (1. - e.ecc);
            dt = a * sqrt( a / e.gm) * (d.flip( ) ? d.real( 0., 7.) : d.real( 0., 1000.));
            }
         else
            dt = peri_scale * d.logreal( 1e-3, 1e3);
         break;
      }
   return( d.flip( ) ? dt : -dt);
}

PROP( propagation, 600000, 40)
{
   ELEMENTS e = gen_orbit( d);
   const double dt = gen_dt( d, e), t = e.perih_time + dt;
   const ld real_dt = (ld)t - (ld)e.perih_time;
   double loc[4], vel[3], loc2[4];
   d.note( "%s, %.17g after perihelion", show( e).c_str( ), (double)real_dt);
   derive_quantities( &e, e.gm);
   comet_posn_and_vel( &e, t, loc, vel);
   ld pos[3], v[3];
   orbref::state( e.q, e.ecc, e.incl, e.asc_node, e.arg_per, e.gm, real_dt, pos, v);
   const double r = (double)sqrtl( pos[0] * pos[0] + pos[1] * pos[1] + pos[2] * pos[2]);
   const double sp = (double)sqrtl( v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
   const double off = fabs( 1. - e.ecc);
   double m_total = 0.;
   if( e.ecc < 1.)
      m_total = fabs( (double)real_dt) * sqrt( e.gm / (e.q * e.q * e.q)) * pow( off, 1.5);
   double tol = 2e-11 + (off ? 3e-13 / sqrt( off) : 0.) + 2e-15 * r / e.q;    /* r = p / (1 + e cos v) loses digits near the asymptote */
            /* loss through the number of revolutions:  magnified near perihelion */
   const double mfac = (e.ecc < 1. ? 1. / pow( off, 1.5) : 0.);
   tol += m_total * 4e-16 * mfac * 2. * (e.q / r < .5 ? 1. : 1.);
   d.cls( e.ecc == 1. ? "parabola" : (off < 1e-6 ? "near-parabolic" : (e.ecc < 1. ? "ellipse" : "hyperbola")));
   for( int i = 0; i < 3; i++)
      REQUIRE( std::isfinite( loc[i]) && std::isfinite( vel[i]), "position %g %g %g velocity %g %g %g", loc[0], loc[1], loc[2], vel[0], vel[1], vel[2]);
   if( tol > 1e-3)
      { d.nontrivial( false); return; }
   for( int i = 0; i < 3; i++)
      {
      REQUIRE( fabs( (double)( loc[i] - pos[i])) < tol * r, "position %.15g %.15g %.15g, expected %.15Lg %.15Lg %.15Lg (tolerance %g)", loc[0], loc[1], loc[2],
               pos[0], pos[1], pos[2], tol * r);
      REQUIRE( fabs( (double)( vel[i] - v[i])) < tol * sp * 2., "velocity %.15g %.15g %.15g, expected %.15Lg %.15Lg %.15Lg", vel[0], vel[1], vel[2], v[0], v[1], v[2]);
      }
   REQUIRE( fabs( loc[3] - sqrt( loc[0] * loc[0] + loc[1] * loc[1] + loc[2] * loc[2])) < 1e-13 * r, "radius %.15g", loc[3]);
   ELEMENTS e2 = e;
   comet_posn( &e2, t, loc2);
   REQUIRE( !memcmp( loc, loc2, sizeof( loc)), "position depends on the velocity being asked for, or on earlier calls");
}

            /* derived quantities */
PROP( derived, 600000, 40)
{
   ELEMENTS e = gen_orbit( d);
   d.note( "%s", show( e).c_str( ));
   derive_quantities( &e, e.gm);
   ld P[3], Q[3];
   orbref::orient( e.incl, e.asc_node, e.arg_per, P, Q);
   for( int i = 0; i < 3; i++)
      REQUIRE( fabs( (double)( e.perih_vec[i] - P[i])) < 1e-13 && fabs( (double)( e.sideways[i] - Q[i])) < 1e-13,
            "perihelion %.12f %.12f %.12f sideways %.12f %.12f %.12f; expected %.12Lf %.12Lf %.12Lf and %.12Lf %.12Lf %.12Lf", e.perih_vec[0], e.perih_vec[1],
            e.perih_vec[2], e.sideways[0], e.sideways[1], e.sideways[2], P[0], P[1], P[2], Q[0], Q[1], Q[2]);
   const double h = sqrt( e.gm * e.q * (1. + e.ecc));
   REQUIRE( fabs( e.angular_momentum / h - 1.) < 1e-13, "angular momentum %.15g, expected %.15g", e.angular_momentum, h);
   if( e.ecc != 1.)
      {
      const double a = e.q / fabs( 1. - e.ecc);
      REQUIRE( fabs( e.major_axis / a - 1.) < 1e-13 && fabs( e.t0 / sqrt( a * a * a / e.gm) - 1.) < 1e-12, "a %.15g t0 %.15g", e.major_axis, e.t0);
      REQUIRE( fabs( e.minor_to_major - sqrt( fabs( (1. - e.ecc) * (1. + e.ecc)))) < 1e-8 + 1e-15 * e.ecc, "axis ratio %.15g", e.minor_to_major);
      }
            /* the longitude of perihelion is the direction of perihelion seen from the pole */
   if( fabs( P[0]) + fabs( P[1]) > 1e-3 && fabs( cos( e.incl)) > 1e-6)
      {
      const double lp = atan2( (double)P[1], (double)P[0]);
      double diff = fmod( e.lon_per - lp, 2. * pi);
      if( cos( e.incl) < 0. && 0) diff = 0.;
      diff = fabs( diff);
      if( diff > pi) diff = 2. * pi - diff;
      REQUIRE( diff < 1e-8, "longitude of perihelion %.12f, expected %.12f", e.lon_per, lp);
      }
}

            /* an orbit's positions do not depend on the order in which they are asked for */
PROP( histories, 60000, 40)
{
   ELEMENTS e = gen_orbit( d);
   derive_quantities( &e, e.gm);
   const int n = 2 + (int)d.raw( 6);
   std::vector<double> ts;
   std::vector<std::vector<double> > out;
   d.note( "%s times", show( e).c_str( ));
   for( int i = 0; i < n; i++)
      {
      double l[4], v[3];
      ts.push_back( e.perih_time + gen_dt( d, e));
      ELEMENTS fresh = e;
      fresh.mean_anomaly = 0.;
      comet_posn_and_vel( &fresh, ts.back( ), l, v);
      d.note( " %.9g", ts.back( ));
      out.push_back( { l[0], l[1], l[2], l[3], v[0], v[1], v[2] });
      }
   for( int k = 0; k < n * 2; k++)
      {
      const size_t j = d.raw( (uint64_t)n - 1);
      double l[4], v[3];
      comet_posn_and_vel( &e, ts[j], l, v);
      for( int i = 0; i < 4; i++)
         REQUIRE( l[i] == out[j][(size_t)i] && (i == 3 || v[i] == out[j][(size_t)i + 4]), "position %d changed with the history of calls", (int)j);
      }
}

            /* IAU H-G phase function (Bowell et al. 1989 approximation with Guide's constants) */
PROP( phase_function, 300000, 40)
{
   const double ph = d.flip( ) ? d.real( 0., 2.6) : d.logreal( 1e-9, .1), g = d.real( -.1, .6);
   d.note( "phase %.12g, G %.6f", ph, g);
   const double got = phase_angle_correction_to_magnitude( ph, g);
   const double t = tan( ph / 2.);
   const double want = -2.5 * log10( (1. - g) * exp( -3.33 * pow( t, .63)) + g * exp( -1.87 * pow( t, 1.22)));
   if( want == want)
      REQUIRE( fabs( got - want) < 1e-5, "%.9f magnitudes, expected %.9f", got, want);
   if( g >= 0.)
      REQUIRE( got > -1e-5 && phase_angle_correction_to_magnitude( ph * 1.01 + 1e-6, g) >= got, "not fading with phase");
}
