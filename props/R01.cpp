// extra: refract.cpp refract4.cpp
/* Atmospheric refraction */
#include <cstdio>
#include <cmath>

#include <vector>
#include "watdefs.h"
#include "afuncs.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "R01", "observed or true altitudes from the horizon (and down to half a degree below, where refraction lifts the object above it) to the zenith, with the horizon and zenith over-weighted; latitudes, wavelengths 0.3-2 micrometers, heights up to 10.9 km, humidities 0-100%, temperatures and pressures over and beyond the plausible range; non-trivial = altitude below 89 degrees and pressure above 10 mb",
   "Ray traced in long double through the stated atmosphere (hydrostatic moist troposphere with constant lapse rate, isothermal stratosphere), its density profile obtained by integrating the hydrostatic equation and the bending from the ray invariant; Bennett's and Saastamoinen's formulae in long double, and their agreement with the ray tracing for ordinary conditions; inverses by round trip; monotonicity",
   "observed altitudes of 0 to 90 degrees and heights below the tropopause, outside of which the code documents garbage; the reverse of Saastamoinen's formula is claimed to 0.1 arcsecond above 20 degrees only")

static const ld pi = 3.14159265358979323846264338327950288L, asec = pi / 648000;

struct air
{
   ld g, T0, P0, Pw0, A, r0;
   ld R = 8314.36L, Md = 28.966L, Mw = 18.016L, del = 18.36L, re = 6378120, al = .0065L;
   std::vector<ld> P;          /* pressures at steps of the troposphere,  from r0 up */
   ld step;
   int n;
   ld T( ld r) const { return( T0 - al * (r - r0)); }
   ld Pw( ld r) const { return( Pw0 * powl( T( r) / T0, del)); }
   ld dP( ld r, ld p) const { return( -g / R * (Md * p - (Md - Mw) * Pw( r)) / T( r)); }
   air( double lat, double wl, double h, double rh, double t, double p)
   {
      g = 9.784L * (1 - .0026L * cosl( 2 * (ld)lat) - 2.8e-7L * h);
      T0 = t;
      P0 = p;
      Pw0 = (ld)rh / 100 * powl( (ld)t / 247.1L, del);
      const ld l2 = (ld)wl * wl;
      A = (287.607L + 1.6288L / l2 + .0136L / (l2 * l2)) * 273.15e-6L / 1013.25L;
      r0 = re + h;
      n = 400;
      step = (11000 - (ld)h) / n;
      P.push_back( P0);
      for( int i = 0; i < n; i++)         /* Runge-Kutta */
         {
         const ld r = r0 + i * step, p0 = P[i], k1 = dP( r, p0), k2 = dP( r + step / 2, p0 + k1 * step / 2), k3 = dP( r + step / 2, p0 + k2 * step / 2), k4 = dP( r + step, p0 + k3 * step);
         P.push_back( p0 + step / 6 * (k1 + 2 * k2 + 2 * k3 + k4));
         }
   }
   void index( ld r, bool strat, ld &nn, ld &dn) const
   {
      const ld rt = re + 11000;
      if( strat)
         {
         ld nt, d;
         index( rt, false, nt, d);
         const ld k = g * Md / R / T( rt);
         nn = 1 + (nt - 1) * expl( -k * (r - rt));
         dn = -k * (nn - 1);
         return;
         }
               /* Hermite interpolation in the table */
      ld x = step > 0 ? (r - r0) / step : 0;
      int i = (int)x;
      if( i >= n) i = n - 1;
      if( i < 0) i = 0;
      x -= i;
      const ld ra = r0 + i * step, d0 = dP( ra, P[i]) * step, d1 = dP( ra + step, P[i + 1]) * step, p0 = P[i], p1 = P[i + 1];
      const ld p = p0 * (1 + 2 * x) * (1 - x) * (1 - x) + d0 * x * (1 - x) * (1 - x) + p1 * x * x * (3 - 2 * x) - d1 * x * x * (1 - x);
      const ld t = T( r), w = Pw( r);
      nn = 1 + A * p / t - 11.2684e-6L * w / t;
      dn = A * (dP( r, p) / t + p * al / (t * t)) - 11.2684e-6L * (-al * del * w / t / t + w * al / (t * t));
   }
               /* bending from the ray invariant k = n r sin z;  dR/dz = -r n'/(n + r n') */
   ld refraction( ld alt) const
   {
      ld n0, d, total = 0;
      index( r0, false, n0, d);
      const ld z0 = pi / 2 - alt, k = n0 * r0 * sinl( z0);
      ld zl = z0, rl = r0;
      for( int layer = 0; layer < 2; layer++)
         {
         const ld rtop = re + (layer ? 80000 : 11000);
         ld nt;
         index( rtop, layer, nt, d);
         const ld ztop = asinl( k / (nt * rtop));
               /* integrate over z = zl - (zl - ztop) u,  Gauss-Legendre over panels */
         static const ld gx[5] = { -.9061798459386639928L, -.5384693101056830910L, 0, .5384693101056830910L, .9061798459386639928L },
                         gw[5] = { .2369268850561890875L, .4786286704993664680L, .5688888888888888889L, .4786286704993664680L, .2369268850561890875L };
         const int panels = 60;
         ld sum = 0, r = rl;
         for( int i = 0; i < panels; i++)
            for( int j = 0; j < 5; j++)
               {
               const ld u = (i + (gx[j] + 1) / 2) / panels, z = zl + (ztop - zl) * u, target = k / sinl( z);
               ld lo = rl, hi = rtop, nn, dn;
               for( int it = 0; it < 60; it++)
                  {
                  index( r, layer, nn, dn);
                  const ld f = nn * r - target;
                  if( f > 0) hi = r; else lo = r;
                  ld nr = r - f / (nn + r * dn);
                  if( nr < lo || nr > hi) nr = (lo + hi) / 2;
                  const bool done = fabsl( nr - r) < 1e-7L;
                  r = nr;
                  if( done) break;
                  }
               index( r, layer, nn, dn);
               sum += gw[j] / 2 / panels * -r * dn / (nn + r * dn);
               }
         total += sum * (zl - ztop);
         zl = ztop;
         rl = rtop;
         }
      return( total);
   }
};
struct cond { double lat, wl, h, rh, t, p; };
static cond gen( Draw &d, bool ordinary)
{
   cond c;
   c.lat = d.real( -1.5708, 1.5708);
   c.wl = ordinary ? d.real( .4, .75) : d.real( .3, 2.);
   c.h = d.rare( 6) ? 0. : d.flip( ) ? d.real( 0., 4500.) : d.real( 0., 10900.);
   c.rh = d.rare( 4) ? 0. : d.real( 0., 100.);
   c.t = ordinary ? d.real( 265., 305.) : d.real( 230., 320.);
   c.p = d.flip( ) ? 1013.25 * pow( 1. - 6.5e-3 * c.h / 288.15, 5.256) * d.real( .93, 1.06) : d.real( 1., 1080.);
   return( c);
}
static double gen_alt( Draw &d)
{
   const double h = M_PI / 2.;
   switch( d.raw( 5))
      {
      case 0: return( d.real( 0., .02));
      case 1: return( d.real( 0., .3));
      case 2: return( h - d.logreal( 1e-9, .1));
      case 3: return( d.flip( ) ? 0. : h);
      default: return( d.real( 0., h));
      }
}
static double integrated( const cond &c, double alt) { return( integrated_refraction( c.lat, alt, c.wl, c.h, c.rh, c.t, c.p)); }

PROP( ray_tracing, 4000, 20)
{
   const cond c = gen( d, false);
   const double alt = gen_alt( d);
   d.note( "alt %.9f rad, lat %.3f, %.3f um, %.1f m, %.1f%%, %.2f K, %.2f mb", alt, c.lat, c.wl, c.h, c.rh, c.t, c.p);
   d.nontrivial( alt < 1.553 && c.p > 10.);
   d.cls( alt < .02 ? "near the horizon" : alt > 1.5 ? "near the zenith" : "between");
   const double got = integrated( c, alt);
   const ld want = air( c.lat, c.wl, c.h, c.rh, c.t, c.p).refraction( alt);
   const double tol = alt < .03 ? .4 : alt < .1 ? .2 : alt < .5 ? .06 : .015;         /* of the adaptive quadrature */
   if( alt > 1.3)             /* refraction is proportional to tan( z):  a relative test as well */
      REQUIRE( fabs( (double)( (got - want) / asec)) < 1e-7 + 3e-3 * fabs( (double)( want / asec)), "refraction at %.4g rad from the zenith is %.4g\", expected %.4g\"", M_PI / 2. - alt, (double)( got / asec), (double)( want / asec));
   REQUIRE( fabs( (double)( (got - want) / asec)) < tol, "refraction is %.5f\", expected %.5f\"", (double)( got / asec), (double)( want / asec));
}
PROP( inverse, 15000, 10)
{
   const cond c = gen( d, false);
   const double obs = gen_alt( d), r = integrated( c, obs), back = reverse_integrated_refraction( c.lat, obs - r, c.wl, c.h, c.rh, c.t, c.p);
   d.note( "alt %.9f rad, lat %.3f, %.3f um, %.1f m, %.1f%%, %.2f K, %.2f mb", obs, c.lat, c.wl, c.h, c.rh, c.t, c.p);
   d.nontrivial( obs < 1.553 && c.p > 10.);
   REQUIRE( fabs( back - r) < .11 * asec, "an object seen at %.8f is refracted by %.5f\", but reversing that gives %.5f\"", obs, (double)( r / asec), (double)( back / asec));
}
PROP( higher_is_less, 15000, 10)
{
   cond c = gen( d, false);
   double a = gen_alt( d), b = gen_alt( d);
   if( a > b) std::swap( a, b);
   if( b - a < 2e-6) return;
   c.p = std::max( c.p, 200.);            /* (water vapor is no more than a tenth of the air) */
   d.note( "alts %.9f %.9f, lat %.3f, %.3f um, %.1f m, %.1f%%, %.2f K, %.2f mb", a, b, c.lat, c.wl, c.h, c.rh, c.t, c.p);
   d.nontrivial( a < 1.553 && c.p > 10.);
   const double ra = integrated( c, a), rb = integrated( c, b), slack = a < .03 ? .6 * asec : a < .1 ? .3 * asec : .05 * asec;
   REQUIRE( rb <= ra + slack, "refraction rises from %.5f\" to %.5f\"", (double)( ra / asec), (double)( rb / asec));
   REQUIRE( refraction( b) <= refraction( a) + 1e-9, "simple refraction rises from %.5f\" to %.5f\"", (double)( refraction( a) / asec), (double)( refraction( b) / asec));
}
PROP( simple, 30000, 10)
{
   const double alt = gen_alt( d), deg = alt * 180. / M_PI;
   d.note( "alt %.9f", alt);
   d.nontrivial( alt < 1.553);
   const ld h = (ld)alt * 180 / pi, x = 1 / tanl( (h + 7.31L / (h + 4.4L)) * pi / 180), want = (x - .06L * sinl( (14.7L * x + 13) * pi / 180)) * 60;       /* arcseconds */
   const double got = refraction( alt), back = reverse_refraction( alt - got);
   REQUIRE( fabs( (double)( got / asec - want)) < 1e-6, "Bennett's refraction at %.6f deg is %.6f\", expected %.6f\"", deg, (double)( got / asec), (double)want);
   REQUIRE( fabs( back - got) < .02 * asec, "refraction at %.6f deg is %.5f\"; reversed, %.5f\"", deg, (double)( got / asec), (double)( back / asec));
   const double full = integrated_refraction( .8, alt, .574, 0., 50., 283.15, 1010.);
   REQUIRE( fabs( got - full) < .025 * full + .95 * asec, "simple and full refraction differ at %.6f deg: %.4f\", %.4f\"", deg, (double)( got / asec), (double)( full / asec));
}
PROP( saastamoinen, 30000, 10)
{
   const cond c = gen( d, true);
   const double alt = std::max( gen_alt( d), d.real( .05, .4)), rh = c.rh / 100.;
   d.note( "alt %.9f, %.2f mb, %.2f K, RH %.3f", alt, c.p, c.t, rh);
   d.nontrivial( alt < 1.553 && c.p > 10.);
   const ld pw = rh * powl( c.t / 247.1L, 18.36L), q = (c.p - .156L * pw) / c.t, t = 1 / tanl( alt);
   const ld want = 16.271L * q * t * (1 + .0000394L * q * t * t) - .0000749L * c.p * (t + t * t * t);
   const double got = saasta_refraction( alt, c.p, c.t, rh);
   REQUIRE( fabs( (double)( got / asec - want)) < 1e-6, "Saastamoinen's refraction is %.6f\", expected %.6f\"", (double)( got / asec), (double)want);
   if( alt > .35)
      {
      const double back = reverse_saasta_refraction( alt - got, c.p, c.t, rh);
      REQUIRE( fabs( back - got) < .1 * asec, "refraction is %.5f\"; reversed, %.5f\"", (double)( got / asec), (double)( back / asec));
      const double full = integrated_refraction( c.lat, alt, .574, c.h, c.rh, c.t, c.p);
      if( c.h < 3000. && c.p > 600.)
         REQUIRE( fabs( got - full) < .5 * asec, "Saastamoinen's and full refraction differ: %.4f\", %.4f\"", (double)( got / asec), (double)( full / asec));
      }
}
