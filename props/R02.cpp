/* Sky brightness,  extinction and limiting magnitude */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <vector>
#include "vislimit.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "R02", "observing conditions (month, year, latitude, height -400 to 9000 m, temperature, humidity from none to saturated, sun and moon anywhere above or below the horizon, any phase of the moon) with sequences of points in the sky (any zenith angle, distances from sun and moon from under a degree to 180, any of the 32 sets of bands); non-trivial = the sun or the moon contributes more than 1% of some requested band, or the point is over 60 degrees from the zenith",
   "Schaefer's published model (Sky & Telescope, May 1998) in long double, with the changes the code documents; relations: bands that weren't asked for are untouched, extinction grows away from the zenith, brightness makes for brighter limits, conditions are unaffected by requests",
   "zenith angles up to 90 degrees for extinction; distances from sun and moon above zero")

static const ld pi = 3.14159265358979323846264338327950288L;

static ld mag( ld m) { return( powl( 10, -.4L * m)); }
static ld airmass( ld z)
{
   const ld c = cosl( z);
   return( c > 0 ? 1 / (c + .025L * expl( -11 * c)) : 40);
}

struct model
{
   ld k[5], kr[5], ka[5], ko[5], kw[5], c3[5], c4[5], year_term, lunar_mag, xm, xs;
   void set( const BRIGHTNESS_DATA &b)
   {
      static const ld lambda[5] = { .365L, .44L, .55L, .7L, .9L };
      static const ld oz[5] = { 0, 0, .031L, .008L, 0 }, wt[5] = { .074L, .045L, .031L, .02L, .015L };
      const ld ra = (b.month - 3) * pi / 6, lat = b.latitude, ht = b.ht_above_sea_in_meters / 1000, rh = b.relative_humidity;
      ld am = fmodl( fabsl( 180 - b.moon_elongation * 180 / pi), 360);
      if( am > 180)
         am = 360 - am;
      lunar_mag = -12.73L + .026L * am + 4e-9L * am * am * am * am;
      xm = airmass( b.zenith_ang_moon);
      xs = airmass( b.zenith_ang_sun);
      year_term = 1 + .3L * cosl( 2 * pi * (b.year - 1992) / 11);
      for( int i = 0; i < 5; i++)
         {
         const ld ratio = .55L / lambda[i];
         ld humid = 1;
         if( rh >= 100)
            humid = 1000000;
         else if( rh > 0)
            humid = 1 - .32L / logl( rh / 100);
         kr[i] = .1066L * expl( -ht / 8.2L) * roundl( powl( ratio, 4) * 1e6L) / 1e6L;
         ka[i] = .1L * expl( -ht / 1.5L) * powl( humid, 1.33L) * roundl( powl( ratio, 1.3L) * 1e6L) / 1e6L * (1 + sinl( ra) * sinl( lat));
         ko[i] = oz[i] * (3 + .4L * (lat * cosl( ra) - cosl( 3 * lat))) / 3;
         kw[i] = wt[i] * .94L * rh / 100 * expl( b.temperature_in_c / 15.L) * expl( -ht / 8.2L);
         k[i] = kr[i] + ka[i] + ko[i] + kw[i];
         c3[i] = mag( k[i] * xm);
         c4[i] = mag( k[i] * xs);
         }
   }
   static ld f( ld dist)
   {
      const ld d = dist * 180 / pi;
      return( 6.2e7L / (d * d) + powl( 10, 6.15L - d / 40) + 229086 * (1.06L + cosl( dist) * cosl( dist)));
   }
   ld night, moon, twilight, day;
   ld sky( const BRIGHTNESS_DATA &b, int i)
   {
      static const ld bo[5] = { 8e-14L, 7e-14L, 1e-13L, 1e-13L, 3e-13L }, cm[5] = { 1.36L, .91L, 0, -.76L, -1.17L };
      static const ld ms[5] = { -25.96L, -26.09L, -26.74L, -27.26L, -27.55L }, mo[5] = { -10.93L, -10.45L, -11.05L, -11.90L, -12.70L };
      const ld x = airmass( b.zenith_angle), loss = mag( k[i] * x), s = sinl( b.zenith_angle);
      night = bo[i] * year_term * (.4L + .6L / sqrtl( 1 - .96L * s * s)) * loss;
      moon = mag( lunar_mag + cm[i] - mo[i] + 43.27L) * (1 - loss) * (f( b.dist_moon) * c3[i] + 440000 * (1 - c3[i]));
      if( b.zenith_ang_moon > pi / 2)
         moon *= expl( 100 * (pi / 2 - b.zenith_ang_moon));
      const ld hs = 90 - b.zenith_ang_sun * 180 / pi;
      twilight = mag( ms[i] - mo[i] + 32.5L - hs - b.zenith_angle * 180 / pi / (360 * k[i])) * 100 / (b.dist_sun * 180 / pi) * (1 - mag( k[i]));
      day = mag( ms[i] - mo[i] + 43.27L) * (1 - loss) * (f( b.dist_sun) * c4[i] + 440000 * (1 - c4[i]));
      return( night + moon + (day < twilight ? day : twilight));
   }
   ld ext( const BRIGHTNESS_DATA &b, int i) const
   {
      const ld z = b.zenith_angle, c = cosl( z), s = sinl( z) / (1 + 20.L / 6378);
      return( (kr[i] + kw[i]) / (c + .0286L * expl( -10.5L * c)) + ka[i] / (c + .0123L * expl( -24.5L * c)) + ko[i] / sqrtl( 1 - s * s));
   }
};

static ld limiting( ld brightness, ld extinction)
{
   const ld bl = brightness / 1.11e-15L;
   const ld c1 = bl > 1500 ? powl( 10, -8.35L) : powl( 10, -9.8L), c2 = bl > 1500 ? powl( 10, -5.9L) : powl( 10, -1.9L);
   const ld r = 1 + sqrtl( c2 * bl);
   return( -16.57L - 2.5L * log10l( c1 * r * r) - extinction);
}

static bool same( double a, ld b, ld rel)
{
   return( (a == a) && fabsl( a - b) <= rel * fabsl( b) + 1e-300L);
}

static double angle( pbt::Draw &d, double top)
{
   switch( d.ival( 0, 7))
      {
      case 0: return( 0.);
      case 1: return( (double)pi / 2.);
      case 2: return( (double)pi / 2. + d.real( -.02, .02) * (top > 1.6 ? 1. : -1.) * 1.);
      default: return( d.real( 0., top));
      }
}

static void conditions( pbt::Draw &d, BRIGHTNESS_DATA *b)
{
   b->zenith_ang_moon = angle( d, (double)pi);
   b->zenith_ang_sun = angle( d, (double)pi);
   if( d.rare( 3))         /* twilight */
      b->zenith_ang_sun = d.real( 85., 110.) * (double)pi / 180.;
   b->moon_elongation = d.rare( 4) ? d.real( -800., 800.) * (double)pi / 180. : d.real( 0., (double)pi);
   b->ht_above_sea_in_meters = d.rare( 4) ? 0. : d.real( -400., 9000.);
   b->latitude = d.real( -(double)pi / 2., (double)pi / 2.);
   b->temperature_in_c = d.real( -40., 50.);
   const int h = d.ival( 0, 9);
   b->relative_humidity = (h == 0 ? 0. : h == 1 ? 100. : h == 2 ? d.real( 100., 120.) : h == 3 ? 100. - d.logreal( 1e-4, 1.) : d.real( 0., 100.));
   b->year = d.real( 1900., 2100.);
   b->month = d.flip() ? (double)d.ival( 1, 12) : d.real( 1., 13.);
   d.note( "moon at z=%.10g deg, elong %.10g; sun z=%.10g; ht %.10g m, lat %.10g, T %.10g, RH %.10g, year %.10g month %.10g\n",
         b->zenith_ang_moon * 180. / (double)pi, b->moon_elongation * 180. / (double)pi, b->zenith_ang_sun * 180. / (double)pi,
         b->ht_above_sea_in_meters, b->latitude * 180. / (double)pi, b->temperature_in_c, b->relative_humidity, b->year, b->month);
}

static void point( pbt::Draw &d, BRIGHTNESS_DATA *b)
{
   b->zenith_angle = d.rare( 6) ? (double)pi / 2. : d.rare( 6) ? 0. : d.real( 0., (double)pi / 2.);
   b->dist_moon = d.rare( 5) ? d.logreal( 1e-4, 1.) : d.real( .001, (double)pi);
   b->dist_sun = d.rare( 5) ? d.logreal( 1e-4, 1.) : d.real( .001, (double)pi);
   b->mask = d.flip() ? 31 : d.ival( 0, 31);
   d.note( "point z=%.10g deg, moon %.10g, sun %.10g, mask %d\n", b->zenith_angle * 180. / (double)pi, b->dist_moon * 180. / (double)pi, b->dist_sun * 180. / (double)pi, b->mask);
}

PROP( model_histories, 600000, 20)
{
   BRIGHTNESS_DATA b;
   model m;
   bool interesting = false;

   memset( &b, 0, sizeof( b));
   conditions( d, &b);
   BRIGHTNESS_DATA in = b;
   set_brightness_params( &b);
   m.set( b);
   ld rel = 1e-12L;
   if( b.relative_humidity > 90 && b.relative_humidity < 100)
      rel += 3e-16L / (1 - b.relative_humidity / 100.L);
   for( int i = 0; i < 5; i++)
      {
      REQUIRE( same( b.kr[i], m.kr[i], 1e-12L), "Rayleigh extinction, band %d: %.15g instead of %.15Lg", i, b.kr[i], m.kr[i]);
      REQUIRE( fabsl( b.ka[i] - m.ka[i]) <= rel * m.ka[i] + 1e-16L * expl( -b.ht_above_sea_in_meters / 1500.L) * (b.relative_humidity >= 99 ? 1e9L : 1e3L), "aerosol extinction, band %d: %.15g instead of %.15Lg", i, b.ka[i], m.ka[i]);
      REQUIRE( same( b.ko[i], m.ko[i], 1e-12L), "ozone extinction, band %d: %.15g instead of %.15Lg", i, b.ko[i], m.ko[i]);
      REQUIRE( same( b.kw[i], m.kw[i], 1e-12L), "water vapor extinction, band %d: %.15g instead of %.15Lg", i, b.kw[i], m.kw[i]);
      REQUIRE( same( b.k[i], m.k[i], rel + 1e-15L * fabsl( m.ka[i]) / m.k[i] + (b.relative_humidity >= 99 ? 1e-7L : 0)), "total extinction, band %d: %.15g instead of %.15Lg", i, b.k[i], m.k[i]);
               /* from here on,  its own coefficients */
      m.k[i] = b.k[i]; m.kr[i] = b.kr[i]; m.ka[i] = b.ka[i]; m.ko[i] = b.ko[i]; m.kw[i] = b.kw[i];
      m.c3[i] = mag( m.k[i] * m.xm);
      m.c4[i] = mag( m.k[i] * m.xs);
      const ld r3 = 1e-12L + 1e-15L * m.k[i] * m.xm, r4 = 1e-12L + 1e-15L * m.k[i] * m.xs;
      REQUIRE( same( b.c3[i], m.c3[i], r3), "moonlight let through, band %d: %.15g instead of %.15Lg", i, b.c3[i], m.c3[i]);
      REQUIRE( same( b.c4[i], m.c4[i], r4), "sunlight let through, band %d: %.15g instead of %.15Lg", i, b.c4[i], m.c4[i]);
      }
   REQUIRE( same( b.air_mass_moon, m.xm, 1e-12L) && same( b.air_mass_sun, m.xs, 1e-12L), "air masses %.15g %.15g instead of %.15Lg %.15Lg", b.air_mass_moon, b.air_mass_sun, m.xm, m.xs);
   REQUIRE( fabsl( b.lunar_mag - m.lunar_mag) < 1e-11L, "magnitude of the moon %.15g instead of %.15Lg", b.lunar_mag, m.lunar_mag);
   REQUIRE( same( b.year_term, m.year_term, 1e-12L), "year term %.15g instead of %.15Lg", b.year_term, m.year_term);
   REQUIRE( !memcmp( &in, &b, (char *)&in.zenith_angle - (char *)&in), "the conditions were changed");

   const int n_points = d.ival( 1, 4);
   const BRIGHTNESS_DATA fixed = b;
   for( int p = 0; p < n_points; p++)
      {
      point( d, &b);
      const BRIGHTNESS_DATA before = b;
      compute_sky_brightness( &b);
      REQUIRE( same( b.air_mass, airmass( b.zenith_angle), 1e-12L), "air mass %.15g instead of %.15Lg", b.air_mass, airmass( b.zenith_angle));
      for( int i = 0; i < 5; i++)
         if( (b.mask >> i) & 1)
            {
            const ld expected = m.sky( b, i), sun = m.day < m.twilight ? m.day : m.twilight;
            REQUIRE( same( b.brightness[i], expected, 1e-11L + 1e-14L / m.k[i]), "point %d band %d: brightness %.15g instead of %.15Lg (night %Lg moon %Lg twilight %Lg day %Lg)", p, i, b.brightness[i], expected, m.night, m.moon, m.twilight, m.day);
            REQUIRE( b.brightness[i] > 0. || m.k[i] * b.air_mass > 400., "point %d band %d: brightness %g", p, i, b.brightness[i]);
            if( sun > .01L * expected)
               d.cls( m.day < m.twilight ? "daylight" : "twilight");
            if( m.moon > .01L * expected)
               d.cls( b.zenith_ang_moon > (double)pi / 2 ? "moon just set" : "moonlight");
            if( sun > .01L * expected || m.moon > .01L * expected || b.zenith_angle > 1.047)
               interesting = true;
            }
         else
            REQUIRE( b.brightness[i] == before.brightness[i], "point %d: brightness in band %d was changed", p, i);
      const bool do_ext = d.flip();
      if( do_ext)
         {
         compute_extinction( &b);
         for( int i = 0; i < 5; i++)
            if( (b.mask >> i) & 1)
               REQUIRE( same( b.extinction[i], m.ext( b, i), 1e-12L), "point %d band %d: extinction %.15g instead of %.15Lg", p, i, b.extinction[i], m.ext( b, i));
            else
               REQUIRE( b.extinction[i] == before.extinction[i], "point %d: extinction in band %d was changed", p, i);
         }
      else
         REQUIRE( !memcmp( b.extinction, before.extinction, sizeof( b.extinction)), "point %d: extinctions were changed", p);
      const double lim = compute_limiting_mag( &b);
      const ld bl = b.brightness[2] / 1.11e-15L;
      if( b.brightness[2] > 0. && fabsl( bl - 1500) > 1e-6L)
         REQUIRE( fabsl( lim - limiting( b.brightness[2], b.extinction[2])) < 5e-5L + 1e-14L * b.extinction[2], "point %d: limiting magnitude %.15g instead of %.15Lg", p, lim, limiting( b.brightness[2], b.extinction[2]));
      REQUIRE( !memcmp( b.k, fixed.k, (char *)&b.air_mass_gas - (char *)b.k) && b.lunar_mag == fixed.lunar_mag && b.air_mass_sun == fixed.air_mass_sun && b.air_mass_moon == fixed.air_mass_moon
            && !memcmp( &b, &in, (char *)&in.zenith_angle - (char *)&in), "point %d: the conditions or coefficients were changed", p);
      REQUIRE( b.zenith_angle == before.zenith_angle && b.dist_moon == before.dist_moon && b.dist_sun == before.dist_sun && b.mask == before.mask, "point %d: the point was changed", p);
      }
   d.nontrivial( interesting);
}

PROP( relations, 600000, 20)
{
   BRIGHTNESS_DATA b;

   memset( &b, 0, sizeof( b));
   conditions( d, &b);
   point( d, &b);
   b.mask = 31;
   set_brightness_params( &b);
   compute_sky_brightness( &b);
   compute_extinction( &b);
   const int which = d.ival( 0, 4);
   BRIGHTNESS_DATA c = b;
   static const char *names[5] = { "extinction with zenith angle", "limit with brightness", "limit with extinction", "phase of the moon", "leaving the moon or the sun" };

   d.cls( names[which]);
   d.nontrivial( b.zenith_angle > 1.047 || which == 1 || which == 3);
   switch( which)
      {
      case 0:
         c.zenith_angle = d.real( 0., b.zenith_angle);
         compute_extinction( &c);
         for( int i = 0; i < 5; i++)
            REQUIRE( c.extinction[i] <= b.extinction[i] * (1. + 1e-13), "band %d: extinction %.15g at %.10g deg from the zenith,  %.15g at %.10g deg", i, c.extinction[i], c.zenith_angle * 180. / (double)pi, b.extinction[i], b.zenith_angle * 180. / (double)pi);
         c.zenith_angle = 0.;
         compute_extinction( &c);
         for( int i = 0; i < 5; i++)
            REQUIRE( fabs( c.extinction[i] / c.k[i] - 1.) < 1e-5, "band %d: extinction at the zenith is %.15g,  but %.15g per air mass", i, c.extinction[i], c.k[i]);
         break;
      case 1:
         c.brightness[2] = d.logreal( 1e-16, 1e-3);
         b.brightness[2] = c.brightness[2] * (1. + d.logreal( 1e-6, 1e3));
         d.note( "brightnesses %.10g %.10g\n", c.brightness[2], b.brightness[2]);
         {
         const double l1 = compute_limiting_mag( &c), l2 = compute_limiting_mag( &b);
         REQUIRE( l1 > l2 || (c.extinction[2] > 1e4 && l1 == l2), "limits %.15g and %.15g for brightnesses %.15g and %.15g", l1, l2, c.brightness[2], b.brightness[2]);
         const ld r = limiting( c.brightness[2], c.extinction[2]);
         REQUIRE( fabsl( c.brightness[2] / 1.11e-15L - 1500) < 1e-6L || fabsl( l1 - r) < 5e-5L + 1e-14L * c.extinction[2], "limit %.15g instead of %.15Lg for brightness %.15g", l1, r, c.brightness[2]);
         }
         break;
      case 2:
         {
         const double dm = d.real( 0., 20.);
         c.extinction[2] += dm;
         const double l1 = compute_limiting_mag( &b), l2 = compute_limiting_mag( &c);
         REQUIRE( b.extinction[2] > 1e6 || !(b.brightness[2] > 0.) || fabs( l1 - l2 - dm) < 1e-9, "limit %.15g became %.15g with %.10g magnitudes more of extinction", l1, l2, dm);
         }
         break;
      case 3:
         c.moon_elongation = 2. * (double)pi * d.ival( -2, 2) + (d.flip() ? b.moon_elongation : -b.moon_elongation);
         set_brightness_params( &c);
         compute_sky_brightness( &c);
         REQUIRE( fabs( c.lunar_mag - b.lunar_mag) < 1e-9, "the moon has magnitude %.12g at elongation %.12g and %.12g at %.12g", b.lunar_mag, b.moon_elongation * 180. / (double)pi, c.lunar_mag, c.moon_elongation * 180. / (double)pi);
         c.moon_elongation = d.real( 0., (double)pi);
         set_brightness_params( &c);
         compute_sky_brightness( &c);
         if( b.moon_elongation >= 0. && b.moon_elongation <= (double)pi)
            {
            REQUIRE( (c.moon_elongation - b.moon_elongation) * (c.lunar_mag - b.lunar_mag) <= 0., "the moon has magnitude %.12g at elongation %.12g and %.12g at %.12g", b.lunar_mag, b.moon_elongation * 180. / (double)pi, c.lunar_mag, c.moon_elongation * 180. / (double)pi);
            for( int i = 0; i < 5; i++)
               REQUIRE( c.moon_elongation < b.moon_elongation ? c.brightness[i] <= b.brightness[i] : c.brightness[i] >= b.brightness[i], "band %d: brightness %.12g at elongation %.12g and %.12g at %.12g", i, b.brightness[i], b.moon_elongation * 180. / (double)pi, c.brightness[i], c.moon_elongation * 180. / (double)pi);
            }
         break;
      default:
         {           /* scattered light falls until 90 degrees away */
         double &dc = d.flip() ? c.dist_moon : c.dist_sun;
         double &db = &dc == &c.dist_moon ? b.dist_moon : b.dist_sun;
         db = d.real( .001, 1.57);
         dc = d.real( .0005, db);
         compute_sky_brightness( &b);
         compute_sky_brightness( &c);
         for( int i = 0; i < 5; i++)
            REQUIRE( c.brightness[i] >= b.brightness[i] * (1. - 1e-13), "band %d: brightness %.12g when %.10g deg from the %s, %.12g when %.10g deg away", i, c.brightness[i], dc * 180. / (double)pi, &dc == &c.dist_moon ? "moon" : "sun", b.brightness[i], db * 180. / (double)pi);
         }
         break;
      }
}
