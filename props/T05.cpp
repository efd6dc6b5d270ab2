// flavor: plain
/* Delta-T */
#include "watdefs.h"
#include "afuncs.h"
#include "pbt.h"

PROPERTY( "T05", "instants in years -10000..12000 and user formulae of 1-4 segments with 1-6 coefficients; histories of setting, clearing and querying; non-trivial = all",
   "Model: Espenak/Meeus polynomials before 1620, published values at two-year steps 1972-2024, linear interpolation between even years, 32.5 s/cy^2 after the table",
   "no Earth-orientation file loaded")

static double jd_of_year( double y) { return( 2451545. + (y - 2000.) * 365.25); }

static double poly( double u, std::initializer_list<double> c)
{
   double r = 0., p = 1.;
   for( double x : c) { r += x * p; p *= u; }
   return( r);
}

static double model_old( double y)
{
   if( y < -500.) return( poly( (y - 1820.) / 100., { -20., 0., 32. }));
   if( y < 500.) return( poly( y / 100., { 10583.6, -1014.41, 33.78311, -5.952053, -.1798452, .022174192, .0090316521 }));
   if( y < 1600.) return( poly( (y - 1000.) / 100., { 1574.2, -556.01, 71.23472, .319781, -.8503463, -.005050998, .0083572073 }));
   const double t = y - 1600.;
   return( 120. - .9808 * t - .01532 * t * t + t * t * t / 7129.);
}

static const double obs[] = { 42.23, 44.49, 46.46, 48.53, 50.54, 52.17, 53.79, 54.87, 55.82, 56.86, 58.31, 59.98, 61.63, 62.97, 63.83, 64.30,
                              64.57, 64.85, 65.46, 66.07, 66.60, 67.28, 68.10, 68.97, 69.36, 69.29, 69.18 };     /* 1972...2024 */
            /* table of the Astronomical Almanac / Meeus,  decade values 1620-1970 */
static const double decades[] = { 124, 85, 62, 48, 37, 26, 16, 10, 9, 10, 11, 11, 12, 13, 15, 16, 17, 17, 13.7, 12.5, 12, 7.5, 5.7, 7.1, 7.9, 1.6,
                                  -5.4, -5.9, -2.7, 10.5, 21.2, 24.0, 24.3, 29.1, 33.1, 40.2 };

static void check_default( double y)
{
   const double jd = jd_of_year( y), dt = td_minus_ut( jd);
   if( y < 1620. - 1e-6)
      REQUIRE( fabs( dt - model_old( y)) < 1e-3 + fabs( dt) * 1e-5 + (y > 1599.999 || fabs( y - 500.) < .001 || fabs( y + 500.) < .001 ? 20. : 0.),
                  "Delta-T %.5f, polynomial gives %.5f", dt, model_old( y));
   else if( y <= 2024. && y > 1620. + 1e-6)
      {
      const double y0 = floor( y / 2.) * 2.;
      const double a = td_minus_ut( jd_of_year( y0) + 1e-6), b = td_minus_ut( jd_of_year( y0 + 2.) - 1e-6);
      REQUIRE( fabs( dt - (a + (b - a) * (y - y0) / 2.)) < 1e-5, "Delta-T %.5f, not interpolated between %.5f and %.5f", dt, a, b);
      if( y >= 1972.)
         {
         const int i = (int)( (y0 - 1972.) / 2.);
         REQUIRE( fabs( a - obs[i]) < .06, "Delta-T in %.0f is %.3f, observed %.3f", y0, a, obs[i]);
         if( i < 26)
            REQUIRE( fabs( b - obs[i + 1]) < .06, "Delta-T in %.0f is %.3f, observed %.3f", y0 + 2., b, obs[i + 1]);
         }
      const double dec = floor( y / 10.) * 10.;
      if( dec <= 1970.)
         {
         const double v = td_minus_ut( jd_of_year( dec) + 1e-6);
         REQUIRE( fabs( v - decades[(int)( (dec - 1620.) / 10.)]) < .15, "Delta-T in %.0f is %.3f, published %.1f", dec, v, decades[(int)( (dec - 1620.) / 10.)]);
         }
      REQUIRE( dt > -7. && dt < 124.1, "Delta-T %.3f", dt);
      }
   else if( y > 2024.)
      {
      const double a = td_minus_ut( jd_of_year( 2022.)), b = td_minus_ut( jd_of_year( 2024.)), c = (y - 2024.) / 100.;
      const double want = b + (b - a) * (y - 2024.) / 2. + 32.5 * c * c;
      REQUIRE( fabs( dt - want) < 1e-4 + fabs( want) * 1e-6, "Delta-T %.5f, extrapolation gives %.5f", dt, want);
      }
}

static double gen_year( Draw &d)
{
   switch( d.raw( 4))
      {
      case 0: return( d.real( -10000., 12000.));
      case 1: return( d.real( 1600., 2060.));
      case 2: return( (double)d.ival( 1600, 2060) + (double)d.ival( -2, 2) * 1e-5);
      case 3: { static const double k[] = { -500., 500., 1600., 1620., 2024. }; return( k[d.raw( 4)] + (d.flip( ) ? 1. : -1.) * d.logreal( 1e-5, 30.)); }
      default: return( d.real( -600., 1700.));
      }
}

PROP( default_values, 600000, 30)
{
   const double y = gen_year( d);
   d.note( "year %.6f", y);
   if( y > 2023. && y < 2024.5) d.cls( "end of table");
   check_default( y);
}

PROP( continuity, 500000, 30)
{
   const double y = gen_year( d), h = d.logreal( 1e-6, 1e-2);
   d.note( "years %.7f, %.7f", y, y + h);
   if( fabs( y - 1620.) < .02)
      { d.nontrivial( false); return; }
   const double diff = fabs( td_minus_ut( jd_of_year( y + h)) - td_minus_ut( jd_of_year( y)));
               /* joins of the published polynomials carry steps of up to 15 s (year -500) and 5 s (500, 1600) */
   const bool join = (fabs( y + 500.) < .02 || fabs( y - 500.) < .02 || fabs( y - 1600.) < .02);
   REQUIRE( diff < h * 100. + 1e-4 + (join ? 16. : 0.), "jump of %.5f s", diff);
}

struct Seg { double y1, y2, off; bool has_off; std::vector<double> c; };

            /* histories :  set a user formula,  clear it,  ask */
PROP( user_formulae, 200000, 30)
{
   static char store[8][1000];
   std::vector<Seg> cur;
   bool active = false;
   const int n = 1 + (int)d.raw( 7);
   for( int step = 0; step < n; step++)
      {
      if( d.flip( ))
         {
         char *s = store[step];
         if( d.rare( 3))
            {
            if( d.flip( ))
               reset_td_minus_dt_string( NULL);
            else
               {
               *s = '\0';
               reset_td_minus_dt_string( s);
               }
            active = false;
            d.note( "clear; ");
            }
         else
            {
            std::string txt;
            cur.clear( );
            const int n_seg = 1 + (int)d.raw( 3);
            double y = (double)d.ival( -3000, 1900);
            for( int k = 0; k < n_seg; k++)
               {
               Seg g;
               g.y1 = y;
               y += (double)d.ival( 1, 600);
               g.y2 = y;
               if( d.rare( 3)) y += (double)d.ival( 1, 100);
               g.has_off = d.flip( );
               g.off = g.has_off ? (double)d.ival( -500, 2500) : 2000.;
               txt += (k ? ";" : "") + pbt::strf( "%.0f,%.0f:", g.y1, g.y2);
               if( g.has_off) txt += pbt::strf( "o%.0f,", g.off);
               const int nc = 1 + (int)d.raw( 5);
               for( int i = 0; i < nc; i++)
                  {
                  const double v = (double)d.ival( -100000, 100000) / (d.flip( ) ? 1. : 1000.);
                  const std::string t = pbt::strf( "%.3f", v);
                  g.c.push_back( atof( t.c_str( )));
                  txt += (i ? "," : "") + t;
                  }
               cur.push_back( g);
               }
            if( d.flip( )) txt += ";";
            strcpy( s, txt.c_str( ));
            reset_td_minus_dt_string( s);
            active = true;
            d.note( "set '%s'; ", s);
            }
         }
      for( int q = 0; q < 3; q++)
         {
         double y = (active && d.flip( )) ? d.pick( cur).y1 + d.real( -5., 700.) : gen_year( d);
         if( active && d.rare( 4)) y = d.flip( ) ? d.pick( cur).y1 + 1e-5 : d.pick( cur).y2 - 1e-5;
         const double jd = jd_of_year( y);
         const double yr = 2000. + (jd - 2451545.) / 365.25;
         const Seg *hit = nullptr;
         if( active)
            for( auto &g : cur)
               if( !hit && yr >= g.y1 && yr < g.y2)
                  hit = &g;
         d.note( "ask %.5f; ", y);
         if( hit)
            {
            double want = 0., p = 1., mag = 0.;
            for( double c : hit->c) { want += c * p; mag += fabs( c * p); p *= (yr - hit->off) / 100.; }
            const double got = td_minus_ut( jd);
            REQUIRE( fabs( got - want) < 1e-6 + mag * 1e-9, "user formula gives %.6f, expected %.6f", got, want);
            d.cls( "in user segment");
            }
         else
            {
            bool clear = true;      /* default check needs neighbouring table years to be default too */
            if( active)
               for( auto &g : cur)
                  if( y > 1600. && g.y2 > 1600. && g.y1 < 2030.)
                     clear = false;
            if( clear)
               {
               check_default( y);
               d.cls( active ? "default outside segments" : "default");
               }
            }
         }
      }
   reset_td_minus_dt_string( NULL);
}
