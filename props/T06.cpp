// flavor: plain
// extra: marstime.cpp marstime.cpp:-DTEST_PROGRAM,-Dmain=marstime_main,-Dtt_to_mtc=tp_1,-Dmtc_to_tt=tp_2,-Dmars_true_solar_minus_mean_solar_time=tp_3,-Dmtst_at_airy_to_tt=tp_4
/* Time on Mars */
#include <cstdio>
#include <cmath>
#include <cstring>
#include "pbt.h"
#include "runprog.h"
using pbt::Draw;

double tt_to_mtc( const double jd);
double mtc_to_tt( const double mtc);
double mars_true_solar_minus_mean_solar_time( const double jd);
double mtst_at_airy_to_tt( const double mtst);
int marstime_main( const int argc, const char **argv);

PROPERTY( "T06", "instants of 1600 to 2400 (and some of the years -3000 to 7000), within them some at the turn of sols, all longitudes; non-trivial = all",
   "the published equations (Mars24, B-1 to C-2), evaluated in degrees and long double; inverses must return the instant; times of day as printed, and at other longitudes, must be those of the solar times",
   "equation of time to 1e-9 sol; inverses to .1 millisecond; printed to a millisecond")

typedef long double ld;
static const ld D = 3.14159265358979323846264338327950288419716939937510582L / 180.L;

static ld ref_mtc( ld jd) { return( (jd - 2451549.5L) / 1.0274912517L + 44796.L - .0009626L); }

static ld ref_eot( ld jd)
{
   const ld t = jd - 2451545.L, M = 19.3871L + .52402073L * t, fms = 270.3871L + .524038496L * t;
   static const double A[7] = { 71, 57, 39, 37, 21, 20, 18 }, tau[7] = { 2.2353, 2.7543, 1.1177, 15.7866, 2.1354, 2.4694, 32.8493 },
         phi[7] = { 49.409, 168.173, 191.837, 21.736, 15.704, 95.528, 49.095 };
   ld nu = (10.691L + 3e-7L * t) * sinl( M * D) + .623L * sinl( 2.L * M * D) + .050L * sinl( 3.L * M * D) + .005L * sinl( 4.L * M * D) + .0005L * sinl( 5.L * M * D);
   for( int i = 0; i < 7; i++)
      nu += A[i] * 1e-4L * cosl( (360.L / 365.25L * t / tau[i] + phi[i]) * D);
   const ld Ls = fms + nu;
   return( (2.861L * sinl( 2.L * Ls * D) - .071L * sinl( 4.L * Ls * D) + .002L * sinl( 6.L * Ls * D) - nu) / 360.L);
}

static double instant( Draw &d)
{
   double jd = d.rare( 8) ? d.real( 625673., 4277757.) : d.real( 2305447., 2597641.);
   if( d.rare( 4))          /* a turn of sol at Airy,  mean or true */
      {
      const ld sol = floorl( ref_mtc( jd));
      ld t = (sol - 44796.L + .0009626L) * 1.0274912517L + 2451549.5L;
      if( d.flip( ))
         for( int i = 0; i < 6; i++)
            t = (sol - ref_eot( t) - 44796.L + .0009626L) * 1.0274912517L + 2451549.5L;
      jd = (double)( t + (ld)( d.unit( ) - .5) * d.logreal( 1e-9, 1e-3));
      }
   return( jd);
}

PROP( times, 2000000, 30)
{
   const double jd = instant( d);
   d.note( "JD %.9f", jd);
   d.nontrivial( true);
   const double scale = fabs( jd - 2451545.) / 1e+6 + 1.;
   REQUIRE( fabsl( tt_to_mtc( jd) - ref_mtc( jd)) < 1e-9, "MTC %.12f, expected %.12Lf", tt_to_mtc( jd), ref_mtc( jd));
   const double eot = mars_true_solar_minus_mean_solar_time( jd);
   REQUIRE( fabsl( eot - ref_eot( jd)) < 1e-11 * scale, "equation of time %.12f, expected %.12Lf", eot, ref_eot( jd));
   REQUIRE( fabs( mtc_to_tt( tt_to_mtc( jd)) - jd) < 2e-9, "%.12f recovered from MTC", mtc_to_tt( tt_to_mtc( jd)));
   const double back = mtst_at_airy_to_tt( (double)( ref_mtc( jd) + ref_eot( jd)));
   REQUIRE( fabs( back - jd) < 2e-9, "%.12f recovered from the true solar time at Airy", back);
}

static double time_of( const std::string &text, const char *label)
{
   const size_t at = text.find( label);
   REQUIRE( at != std::string::npos, "no '%s' in %s", label, text.c_str( ));
   size_t i = at + strlen( label);
   const size_t eol = text.find( '\n', i), par = text.find( '(', i);
   if( par < eol) i = par + 1;
   int h, m, n = 0;
   double s;
   REQUIRE( sscanf( text.c_str( ) + i, "%2d:%2d:%6lf%n", &h, &m, &s, &n) == 3 && h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0. && s < 60., "'%s'", text.substr( at, eol - at).c_str( ));
   return( (h * 3600. + m * 60. + s) / 86400.);
}

PROP( program, 20000, 20)
{
   rp::own_directory( "marstime");
   double jd = instant( d);
   const std::string arg = pbt::strf( "%.8f", jd), lon = d.flip( ) ? "" : pbt::strf( "%.4f", d.real( -180., 360.));
   jd = atof( arg.c_str( ));
   std::vector<std::string> args = { "marstime", arg };
   if( !lon.empty( )) args.push_back( lon);
   d.note( "%s", rp::join( args).c_str( ));
   d.nontrivial( true);
   const rp::Result r = rp::run( marstime_main, args)[0];
   REQUIRE( !r.code, "exit code %d: %s", r.code, r.out.c_str( ));
   auto near = [&]( const char *label, ld want)
      {
      const ld diff = (ld)time_of( r.out, label) - want;
      REQUIRE( fabsl( diff - roundl( diff)) * 86400. < .0016, "%s should be %.9Lf of a sol, in %s", label, want - floorl( want), r.out.c_str( ));
      };
   const ld mtc = ref_mtc( jd), tst = mtc + ref_eot( jd), west = lon.empty( ) ? 0.L : (ld)atof( lon.c_str( )) / 360.L;
   near( "MTC =", mtc);
   near( "LTST at Airy:", tst);
   if( !lon.empty( ))
      { near( "LTST at loc:", tst - west); near( "LMST at loc:", mtc - west); }
   const size_t at = r.out.find( "Recovered JD: ");
   REQUIRE( at != std::string::npos && fabs( atof( r.out.c_str( ) + at + 14) - jd) < 1.6e-8, "%s", r.out.c_str( ));
}
