// flavor: plain
/* Orbital elements as displayed in the MPC's eight-line form */
#include <cstddef>
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "date.h"
#include "showelem.h"
#include "pbt.h"
#include "orbref.h"
using orbref::ld;

PROPERTY( "E02", "orbits of 1e-5 to 1e5 AU about the sun, barycentre, planets or moon, e 0 to 5, all precisions 0-15 and all option flags, epochs and perihelia over 8000 years; non-trivial = all",
   "every labelled number in the text is read back and compared with the element, to one unit of the last digit shown",
   "epochs lie on a grid of 1e-6 day (the text shows six decimals)")

static const double pi = 3.14159265358979323846264338327950288;
static const double k2 = .01720209895 * .01720209895;

static long jdn( long y, int m, int dd)         /* Gregorian after 1582 Oct 15,  else Julian; at noon */
{
   const long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   const long j = dd + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083, g = j + 38 - yy / 100 + yy / 400;
   return( g >= 2299161 ? g : j);
}

struct num { double v, unit; };

            /* reads the number following 'label' in 'line';  the unit of its last digit */
static num number_after( const std::string &line, const char *label, size_t from = 0)
{
   size_t p = line.find( label, from);
   REQUIRE( p != std::string::npos, "no '%s' in %s", label, pbt::quoted( line).c_str( ));
   p += strlen( label);
   while( p < line.size( ) && line[p] == ' ') p++;
   size_t q = p, dot = 0;
   if( q < line.size( ) && (line[q] == '-' || line[q] == '+')) q++;
   const size_t digits = q;
   while( q < line.size( ) && (isdigit( line[q]) || (line[q] == '.' && !dot)))
      { if( line[q] == '.') dot = q; q++; }
   REQUIRE( q > digits, "no number after '%s' in %s", label, pbt::quoted( line).c_str( ));
   num n;
   n.v = strtod( line.substr( p, q - p).c_str( ), NULL);
   n.unit = dot ? pow( 10., -(double)( q - dot - 1)) : 1.;
   return( n);
}

static void same( const std::string &line, const char *label, double want, double min_unit, size_t from = 0, double slop = 0.)
{
   const num n = number_after( line, label, from);
   REQUIRE( n.unit < min_unit * 1.5, "'%s' has too few digits in %s", label, pbt::quoted( line).c_str( ));
   REQUIRE( fabs( n.v - want) < n.unit * 1.001 + fabs( want) * 1e-14 + slop, "'%s' should be %.16g in %s", label, want, pbt::quoted( line).c_str( ));
}

            /* distances:  precision + 4 significant digits,  in km below a million km */
static void same_dist( const std::string &line, const char *label, double au, int precision, size_t from = 0)
{
   if( au > 999999.)
      {
      const size_t p = line.find( label, from);
      REQUIRE( p != std::string::npos && line.find( "<HUGE>", p) != std::string::npos, "huge '%s' not flagged in %s", label, pbt::quoted( line).c_str( ));
      return;
      }
   const size_t p = line.find( label, from), e = line.find_first_not_of( "0123456789. ", p + strlen( label));
   const bool km = (au * AU_IN_KM <= 999999.);
   if( fabs( au * AU_IN_KM - 999999.) > 1e-3)
      REQUIRE( (e != std::string::npos && e > 0 && line[e] == 'k' && line[e + 1] == 'm') == km, "unit of '%s' in %s", label, pbt::quoted( line).c_str( ));
   const double v = km ? au * AU_IN_KM : au, digits = v < 10. ? 1. : floor( log10( v) + 1e-12) + 1.;
   double unit = pow( 10., digits - (double)precision - 4.);
   if( unit > 1.) unit = 1.;
   if( km && unit < 1e-16) unit = 1e-16;
   if( unit < 1e-15) unit = 1e-15;
   same( line, label, v, unit * (v > 9999. ? 10.01 : 1.), from, 1e-13 * v);
}

PROP( display, 2500000, 20)
{
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   const bool cometary = d.rare( 4);
   switch( d.raw( 4))
      {
      case 0: e.ecc = d.real( 0., 1.); break;
      case 1: e.ecc = d.rare( 3) ? 0. : d.logreal( 1e-9, .1); break;
      case 2: e.ecc = 1. - d.logreal( 1e-6, .1); break;
      case 3: e.ecc = 1. + d.logreal( 1e-6, 4.); break;
      default: e.ecc = d.real( 0., .4); break;
      }
   if( cometary || d.rare( 8)) e.ecc = 1.;
   e.q = d.flip( ) ? d.logreal( 1e-5, 1e5) : d.real( .1, 40.);
   if( d.rare( 6)) e.q = d.logreal( .003, .02);             /* near a million km */
   e.incl = d.rare( 8) ? (double)d.ival( 0, 2) * pi / 2. : d.real( 0., pi);
   e.asc_node = d.rare( 8) ? (double)d.ival( -4, 4) * pi / 2. : d.real( -7., 7.);
   e.arg_per = d.rare( 8) ? (double)d.ival( -4, 4) * pi / 2. : d.real( -7., 7.);
   e.central_obj = d.flip( ) ? 0 : (int)d.ival( -2, 12);
   static const double masses[11] = { 1., 1.66e-7, 2.45e-6, 3.0035e-6, 3.23e-7, 9.55e-4, 2.86e-4, 4.37e-5, 5.15e-5, 7.4e-9, 3.7e-8 };
   e.gm = k2 * (e.central_obj > 0 && e.central_obj <= 10 ? masses[e.central_obj] : 1.);
   const double y = d.real( -2000., 6000.);
   e.epoch = 2451544.5 + floor( (y - 2000.) * 365.25);
   if( d.flip( )) e.epoch += (double)d.raw( 999999) / 1e6;
   derive_quantities( &e, e.gm);
   switch( d.raw( 3))
      {
      case 0: e.perih_time = e.epoch; break;
      case 1: e.perih_time = e.epoch + d.real( -1000., 1000.); break;
      case 2: e.perih_time = d.real( -1e6, 4e6); break;
      default: e.perih_time = floor( e.epoch) + .5 - d.logreal( 1e-9, 1.); break;
      }
   e.mean_anomaly = d.flip( ) ? d.real( -3.2, 6.3) : d.real( -100., 100.);
   const bool neg_axis = e.ecc > 1. && d.flip( );
   if( neg_axis) e.major_axis = -e.major_axis;
   e.abs_mag = d.flip( ) ? 0. : (double)d.ival( -100, 3500) / 100.;
   e.slope_param = (double)d.ival( -100, 2000) / 100.;
   e.is_asteroid = d.flip( );
   const int precision = (int)d.raw( 15);
   const bool show_time = d.flip( ), omit_pq = d.flip( ), nuclear = d.flip( );
   const int format = precision | (show_time ? SHOWELEM_PERIH_TIME_MASK : 0) | (omit_pq ? SHOWELEM_OMIT_PQ_MASK : 0) | (nuclear ? SHOWELEM_COMET_MAGS_NUCLEAR : 0);
   std::string name = "Orbital elements:  " + d.str( "ABCXYZ0123456789 ()/-", 0, 30);
   d.note( "q %.15g e %.15g i %.15g node %.15g w %.15g M %.15g T %.9f epoch %.6f centre %d, H %.2f G %.2f, %s, format %x%s", e.q, e.ecc, e.incl, e.asc_node, e.arg_per,
               e.mean_anomaly, e.perih_time, e.epoch, e.central_obj, e.abs_mag, e.slope_param, e.is_asteroid ? "asteroid" : "comet", format, cometary ? " cometary" : "");
   std::vector<char> buff( 1000, 'x');
   const int n_lines = elements_in_mpc_format( buff.data( ), buff.size( ), &e, name.c_str( ), cometary, format);
   std::vector<std::string> line;
   const char *p = buff.data( );
   for( int i = 0; i < n_lines; i++) { line.push_back( p); p += strlen( p) + 1; }
   REQUIRE( p <= buff.data( ) + buff.size( ), "overrun");
   size_t n = 0;
   const bool elliptical = !cometary && e.ecc < 1.;
   const bool has_perih = e.perih_time > 2. && e.perih_time < 3000000.;
   REQUIRE( n_lines == 6 + (has_perih ? 1 : 0) + (elliptical ? 1 : 0), "%d lines", n_lines);
   REQUIRE( line[n++] == name, "name is %s", pbt::quoted( line[0]).c_str( ));
   auto date_of = [&]( const std::string &l, size_t at, num *day)
      {
      static const char *mon = "JanFebMarAprMayJunJulAugSepOctNovDec";
      char m[10];
      long yr;
      int nb;
      REQUIRE( sscanf( l.c_str( ) + at, "%ld %3s%n", &yr, m, &nb) == 2 && strstr( mon, m), "date in %s", pbt::quoted( l).c_str( ));
      *day = number_after( l, m, at);
      const int mn = (int)( strstr( mon, m) - mon) / 3 + 1;
      return( (double)jdn( yr, mn, (int)day->v) - (double)(int)day->v - .5);
      };
   if( has_perih)
      {
      static const char *names[12] = { "Peribarion", "Perihelion", "Perimercury", "Perivenus", "Perigee", "Perimars", "Perijove", "Perisaturn", "Periuranus", "Perineptune", "Peripluto", "Perilune" };
      const std::string &l = line[n++];
      const std::string want = std::string( "   ") + (e.central_obj >= -1 && e.central_obj <= 10 ? names[e.central_obj + 1] : "Peri----") + " ";
      REQUIRE( !l.compare( 0, want.size( ), want), "%s where %s was expected", pbt::quoted( l).c_str( ), pbt::quoted( want).c_str( ));
      num day;
      double j0 = date_of( l, want.size( ), &day);
      REQUIRE( fabs( day.unit / pow( 10., -precision) - 1.) < 1e-6, "precision of the day in %s", pbt::quoted( l).c_str( ));
      REQUIRE( fabs( j0 + day.v - e.perih_time) < day.unit * .501 + 1.2e-9 && day.v >= 1. && day.v < 32.0001, "perihelion should be %.10f in %s", e.perih_time, pbt::quoted( l).c_str( ));
      REQUIRE( (l.find( "(JD ") != std::string::npos) == show_time, "time in %s", pbt::quoted( l).c_str( ));
      if( show_time)
         {
         const num jd = number_after( l, "(JD ");
         REQUIRE( fabs( jd.v - e.perih_time) < jd.unit * .501 + 1e-9, "JD in %s", pbt::quoted( l).c_str( ));
         int h, m;
         double s;
         const char *t = strstr( l.c_str( ), "TT = ");
         REQUIRE( t && sscanf( t + 5, "%d:%d:%lf", &h, &m, &s) == 3, "clock time in %s", pbt::quoted( l).c_str( ));
         double frac = e.perih_time + .5 - floor( e.perih_time + .5), diff = fabs( frac * 86400. - (h * 3600. + m * 60. + s));
         if( diff > 43200.) diff = 86400. - diff;
         REQUIRE( diff < (precision > 5 ? pow( 10., 5. - precision) : 1.) + 1e-4, "clock time should be %.9f day in %s", frac, pbt::quoted( l).c_str( ));
         }
      }
      {
      const std::string &l = line[n++];
      num day;
      REQUIRE( !l.compare( 0, 6, "Epoch "), "%s", pbt::quoted( l).c_str( ));
      const double j0 = date_of( l, 6, &day);
      REQUIRE( fabs( j0 + day.v - e.epoch) < 1.1e-6 && day.v >= 1. && day.v < 32.0001, "epoch should be %.6f in %s", e.epoch, pbt::quoted( l).c_str( ));
      const num jd = number_after( l, "= JDT ");
      REQUIRE( fabs( jd.v - e.epoch) < 1.1e-6, "epoch should be %.6f in %s", e.epoch, pbt::quoted( l).c_str( ));
      }
   const double deg = 180. / pi;
   auto ang = [&]( double a) { a = fmod( a, 2. * pi); if( a < 0.) a += 2. * pi; return( a * deg); };
   const double unit = pow( 10., -precision), slop = 1e-11;
      {
      const std::string &l = line[n++];
      if( elliptical) same( l, "M", ang( e.mean_anomaly), unit, 0, slop);
      else same_dist( l, "q", e.q, precision);
      REQUIRE( l[0] == (elliptical ? 'M' : 'q') && (l.find( "(2000.0)") != std::string::npos) == !omit_pq, "%s", pbt::quoted( l).c_str( ));
      }
   ld P[3], Q[3], Pe[3], Qe[3];
   orbref::orient( e.incl, e.asc_node, e.arg_per, P, Q);
   const ld ob = 84381.448L / 3600.L * orbref::PI_L / 180.L;
   for( int i = 0; i < 2; i++)
      {
      ld *in = i ? Q : P, *out = i ? Qe : Pe;
      out[0] = in[0];
      out[1] = in[1] * cosl( ob) - in[2] * sinl( ob);
      out[2] = in[1] * sinl( ob) + in[2] * cosl( ob);
      }
   auto pq = [&]( const std::string &l, const char *label, double value, int axis)
      {
      const size_t at = l.find( label);
      REQUIRE( at != std::string::npos, "no '%s' in %s", label, pbt::quoted( l).c_str( ));
      same( l, label, value, unit, at, slop);
      if( omit_pq) return;
      size_t s0 = at + 5;
      while( l[s0] == ' ') s0++;
      if( l[s0] == '-') s0++;             /* -0. */
      const size_t s1 = l.find_first_of( "+-", s0);
      REQUIRE( s1 != std::string::npos, "no P in %s", pbt::quoted( l).c_str( ));
      const size_t s2 = l.find_first_of( "+-", s1 + 1);
      REQUIRE( s2 != std::string::npos, "no Q in %s", pbt::quoted( l).c_str( ));
      same( l.substr( s1), "", (double)Pe[axis], unit, 0, 1e-14);
      same( l.substr( s2), "", (double)Qe[axis], unit, 0, 1e-14);
      };
   auto mags = [&]( const std::string &l)
      {
      if( e.abs_mag == 0.)
         REQUIRE( l.find( 'H') == std::string::npos && l.find( "M(") == std::string::npos, "magnitude in %s", pbt::quoted( l).c_str( ));
      else if( e.is_asteroid)
         { same( l, "H", e.abs_mag, .01, 0, -.0049); same( l, "G", e.slope_param, .01, 0, -.0049); }
      else
         { same( l, nuclear ? "M(N)" : "M(T)", e.abs_mag, .1, 0, -.049); same( l, "K", e.slope_param, .1, 0, -.049); }
      };
      {
      const std::string &l = line[n++];
      if( elliptical) { REQUIRE( l[0] == 'n', "%s", pbt::quoted( l).c_str( )); same( l, "n", deg / e.t0, unit, 0, 1e-13 * deg / e.t0); }
      else mags( l.substr( 0, l.find( "Peri.")));
      pq( l, "Peri.", ang( e.arg_per), 0);
      }
      {
      const std::string &l = line[n++];
      if( elliptical) { REQUIRE( l[0] == 'a', "%s", pbt::quoted( l).c_str( )); same_dist( l, "a", e.major_axis, precision); }
      else if( neg_axis && e.major_axis < -.0012 && e.major_axis > -99999.) { REQUIRE( l[0] == 'z', "%s", pbt::quoted( l).c_str( )); same( l, "z", 1. / e.major_axis, 1e-9); }
      pq( l, "Node ", ang( e.asc_node), 1);
      }
      {
      const std::string &l = line[n++];
      if( cometary) REQUIRE( !l.compare( 0, 8, "e   1.0 "), "%s", pbt::quoted( l).c_str( ));
      else same( l, "e", e.ecc, unit, 0, 1e-13);
      REQUIRE( l[0] == 'e', "%s", pbt::quoted( l).c_str( ));
      pq( l, "Incl.", e.incl * deg, 2);
      }
   if( elliptical)
      {
      const std::string &l = line[n++];
      const double yrs = e.major_axis * sqrt( e.major_axis * k2 / e.gm), days = yrs * 365.25;
      REQUIRE( l[0] == 'P', "%s", pbt::quoted( l).c_str( ));
      if( yrs > 1e8 - 1.) REQUIRE( l[1] == '!', "period %g yr in %s", yrs, pbt::quoted( l).c_str( ));
      else if( e.central_obj <= 0 || yrs > 1.)
         {
         same( l, "P", yrs, yrs > 9999. ? 1. : .001);
         if( days < 999.8) same( l, "/", days, .001);
         }
      else if( days * 1440. < 9998. || (days * 1440. < 10000. && l.find( "m/") != std::string::npos))
         {
         same( l, "P", days * 1440., .001); same( l, "m/", days, .001);
         }
      else
         { same( l, "P", days, .001); REQUIRE( l.find( "d ") < 14, "days in %s", pbt::quoted( l).c_str( )); }
      mags( l.substr( 0, l.find( " q ")));
      same_dist( l, " q ", e.q, precision);
      same_dist( l, " Q ", e.q * (1. + e.ecc) / (1. - e.ecc), precision, l.find( " q "));
      }
   d.cls( elliptical ? "ellipse" : (e.ecc > 1. ? "hyperbola" : "parabola"));
   d.cls( has_perih ? "dated perihelion" : "no perihelion date");
}
