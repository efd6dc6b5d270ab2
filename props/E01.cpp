// flavor: plain
// extra: mpcorb.cpp mpc2sof.cpp:-Dmain=mpc2sof_main
/* Orbital elements read from SOF, MPCORB, ASTORB records and Guide's compressed
asteroid records,  and the MPCORB/ELEMENTS.COMET to SOF converter */
#include "watdefs.h"
#include "comets.h"
#include "afuncs.h"
#include "date.h"
#include "pbt.h"
#include "orbref.h"
using orbref::ld;

long extract_mpcorb_dat( ELEMENTS *elem, const char *buff);
long extract_astorb_dat( ELEMENTS *elem, const char *buff);
int mpc2sof_main( const int argc, const char **argv);
extern const char *sof_header;

PROPERTY( "E01", "records rendered from generated elements: any order, width, alignment and precision of SOF columns; fixed-column MPCORB and ASTORB records with arbitrary text elsewhere; files of 0-40 asteroids and 0-40 comets for the converter; non-trivial = all",
   "values are compared with the decimal text that was rendered; derived quantities and the position at epoch with a long-double two-body reference",
   "dates from years 1583-9999, calendar arithmetic independent of the library")

static const double pi = 3.14159265358979323846264338327950288;
static const double k2 = .01720209895 * .01720209895;

static long jdn( long y, int m, int dd)         /* Gregorian,  at noon */
{
   const long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   return( dd + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045);
}

static int mdays( long y, int m)
{
   static const int n[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   return( n[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 1 : 0));
}

struct date { long y; int m, d; };

static date gen_date( Draw &d, long y0, long y1)
{
   date r;
   r.y = y0 + (long)d.raw( (uint64_t)( y1 - y0));
   r.m = 1 + (int)d.raw( 11);
   r.d = d.rare( 5) ? mdays( r.y, r.m) : 1 + (int)d.raw( (uint64_t)mdays( r.y, r.m) - 1);
   return( r);
}

static void check_orbit( const ELEMENTS &e, double q, double ecc, double incl, double node, double w, double T, double gm, double t, double tol)
{
   ELEMENTS e2 = e;
   double loc[4];
   ld p[3], v[3];
   comet_posn( &e2, t, loc);
   orbref::state( q, ecc, incl * pi / 180., node * pi / 180., w * pi / 180., gm, (ld)t - (ld)T, p, v);
   for( int i = 0; i < 3; i++)
      REQUIRE( fabs( loc[i] - (double)p[i]) < tol * loc[3], "at JD %.6f: %.12f %.12f %.12f, expected %.12Lf %.12Lf %.12Lf", t, loc[0], loc[1], loc[2], p[0], p[1], p[2]);
}

static bool near( double a, double b, double tol) { return( fabs( a - b) <= tol * (1. + fabs( b))); }

struct quiet
{
   int saved;
   quiet( ) { fflush( stdout); saved = dup( 1); const int nul = open( "/dev/null", O_WRONLY); dup2( nul, 1); close( nul); }
   ~quiet( ) { fflush( stdout); dup2( saved, 1); close( saved); }
};

static std::string pad( Draw &d, const std::string &text, size_t width, bool left_only)
{
   std::string s = text;
   const size_t room = width - s.size( ), lead = left_only ? 0 : (d.flip( ) ? room : (size_t)d.raw( room));
   return( std::string( lead, ' ') + s + std::string( room - lead, ' '));
}

PROP( sof, 400000, 40)
{
   struct field { std::string head, text; };
   std::vector<field> f;
   double q, ecc, incl, node, w;
   const int prec = 3 + (int)d.raw( 9);
   auto num = [&]( double v, double *out) { const std::string s = pbt::strf( "%.*f", prec, v); *out = strtod( s.c_str( ), NULL); return( s); };
   auto day = [&]( int decimals, double *jd)
      {
      const date x = gen_date( d, 1583, 9999);
      std::string s = pbt::strf( "%04ld%02d%02d", x.y, x.m, x.d), fr;
      if( decimals)
         {
         fr = ".";
         for( int i = 0; i < decimals; i++) fr += (char)( '0' + d.raw( 9));
         }
      *jd = (double)jdn( x.y, x.m, x.d) - .5 + (fr.size( ) ? strtod( fr.c_str( ), NULL) : 0.);
      return( s + fr);
      };
   double Tp, Te = 0., H = 0., G = .15, tw = 0., tf = 0., tl = 0., rms = 0.;
   const bool earth = d.rare( 8), h_C = earth || d.rare( 8);
   f.push_back( { "q", num( d.flip( ) ? d.real( .01, 99.) : d.logreal( 1e-2, 90.), &q) });
   f.push_back( { "e", num( d.rare( 3) ? d.real( .9, 1.1) : (d.rare( 5) ? 1. : d.real( 0., 3.)), &ecc) });
   f.push_back( { "i", num( d.real( 0., 180.), &incl) });
   f.push_back( { d.flip( ) ? "Om" : "O", num( d.real( 0., 360.), &node) });
   f.push_back( { d.flip( ) ? "om" : "o", num( d.real( 0., 360.), &w) });
   f.push_back( { "Tp", day( (int)d.raw( 8), &Tp) });
   if( d.flip( )) f.push_back( { "Te", day( (int)d.raw( 3), &Te) });
   if( d.flip( )) f.push_back( { "H", num( d.real( -5., 35.), &H) });
   if( d.flip( )) f.push_back( { "G", num( d.real( -.2, .9), &G) });
   if( d.flip( )) f.push_back( { "Tw", day( 0, &tw) });
   if( d.flip( )) f.push_back( { "Tf", day( (int)d.raw( 3), &tf) });
   if( d.flip( )) f.push_back( { "Tl", day( (int)d.raw( 3), &tl) });
   if( d.flip( )) f.push_back( { "rms", num( d.real( 0., 9.), &rms) });
   if( h_C) f.push_back( { "C", earth ? "3" : pbt::strf( "%d", (int)d.pick( std::vector<int>{ 0, 2, 4, 5, 10 })) });
   if( d.flip( )) f.push_back( { "Name", d.str( "ABCXYZ0123456789() .-|", 0, 12) });
   if( d.flip( )) f.push_back( { "n_o", pbt::strf( "%d", (int)d.raw( 99999)) });
   if( d.flip( )) f.push_back( { "Perts", d.str( "M-ph 0123456789.", 0, 7) });
   if( d.flip( )) f.push_back( { "ref", d.str( "MPO 0123456789.", 0, 9) });
   const int dropped = d.rare( 200) ? (int)d.raw( 5) : -1;     /* a needed field missing */
   if( dropped >= 0) f.erase( f.begin( ) + dropped);
   for( size_t i = f.size( ) - 1; i; i--) std::swap( f[i], f[(size_t)d.raw( i)]);
   std::string head, line;
   for( size_t i = 0; i < f.size( ); i++)
      {
      const bool is_date = (f[i].head[0] == 'T');
      size_t width = std::max<size_t>( std::max( f[i].head.size( ), f[i].text.size( )), 2) + (d.flip( ) ? 0 : (size_t)d.raw( 4));
      if( f[i].head.size( ) == 1 && width < 2) width = 2;
      std::string h = f[i].head + std::string( width - f[i].head.size( ), ' ');
      if( width > f[i].head.size( ) + 3 && d.flip( )) h[width - 2] = '.';
      head += h;
      line += pad( d, f[i].text, width, is_date);
      if( i + 1 < f.size( )) { head += '|'; line += ' '; }
      }
   head += d.flip( ) ? "\n" : "";
   line += d.flip( ) ? "\n" : "";
   if( head.back( ) == '\n' && line.back( ) != '\n') line += "   ";
   d.note( "header %s line %s", pbt::quoted( head).c_str( ), pbt::quoted( line).c_str( ));
   ELEMENTS e;
   double extra[4];
   memset( &e, 0xee, sizeof( e));
   if( dropped >= 0)
      {
      quiet z;
      REQUIRE( extract_sof_data( &e, line.c_str( ), head.c_str( )) == -1, "accepted without a needed field");
      d.cls( "field missing");
      return;
      }
   const bool ex = d.flip( );
   const int rval = ex ? extract_sof_data_ex( &e, line.c_str( ), head.c_str( ), extra) : extract_sof_data( &e, line.c_str( ), head.c_str( ));
   REQUIRE( !rval, "refused with %d", rval);
   REQUIRE( e.q == q && e.ecc == ecc, "q %.15g e %.15g", e.q, e.ecc);
   REQUIRE( near( e.incl, incl * pi / 180., 1e-15) && near( e.asc_node, node * pi / 180., 1e-15) && near( e.arg_per, w * pi / 180., 1e-15), "angles %.15g %.15g %.15g", e.incl, e.asc_node, e.arg_per);
   REQUIRE( fabs( e.perih_time - Tp) < 2e-9 && fabs( e.epoch - Te) < 2e-9, "Tp %.9f Te %.9f, expected %.9f and %.9f", e.perih_time, e.epoch, Tp, Te);
   REQUIRE( e.abs_mag == H && e.slope_param == G, "H %.9g G %.9g", e.abs_mag, e.slope_param);
   const double gm = k2 * (earth ? 3.003489614792921e-06 : 1.);
   REQUIRE( near( e.gm / gm, 1., 1e-12), "gm %.15g", e.gm);
   if( ex)
      REQUIRE( fabs( extra[0] - tf) < 2e-9 && fabs( extra[1] - tl) < 2e-9 && extra[2] == tw && extra[3] == rms, "first %.6f last %.6f written %.6f rms %.9g", extra[0], extra[1], extra[2], extra[3]);
   REQUIRE( near( e.angular_momentum / sqrt( gm * q * (1. + ecc)), 1., 1e-12), "angular momentum %.15g", e.angular_momentum);
   check_orbit( e, q, ecc, incl, node, w, Tp, gm, Tp + d.real( -100., 100.), 1e-7);
}

static char packed_digit( int n) { return( (char)( n < 10 ? '0' + n : 'A' + n - 10)); }

struct ast
{
   date ep;
   double M, w, node, incl, ecc, a, H, G, T;
   bool h, g;
};

static ast gen_ast( Draw &d, long y0, long y1)
{
   ast r;
   r.ep = gen_date( d, y0, y1);
   r.M = (double)d.raw( 36000000 - 1) / 1e5;
   if( d.rare( 5)) r.M = d.flip( ) ? 180. : d.real( 179.9, 180.1);
   r.w = (double)d.raw( 35999999) / 1e5;
   r.node = (double)d.raw( 35999999) / 1e5;
   r.incl = (double)d.raw( 18000000) / 1e5;
   r.ecc = (double)d.raw( 9900000) / 1e7;
   r.a = (double)( 10000000 + d.raw( d.flip( ) ? 500000000 : 9899999999ULL)) / 1e8;
   r.h = !d.rare( 6);
   r.g = !d.rare( 6);
   r.H = (double)d.ival( -150, 3500) / 100.;
   r.G = (double)d.ival( -20, 99) / 100.;
   return( r);
}

static std::string junk( Draw &d, size_t len)
{
   std::string s;
   if( d.flip( )) return( std::string( len, ' '));
   while( s.size( ) < len) s += (char)( ' ' + d.raw( 94));
   return( s);
}

static void put( std::string &s, size_t col, const std::string &t) { s.replace( col, t.size( ), t); }

static void elements_of( ast &r)       /* as printed */
{
   auto rd = []( const char *fmt, double v) { return( strtod( pbt::strf( fmt, v).c_str( ), NULL)); };
   r.M = rd( "%.5f", r.M); r.w = rd( "%.5f", r.w); r.node = rd( "%.5f", r.node); r.incl = rd( "%.5f", r.incl);
   r.ecc = rd( "%.7f", r.ecc); r.a = rd( r.a < 1000. ? "%.7f" : "%.5f", r.a);
   double m = r.M;
   if( m > 180.) m -= 360.;
   r.T = (double)jdn( r.ep.y, r.ep.m, r.ep.d) - .5 - m * pi / 180. * r.a * sqrt( r.a / k2);
}

static std::string mpcorb_line( Draw &d, ast &r)
{
   std::string s = junk( d, 202);
   elements_of( r);
   put( s, 7, " ");
   put( s, 8, r.h ? pbt::strf( "%5.2f ", r.H) : std::string( 6, ' '));
   put( s, 14, r.g ? pbt::strf( "%5.2f ", r.G) : std::string( 6, ' '));
   put( s, 20, pbt::strf( "%c%c%c%c%c ", packed_digit( (int)( r.ep.y / 100)), (char)( '0' + r.ep.y / 10 % 10), (char)( '0' + r.ep.y % 10), packed_digit( r.ep.m), packed_digit( r.ep.d)));
   put( s, 26, pbt::strf( "%9.5f  %9.5f  %9.5f  %9.5f  %9.7f %11.8f %11.7f ", r.M, r.w, r.node, r.incl, r.ecc, .9856 / (r.a * sqrt( r.a)), r.a));
   return( s);
}

PROP( mpcorb, 600000, 40)
{
   ast r = gen_ast( d, 1583, 3599);
   std::string s = mpcorb_line( d, r);
   if( d.flip( )) s += "\n";
   d.note( "%s", pbt::quoted( s).c_str( ));
   if( d.rare( 30))           /* not an orbit record */
      {
      const int kind = (int)d.raw( 6);
      static const int cols[6] = { 47, 82, 25, 29, 36, 0 };
      if( kind == 6) s = s.substr( 0, 26 + (size_t)d.raw( 174));
      else if( kind == 5) s = "";
      else s[(size_t)cols[kind]] = 'x';
      ELEMENTS e, e0;
      memset( &e, 0x55, sizeof( e));
      e0 = e;
      REQUIRE( !extract_mpcorb_dat( &e, s.c_str( )) && !memcmp( &e, &e0, sizeof( e)), "malformed record (%d) accepted", kind);
      d.cls( "malformed");
      return;
      }
   const long jd = jdn( r.ep.y, r.ep.m, r.ep.d);
   REQUIRE( extract_mpcorb_dat( NULL, s.c_str( )) == jd, "epoch %ld, expected %ld", extract_mpcorb_dat( NULL, s.c_str( )), jd);
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   e.central_obj = 7;
   REQUIRE( extract_mpcorb_dat( &e, s.c_str( )) == jd, "epoch");
   REQUIRE( e.epoch == (double)jd - .5 && e.ecc == r.ecc && near( e.major_axis, r.a, 1e-14) && near( e.q, r.a * (1. - r.ecc), 1e-15), "epoch %.3f ecc %.9f a %.9f q %.9f", e.epoch, e.ecc, e.major_axis, e.q);
   REQUIRE( near( e.incl, r.incl * pi / 180., 1e-15) && near( e.asc_node, r.node * pi / 180., 1e-15) && near( e.arg_per, r.w * pi / 180., 1e-15) && near( e.mean_anomaly, r.M * pi / 180., 1e-15),
            "angles %.12f %.12f %.12f %.12f", e.incl, e.asc_node, e.arg_per, e.mean_anomaly);
   REQUIRE( fabs( e.abs_mag - (r.h ? r.H : 0.)) < 1e-9 && fabs( e.slope_param - (r.g ? r.G : 0.)) < 1e-9, "H %.6f G %.6f", e.abs_mag, e.slope_param);
   REQUIRE( near( e.perih_time, r.T, 1e-14), "perihelion %.9f, expected %.9f", e.perih_time, r.T);
   REQUIRE( !e.central_obj && e.is_asteroid == 1 && near( e.gm / k2, 1., 1e-14), "central object %d, asteroid %d, gm %.12g", e.central_obj, e.is_asteroid, e.gm);
   check_orbit( e, e.q, r.ecc, r.incl, r.node, r.w, e.perih_time, k2, e.epoch + d.real( -1000., 1000.), 1e-8);
}

PROP( astorb, 400000, 40)
{
   ast r = gen_ast( d, 1583, 9999);
   r.M = (double)d.raw( 359999999) / 1e6; r.w = (double)d.raw( 359999999) / 1e6; r.node = (double)d.raw( 359999999) / 1e6; r.incl = (double)d.raw( 180000000) / 1e6;
   r.ecc = (double)d.raw( 99000000) / 1e8;
   std::string s = junk( d, 268 + (size_t)d.raw( 5));
   put( s, 41, pbt::strf( " %5.2f %5.2f ", r.H, r.G));
   put( s, 105, pbt::strf( " %04ld%02d%02d ", r.ep.y, r.ep.m, r.ep.d));
   put( s, 115, pbt::strf( "%10.6f %10.6f %10.6f%10.6f %10.8f ", r.M, r.w, r.node, r.incl, r.ecc));
   put( s, 169, pbt::strf( "%12.8f ", r.a));
   d.note( "%s", pbt::quoted( s).c_str( ));
   if( d.rare( 30))
      {
      ELEMENTS e, e0;
      memset( &e, 0x55, sizeof( e));
      e0 = e;
      if( d.flip( )) s = s.substr( 0, (size_t)d.raw( 267)); else put( s, 41, d.flip( ) ? " ----- ------" : " 12.30 ------");
      REQUIRE( !extract_astorb_dat( &e, s.c_str( )) && !memcmp( &e, &e0, sizeof( e)), "malformed record accepted");
      d.cls( "malformed");
      return;
      }
   const long jd = jdn( r.ep.y, r.ep.m, r.ep.d);
   ELEMENTS e;
   REQUIRE( extract_astorb_dat( NULL, s.c_str( )) == jd && extract_astorb_dat( &e, s.c_str( )) == jd, "epoch %ld, expected %ld", extract_astorb_dat( NULL, s.c_str( )), jd);
   REQUIRE( e.epoch == (double)jd - .5 && near( e.ecc, r.ecc, 1e-15) && near( e.major_axis, r.a, 1e-14) && near( e.q, r.a * (1. - r.ecc), 1e-14), "epoch %.3f ecc %.9f a %.9f q %.9f", e.epoch, e.ecc, e.major_axis, e.q);
   REQUIRE( near( e.incl, r.incl * pi / 180., 1e-14) && near( e.asc_node, r.node * pi / 180., 1e-14) && near( e.arg_per, r.w * pi / 180., 1e-14) && near( e.mean_anomaly, r.M * pi / 180., 1e-14),
            "angles %.12f %.12f %.12f %.12f", e.incl, e.asc_node, e.arg_per, e.mean_anomaly);
   REQUIRE( fabs( e.abs_mag - r.H) < 1e-9 && fabs( e.slope_param - r.G) < 1e-9, "H %.6f G %.6f", e.abs_mag, e.slope_param);
   double m = r.M;
   if( m > 180.) m -= 360.;
   REQUIRE( near( e.perih_time, e.epoch - m * pi / 180. * r.a * sqrt( r.a / k2), 1e-14), "perihelion %.9f", e.perih_time);
   REQUIRE( !e.central_obj && e.is_asteroid == 1 && near( e.gm / k2, 1., 1e-14), "central object %d, asteroid %d, gm %.12g", e.central_obj, e.is_asteroid, e.gm);
   check_orbit( e, e.q, r.ecc, r.incl, r.node, r.w, e.perih_time, k2, e.epoch + d.real( -1000., 1000.), 1e-8);
}

            /* Guide's six-integer records:  axes to 21 AU linear,  21-63 AU at a quarter of the
            resolution,  beyond that reciprocal */
PROP( compressed, 300000, 40)
{
   double a = d.flip( ) ? d.logreal( .3, 5000.) : d.real( 19., 66.);
   uint32_t v[6];
   double M = d.real( 0., 360.), ecc = d.real( 0., .99), node = d.real( 0., 360.), w = d.real( 0., 360.), incl = d.real( 0., 180.), res;
   if( a < 21.) { v[1] = (uint32_t)( a * 1e8 + .5); res = 1e-8; }
   else if( a < 63.) { v[1] = (uint32_t)( (a + 63.) / 4. * 1e8 + .5); res = 4e-8; }
   else { v[1] = (uint32_t)( (4. - 63. / a) * 10.5 * 1e8 + .5); res = 2e-9 * a * a; }
   v[0] = (uint32_t)( M * 1e7 + .5); v[2] = (uint32_t)( ecc * 1e8 + .5); v[3] = (uint32_t)( node * 1e7 + .5); v[4] = (uint32_t)( w * 1e7 + .5); v[5] = (uint32_t)( incl * 1e7 + .5);
   M = v[0] / 1e7; ecc = v[2] / 1e8; node = v[3] / 1e7; w = v[4] / 1e7; incl = v[5] / 1e7;
   const double ep = 2400000.5 + (double)d.raw( 100000);
   d.note( "a %.9f (%u) e %.8f M %.7f node %.7f argper %.7f incl %.7f epoch %.1f", a, v[1], ecc, M, node, w, incl, ep);
   d.cls( a < 21. ? "a<21" : (a < 63. ? "a<63" : "a>63"));
   ELEMENTS e;
   memset( &e, 0, sizeof( e));
   e.central_obj = 5;
   setup_elems_from_ast_file( &e, v, ep);
   REQUIRE( fabs( e.major_axis - a) < res + 1e-13 * a, "axis %.12f", e.major_axis);
   REQUIRE( near( e.ecc, ecc, 1e-15) && near( e.q, e.major_axis * (1. - ecc), 1e-14) && near( e.incl, incl * pi / 180., 1e-15) && near( e.asc_node, node * pi / 180., 1e-15) && near( e.arg_per, w * pi / 180., 1e-15), "elements");
   REQUIRE( e.epoch == ep && !e.central_obj && near( e.gm / k2, 1., 1e-14) && near( e.mean_anomaly, M * pi / 180., 1e-15), "epoch %.3f, central object %d, gm %.12g, M %.12f", e.epoch, e.central_obj, e.gm, e.mean_anomaly);
   REQUIRE( fabs( e.perih_time - (ep - M * pi / 180. * e.major_axis * sqrt( e.major_axis / k2))) < 1e-14 * (ep + M * e.t0), "perihelion %.9f", e.perih_time);
   check_orbit( e, e.q, ecc, incl, node, w, e.perih_time, k2, ep, 1e-8);
}

            /* MPCORB and ELEMENTS.COMET files through the converter and back through the SOF reader */
PROP( converter, 4000, 40)
{
   char dir[] = "/tmp/verif_e01_XXXXXX";
   REQUIRE( mkdtemp( dir), "no scratch directory");
   struct rec { double q, ecc, incl, node, w, T, ep, H, G; std::string name; };
   std::vector<rec> all;
   const int n_ast = (int)d.raw( d.flip( ) ? 3 : 40), n_com = d.rare( 4) ? -1 : (int)d.raw( d.flip( ) ? 3 : 40);
   std::string ast_text, com_text = "header line\n----- another\n";
   if( d.flip( )) ast_text += "MINOR PLANET CENTER ORBIT DATABASE\n\n------------------\n";
   for( int i = 0; i < n_ast; i++)
      {
      ast r = gen_ast( d, 1800, 2199);
      r.a = d.real( .5, 60.);
      std::string s = mpcorb_line( d, r);
      for( size_t j = 0; j < s.size( ); j++) if( s[j] == '\n') s[j] = ' ';
      put( s, 103, std::string( 99, ' '));
      rec x = { r.a * (1. - r.ecc), r.ecc, r.incl, r.node, r.w, r.T, (double)jdn( r.ep.y, r.ep.m, r.ep.d) - .5, r.h ? r.H : 0., r.g ? r.G : 0., "" };
      if( d.flip( ))
         {
         const int n = 1 + (int)d.raw( 619999);
         const std::string p = pbt::strf( "(%d)", n);
         put( s, 166, std::string( 8 - p.size( ), ' ') + p + (d.flip( ) ? " Ceres" : ""));
         x.name = pbt::strf( "%12d", n);
         }
      else
         {
         x.name = pbt::strf( "%-12s", pbt::strf( "%d %c%c%d", 1900 + (int)d.raw( 199), (char)( 'A' + d.raw( 7)), (char)( 'A' + d.raw( 7)), (int)d.raw( 400)).c_str( ));
         put( s, 175, x.name);
         }
      put( s, 117, pbt::strf( "%5d", (int)d.raw( 9999)));
      put( s, 127, d.flip( ) ? pbt::strf( "%4d days", 1 + (int)d.raw( 998)) : "1801-2019");
      put( s, 137, "0.60");
      put( s, 142, "M-v 30h");
      put( s, 194, pbt::strf( "%04d%02d%02d", 1950 + (int)d.raw( 100), 1 + (int)d.raw( 11), 1 + (int)d.raw( 27)));
      ast_text += s + "\n";
      d.note( "%s\n", s.c_str( ));
      if( d.rare( 10)) ast_text += "\n";
      all.push_back( x);
      }
   for( int i = 0; i < n_com; i++)
      {
      rec x = { 0, 0, 0, 0, 0, 0, 0, 0., 0., "" };
      auto rd = []( std::string s) { return( strtod( s.c_str( ), NULL)); };
      const date t = gen_date( d, 1583, 2199);
      const std::string fr = pbt::strf( ".%05d", (int)d.raw( 99999));
      const long mjd = 20000 + (long)d.raw( 60000);
      const std::string q = pbt::strf( "%11.8f", d.real( .005, 20.)), ec = pbt::strf( "%10.8f", d.flip( ) ? d.real( 0., 1.5) : d.real( .95, 1.05)), in = pbt::strf( "%9.5f", d.real( 0., 180.)),
               wt = pbt::strf( "%9.5f", d.real( 0., 359.9999)), nt = pbt::strf( "%9.5f", d.real( 0., 359.9999));
      x.q = rd( q); x.ecc = rd( ec); x.incl = rd( in); x.w = rd( wt); x.node = rd( nt);
      x.ep = (double)mjd + 2400000.5;
      x.T = (double)jdn( t.y, t.m, t.d) - .5 + rd( fr);
      std::string name;
      const bool numbered = d.flip( );
      if( numbered)
         {
         const int n = 1 + (int)d.raw( 399);
         const std::string frag = d.flip( ) ? "" : pbt::strf( "-%s", d.flip( ) ? "A" : "BC");
         name = pbt::strf( "%3dP/Name%s", n, frag.c_str( ));
         x.name = pbt::strf( "%-12s", (pbt::strf( "%3dP", n) + frag).c_str( ));
         }
      else
         {
         const std::string desig = pbt::strf( "C/%d %c%d", 1900 + (int)d.raw( 120), (char)( 'A' + d.raw( 7)), 1 + (int)d.raw( 30));
         name = "   " + desig + " (Name)";
         x.name = pbt::strf( "%-12s", desig.c_str( ));
         }
      std::string s = pbt::strf( "%-43s %7ld %11s %10s %9s %9s %9s %04ld%02d%02d%s JPL 1\n", name.c_str( ), mjd, q.c_str( ), ec.c_str( ), in.c_str( ), wt.c_str( ), nt.c_str( ), t.y, t.m, t.d, fr.c_str( ));
      com_text += s;
      d.note( "%s", s.c_str( ));
      all.push_back( x);
      }
   char cwd[400];
   REQUIRE( getcwd( cwd, sizeof( cwd)) && !chdir( dir), "cannot enter the scratch directory");
   auto write = []( const char *fn, const std::string &t) { FILE *f = fopen( fn, "wb"); fwrite( t.data( ), 1, t.size( ), f); fclose( f); };
   const bool defaults = n_com >= 0 && d.flip( );
   write( defaults ? (d.flip( ) ? "mpcorb.dat" : "MPCORB.DAT") : "a.dat", ast_text);
   if( n_com >= 0) write( defaults ? "ELEMENTS.COMET" : "c.dat", com_text);
   const char *argv[4] = { "mpc2sof", "a.dat", n_com >= 0 ? "c.dat" : "i", NULL };
   const int rc = mpc2sof_main( defaults ? 1 : 3, argv);
   std::vector<std::string> out;
   char buff[500];
   FILE *f = fopen( "mpcorb.sof", "rb");
   while( f && fgets( buff, sizeof( buff), f)) out.push_back( buff);
   if( f) fclose( f);
   for( const char *fn : { "mpcorb.dat", "MPCORB.DAT", "a.dat", "ELEMENTS.COMET", "c.dat", "mpcorb.sof" }) unlink( fn);
   const int back = chdir( cwd);
   rmdir( dir);
   d.cls( n_ast ? (n_com > 0 ? "both" : "asteroids only") : (n_com > 0 ? "comets only" : "empty"));
   REQUIRE( !back && !rc && f && out.size( ) == all.size( ) + 1, "%d lines out of %d objects (return value %d)", (int)out.size( ), (int)all.size( ), rc);
   REQUIRE( out[0] == sof_header, "header %s", pbt::quoted( out[0]).c_str( ));
   for( size_t i = 0; i < all.size( ); i++)
      {
      ELEMENTS e;
      const rec &x = all[i];
      REQUIRE( out[i + 1].size( ) == out[0].size( ), "record of %d bytes: %s", (int)out[i + 1].size( ), pbt::quoted( out[i + 1]).c_str( ));
      REQUIRE( !extract_sof_data( &e, out[i + 1].c_str( ), out[0].c_str( )), "unreadable record %s", pbt::quoted( out[i + 1]).c_str( ));
      REQUIRE( out[i + 1].substr( 0, 12) == x.name, "name in %s is not '%s'", pbt::quoted( out[i + 1]).c_str( ), x.name.c_str( ));
      const double deg = 180. / pi;
      REQUIRE( fabs( e.q - x.q) < 6e-9 && fabs( e.ecc - x.ecc) < 6e-9 && fabs( e.incl * deg - x.incl) < 6e-7 && fabs( e.asc_node * deg - x.node) < 6e-7 && fabs( e.arg_per * deg - x.w) < 6e-7,
            "q %.9f e %.9f i %.7f node %.7f w %.7f from %s", e.q, e.ecc, e.incl * deg, e.asc_node * deg, e.arg_per * deg, pbt::quoted( out[i + 1]).c_str( ));
      REQUIRE( fabs( e.perih_time - x.T) < 1.1e-7 && e.epoch == x.ep, "perihelion %.8f (expected %.8f), epoch %.4f (expected %.4f) from %s", e.perih_time, x.T, e.epoch, x.ep, pbt::quoted( out[i + 1]).c_str( ));
      REQUIRE( fabs( e.abs_mag - x.H) < 1e-9 && fabs( e.slope_param - x.G) < 1e-9, "H %.3f G %.3f, expected %.3f %.3f", e.abs_mag, e.slope_param, x.H, x.G);
      }
}
