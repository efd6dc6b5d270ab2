// flavor: plain
/* Precession matrices and the rotations they are made of */
#include <cstdio>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "P01", "histories of up to 12 requests for precession matrices between pairs of years from -12000 to 16000 (2000, repeated and swapped pairs, nearly equal years, two epochs other than 2000), directions all over the sphere including the poles and angles outside the usual range; non-trivial = the two years differ",
   "Reference: Lieske's polynomials for the moving ecliptic and Laskar's obliquity in long double, composed as rotations of coordinate axes; Lieske's two-epoch equatorial angles for 1700-2300",
   "RA values are kept below 1e4 radians (the code reduces them by repeated subtraction); directions are compared as vectors with a tolerance of 3e-8 near the poles, where the arcsine loses digits")

static const ld pil = 3.14159265358979323846264338327950288L;
struct mat { ld m[9]; };
static mat mul( const mat &a, const mat &b)
{
   mat r;
   for( int i = 0; i < 3; i++)
      for( int j = 0; j < 3; j++)
         {
         r.m[i * 3 + j] = 0;
         for( int k = 0; k < 3; k++) r.m[i * 3 + j] += a.m[i * 3 + k] * b.m[k * 3 + j];
         }
   return( r);
}
static mat tr( const mat &a)
{
   mat r;
   for( int i = 0; i < 9; i++) r.m[i] = a.m[(i % 3) * 3 + i / 3];
   return( r);
}
static mat R( int axis, ld ang)           /* coordinates in axes turned by 'ang' about 'axis' */
{
   mat r = { { 0, 0, 0, 0, 0, 0, 0, 0, 0 } };
   const int a = (axis + 1) % 3, b = (axis + 2) % 3;
   r.m[axis * 4] = 1;
   r.m[a * 3 + a] = r.m[b * 3 + b] = cosl( ang);
   r.m[a * 3 + b] = sinl( ang);
   r.m[b * 3 + a] = -sinl( ang);
   return( r);
}
static const ld as = pil / (180.L * 3600.L);

static mat ecl2000( ld year)
{
   const ld t = (year - 2000.L) / 100.L;
   const ld eta = (47.0029L * t - .03302L * t * t + .00006L * t * t * t) * as;
   const ld Pi = 174.876384L * pil / 180.L - (869.8089L * t - .03536L * t * t) * as;
   const ld p = (5029.0966L * t + 1.11113L * t * t - .00006L * t * t * t) * as;
   return( mul( R( 2, -Pi - p), mul( R( 0, eta), R( 2, Pi))));
}

static ld obliquity( ld year)
{
   const ld t = (year - 2000.L) / 10000.L;
   if( t > 1.L) return( 22.611485556L * pil / 180.L);
   if( t < -1.L) return( 24.232841111L * pil / 180.L);
   static const ld c[11] = { 84381.448L, -4680.93L, -1.55L, 1999.25L, -51.38L, -249.67L, -39.05L, 7.12L, 27.87L, 5.79L, 2.45L };
   ld r = 0;
   for( int i = 10; i >= 0; i--) r = r * t + c[i];
   return( r * as);
}

static mat ecl( ld from, ld to) { return( mul( ecl2000( to), tr( ecl2000( from)))); }
static mat equ( ld from, ld to) { return( mul( R( 0, -obliquity( to)), mul( ecl( from, to), R( 0, obliquity( from))))); }

static mat lieske( double from, double to)      /* direct,  between two epochs */
{
   const ld T = (from - 2000.) / 100., t = (to - from) / 100.;
   const ld k = 2306.2181L + 1.39656L * T - .000139L * T * T;
   const ld zeta = (k * t + (.30188L - .000344L * T) * t * t + .017998L * t * t * t) * as;
   const ld z = (k * t + (1.09468L + .000066L * T) * t * t + .018203L * t * t * t) * as;
   const ld th = ((2004.3109L - .85330L * T - .000217L * T * T) * t - (.42665L + .000217L * T) * t * t - .041833L * t * t * t) * as;
   return( mul( R( 2, -z), mul( R( 1, th), R( 2, -zeta))));
}

static double worst( const double *m, const mat &r)
{
   ld w = 0;
   for( int i = 0; i < 9; i++)
      {
      if( m[i] != m[i]) return( 1e30);
      w = std::max( w, fabsl( m[i] - r.m[i]));
      }
   return( (double)w);
}

static double gen_year( Draw &d)
{
   switch( d.raw( 5))
      {
      case 0: return( 2000.);
      case 1: return( d.pick( std::vector<double>{ 1875., 1900., 1950., 1984., 2050., 1999.9999, 2000.00001, 0., -8000., 12000., 1949.999789 }));
      case 2: return( d.real( 1900., 2100.));
      case 3: return( d.real( -12000., 16000.));
      default: return( d.real( 1600., 2400.));
      }
}

PROP( matrices, 300000, 20)
{
   const int n = 1 + (int)d.raw( 11);
   std::vector<double> years = { gen_year( d) };
   bool any = false;
   for( int i = 0; i < n; i++)
      {
      double y1, y2, m[9];
      auto year = [&]( )
         {
         double y = d.flip( ) ? years[d.raw( years.size( ) - 1)] : gen_year( d);
         if( d.rare( 8)) y += (d.flip( ) ? 1. : -1.) * d.logreal( 1e-7, 1e-3);
         years.push_back( y);
         return( y);
         };
      y1 = year( ); y2 = year( );
      any |= y1 != y2;
      const int what = (int)d.raw( 2);
      d.note( "%s%s %.12g to %.12g", i ? "; " : "", what == 0 ? "ecliptic" : (what == 1 ? "equatorial" : "point"), y1, y2);
                  /* differences under 1e-5 year are documented as ignored */
      const double tol = fabs( y1 - y2) < 1.01e-5 ? 3e-9 : 2e-13 * (1. + fabs( y1 - 2000.) / 500. + fabs( y2 - 2000.) / 500.);
      if( what == 2)
         {
         DPT ip, op;
         ip.x = d.real( -7., 7.); ip.y = d.real( -1.5, 1.5);
         precess_pt( &op, &ip, y1, y2);
         const mat r = equ( y1, y2);            /* x runs clockwise,  i.e. is minus the RA */
         const ld v[3] = { cosl( ip.x) * cosl( ip.y), -sinl( ip.x) * cosl( ip.y), sinl( ip.y) };
         ld w[3], diff = 0;
         for( int k = 0; k < 3; k++) w[k] = r.m[k * 3] * v[0] + r.m[k * 3 + 1] * v[1] + r.m[k * 3 + 2] * v[2];
         diff += fabsl( w[0] - cosl( op.x) * cosl( op.y)) + fabsl( w[1] + sinl( op.x) * cosl( op.y)) + fabsl( w[2] - sinl( op.y));
         REQUIRE( diff < 5e-8 + tol, "point %.9f, %.9f goes to %.9f, %.9f: off by %Lg", ip.x, ip.y, op.x, op.y, diff);
         REQUIRE( fabs( op.x - ip.x) < 3.1415927, "jump in longitude");
         continue;
         }
      for( int k = 0; k < 9; k++) m[k] = 1e30;
      const int rv = what ? setup_precession( m, y1, y2) : setup_ecliptic_precession( m, y1, y2);
      REQUIRE( !rv, "return value %d", rv);
      const double err = worst( m, what ? equ( y1, y2) : ecl( y1, y2));
      REQUIRE( err < tol, "%s matrix from %.9f to %.9f is off by %g", what ? "equatorial" : "ecliptic", y1, y2, err);
      if( what && y1 > 1700. && y2 > 1700. && y1 < 2300. && y2 < 2300.)
         {
         const double e2 = worst( m, lieske( y1, y2)), lim = 3e-9 + 2e-9 * (fabs( y1 - 2000.) + fabs( y2 - 2000.));
         REQUIRE( e2 < lim, "equatorial matrix from %.9f to %.9f differs by %g from Lieske's angles", y1, y2, e2);
         }
      }
   d.nontrivial( any);
}

PROP( with_nutation, 100000, 20)
{
   const double year = d.flip( ) ? d.real( 1800., 2200.) : d.real( -2000., 4000.);
   double m[9], m0[9], dl, de;
   const bool delta = d.flip( );
   const double xl = delta ? d.real( -1e-6, 1e-6) : 0., xe = delta ? d.real( -1e-6, 1e-6) : 0.;
   d.note( "year %.12g, offsets %.9g %.9g", year, xl, xe);
   if( delta) setup_precession_with_nutation_delta( m, year, xl, xe); else setup_precession_with_nutation( m, year);
   nutation( (year - 2000.) / 100., &dl, &de);
   const ld eps = obliquity( year), dpsi = dl * as + xl, deps = de * as + xe;
   const ld t = (year - 2000.L) / 100.L;
   const ld zeta = (2306.2181L * t + .30188L * t * t + .017998L * t * t * t) * as, z = (2306.2181L * t + 1.09468L * t * t + .018203L * t * t * t) * as;
   const ld th = (2004.3109L * t - .42665L * t * t - .041833L * t * t * t) * as;
   const mat P = mul( R( 2, -z), mul( R( 1, th), R( 2, -zeta)));
            /* nutation (mean to true equator and equinox),  then back along the equator by the equation of the equinoxes */
   const mat N = mul( R( 0, -(eps + deps)), mul( R( 2, -dpsi), R( 0, eps)));
   const mat want = mul( R( 2, dpsi * cosl( eps)), mul( N, P));
   const double err = worst( m, want);
   REQUIRE( err < 1e-12, "matrix for %.9f is off by %g", year, err);
   int setup_equatorial_precession_from_j2000( double *matrix, const double year);
   (void)m0;
}

PROP( vectors, 1000000, 20)
{
   double v[3], w[3], m[9];
   const double y1 = gen_year( d), y2 = gen_year( d);
   setup_precession( m, y1, y2);
   const double ra = d.special( -10., 10.), dec = d.rare( 4) ? (d.flip( ) ? 1. : -1.) * (1.57079632679489661923 - (d.flip( ) ? 0. : d.logreal( 1e-9, .1))) : d.special( -1.5707, 1.5707);
   d.note( "%.12g to %.12g; %.17g %.17g", y1, y2, ra, dec);
   v[0] = cos( ra) * cos( dec); v[1] = sin( ra) * cos( dec); v[2] = sin( dec);
   double pv[3];
   polar3_to_cartesian( pv, ra, dec);
   for( int i = 0; i < 3; i++) REQUIRE( fabs( pv[i] - v[i]) < 1e-15, "polar3_to_cartesian");
   const double scale = d.logreal( 1e-3, 1e3);
   for( int i = 0; i < 3; i++) v[i] *= scale;
   const bool back = d.flip( ), inplace = d.flip( );
   memcpy( w, v, sizeof( w));
   double x[3];
   if( inplace)
      {
      if( back) deprecess_vector( m, w, w); else precess_vector( m, w, w);
      }
   else
      {
      if( back) deprecess_vector( m, v, w); else precess_vector( m, v, w);
      }
   for( int i = 0; i < 3; i++)
      {
      x[i] = 0.;
      for( int k = 0; k < 3; k++) x[i] += (back ? m[k * 3 + i] : m[i * 3 + k]) * v[k];
      }
   for( int i = 0; i < 3; i++) REQUIRE( fabs( w[i] - x[i]) < 1e-14 * scale, "matrix times vector, component %d: %.15g not %.15g", i, w[i], x[i]);
            /* and the other way brings it back */
   if( back) precess_vector( m, w, w); else deprecess_vector( m, w, w);
   for( int i = 0; i < 3; i++) REQUIRE( fabs( w[i] - v[i]) < 1e-13 * scale, "not brought back");
   double ip[2] = { ra, dec }, op[2], bp[2];
   precess_ra_dec( m, op, ip, back);
   REQUIRE( op[0] - ra <= 3.14159265358979324 && op[0] - ra >= -3.14159265358979324, "RA %.9f goes to %.9f", ra, op[0]);
   REQUIRE( fabs( cos( op[0]) * cos( op[1]) - x[0] / scale) < 3e-8 && fabs( sin( op[0]) * cos( op[1]) - x[1] / scale) < 3e-8 && fabs( sin( op[1]) - x[2] / scale) < 3e-8, "RA/dec %.9f %.9f", op[0], op[1]);
   precess_ra_dec( m, bp, op, !back);
   REQUIRE( fabs( bp[1] - dec) < 6e-8 && fabs( bp[0] - ra) * cos( dec) < 6e-8, "%.9f %.9f comes back as %.9f %.9f", ra, dec, bp[0], bp[1]);
            /* ecliptic and equatorial of J2000 */
   memcpy( w, v, sizeof( w));
   equatorial_to_ecliptic( w);
   const ld e0 = 84381.448L * as;
   const ld want[3] = { v[0], v[1] * cosl( e0) + v[2] * sinl( e0), v[2] * cosl( e0) - v[1] * sinl( e0) };
   for( int i = 0; i < 3; i++) REQUIRE( fabsl( w[i] - want[i]) < 1e-14 * scale, "equatorial to ecliptic, component %d", i);
   ecliptic_to_equatorial( w);
   for( int i = 0; i < 3; i++) REQUIRE( fabs( w[i] - v[i]) < 1e-14 * scale, "ecliptic to equatorial, component %d", i);
            /* single rotations */
   const int axis = (int)d.raw( 2);
   const double ang = d.special( -7., 7.);
   memcpy( w, v, sizeof( w));
   rotate_vector( w, ang, axis);
   const mat r = R( axis, -(ld)ang);
   for( int i = 0; i < 3; i++) REQUIRE( fabsl( w[i] - (r.m[i * 3] * v[0] + r.m[i * 3 + 1] * v[1] + r.m[i * 3 + 2] * v[2])) < 1e-14 * scale, "rotation about axis %d by %.9f, component %d", axis, ang, i);
   double inv[9];
   memcpy( inv, m, sizeof( m));
   invert_orthonormal_matrix( inv);
   for( int i = 0; i < 9; i++) REQUIRE( inv[i] == m[(i % 3) * 3 + i / 3], "transposed matrix, element %d", i);
   REQUIRE( fabs( vector3_length( v) / scale - 1.) < 1e-14, "length");
   const double len = normalize_vect3( v);
   REQUIRE( fabs( len / scale - 1.) < 1e-14 && fabs( dot_product( v, v) - 1.) < 1e-14, "normalization");
}
