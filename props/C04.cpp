// flavor: plain
// extra: chinese.cpp:@chinese_main phases.cpp:-Dmain=cc_phases_main date.cpp:-DLOAD_CHINESE_CALENDAR_DATA_FROM_FILE,-Dday_to_dmy=cc_day_to_dmy,-Ddmy_to_day=cc_dmy_to_day,-Dget_chinese_intercalary_month=cc_intercalary,-Dset_chinese_calendar_data=cc_set_data,-Ddays_in_month=cc_days_in_month
/* Making the tables of the Chinese calendar */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <algorithm>
#include "watdefs.h"
#include "lunar.h"
#include "date.h"
#include "afuncs.h"
#include "pbt.h"
#include "runprog.h"
#include "vsopsolar.h"
using pbt::Draw;

extern "C" {
int chinese_main( int argc, const char **argv);
void DLL_FUNC cc_set_data( const void *cdata);
int DLL_FUNC cc_intercalary( void);
void DLL_FUNC cc_day_to_dmy( const long jd, int *day, int *month, long *year, const int calendar);
long DLL_FUNC cc_dmy_to_day( const int day, const int month, const long year, const int calendar);
int DLL_FUNC cc_days_in_month( const int month, const long year, const int calendar);
}
int cc_phases_main( const int argc, const char **argv);

PROPERTY( "C04", "lists of new moons and principal terms over 2 to 30 years: of a synthetic sun and moon (any perihelion, so that each month may be the intercalary one, events at every distance from midnight) in years -350 to 9000 of the calendar, or as 'phases' makes them with a synthetic vsop.bin; non-trivial = at least one intercalary month",
   "The rules of the calendar: days begin at midnight 120 degrees east, month 11 has the solstice, a sui of thirteen months has as its intercalary month the first without a principal term; applied to the list and compared with what the table so made says of every month and day; the events themselves checked against the positions of sun and moon, and recent years against the calendar built into the library",
   "near the ends of a table, where the year first guessed at may be outside of it, day_to_dmy is not required to give an answer; lists start and end with a solstice (the source tells one to edit them)", "events within 16 minutes of midnight (phases) are left out of the comparison with the library's tables");

struct event { double utc; int term, year; };      /* term = 0 for a new moon */

struct month { long day; int num, leap; long year; };

         /* days count from the noon of a day of Beijing */
static long local_day( double utc) { return( (long)floor( utc + 1. / 3. + .5)); }

static std::vector<month> rules( const std::vector<event> &ev)
{
   std::vector<month> rval;
   std::vector<long> moons, terms;
   std::vector<int> which;
   std::vector<int> years;
   for( const event &e : ev)
      if( e.term)
         { terms.push_back( local_day( e.utc)); which.push_back( e.term); years.push_back( e.year); }
      else
         moons.push_back( local_day( e.utc));
   for( size_t i = 0; i < terms.size( ); i++)
      if( which[i] == 11)
         for( size_t j = i + 1; j < terms.size( ); j++)
            if( which[j] == 11)
               {          /* months that begin after the day of this solstice,  to that with the next */
               std::vector<long> m;
               for( long x : moons)
                  if( x > terms[i] && x <= terms[j])
                     m.push_back( x);
               int num = 11;
               long year = years[i];
               bool leap_done = false;
               for( size_t k = 0; k < m.size( ); k++)
                  {
                  long next = 0;
                  for( long x : moons)
                     if( x > m[k])
                        { next = x; break; }
                  bool has = (next == 0);
                  for( long x : terms)
                     has |= (x >= m[k] && x < next);
                  if( m.size( ) == 13 && !leap_done && !has)
                     {
                     leap_done = true;
                     rval.push_back( { m[k], num, 1, year });
                     continue;
                     }
                  if( ++num == 13)
                     { num = 1; year++; }
                  rval.push_back( { m[k], num, 0, year });
                  }
               break;
               }
   return( rval);
}

static std::string log_line( const event &e)
{
   char buff[80];
   full_ctime( buff, e.utc, 0);
   if( !e.term)
      return( pbt::strf( "%7ld    %s\n", local_day( e.utc) - 1, buff));
   return( pbt::strf( "%7ld z  %s  %2d %5d\n", local_day( e.utc) - 1, buff, e.term, e.year));
}

         /* runs the program on the list and examines the tables it makes */
static int compile( const std::vector<event> &ev, const std::string &log)
{
   const std::vector<month> m = rules( ev);
   REQUIRE( m.size( ) > 12, "harness: too few months");
   size_t first = 0, last = m.size( ) - 1;
   while( first < m.size( ) && (m[first].num != 1 || m[first].leap)) first++;
   while( last && (m[last].num != 1 || m[last].leap)) last--;
   const int n_years = (int)( m[last].year - m[first].year);
   int leaps = 0;
   if( n_years < 1)
      return( 0);
   rp::write( "log.txt", log);
   unlink( "chinese.dat");
   const auto r = rp::run( [&]( int argc, const char **argv) { return( chinese_main( argc, argv)); }, { "chinese", "log.txt", pbt::strf( "%d", n_years) });
   REQUIRE( !r[0].code && rp::exists( "chinese.dat"), "exit code %d, %s:\n%s", r[0].code, r[0].err.c_str( ), r[0].out.c_str( ));
   static std::string data;
   data = rp::slurp( "chinese.dat");
   REQUIRE( (int)data.size( ) == 4 + 3 * n_years, "%d bytes for %d years", (int)data.size( ), n_years);
   cc_set_data( data.data( ));
   const bool partial = (m[first].num == 1 && first && m[first - 1].year == m[first].year);
   REQUIRE( !partial, "harness: year starts late");
   for( size_t i = first; i < last; i++)
      {
      int d1, mon, im;
      long yr;
      const long len = m[i + 1].day - m[i].day;
      for( int k = 0; k < 2; k++)
         {
         const long day = k ? m[i + 1].day - 1 : m[i].day;
         cc_day_to_dmy( day, &d1, &mon, &yr, CALENDAR_CHINESE);
               /* near its ends,  the year first guessed at may be out of the table */
         if( d1 < 0 && (day < m[first].day + 60 || day > m[last].day - 60))
            continue;
         im = cc_intercalary( );
         const int raw = mon;
         const bool leap = (im && mon == im);
         if( im && mon >= im) mon--;
         REQUIRE( d1 == (k ? len : 1) && mon == m[i].num && leap == !!m[i].leap && yr == m[i].year, "day %ld is %d of month %d%s of %ld; by the rules,  %ld of month %d%s of %ld", day, d1, mon, leap ? "i" : "", yr, k ? len : 1L, m[i].num, m[i].leap ? "i" : "", m[i].year);
         REQUIRE( cc_dmy_to_day( d1, raw, yr, CALENDAR_CHINESE) == day, "%ld/%d/%d is not day %ld", yr, raw, d1, day);
         }
      leaps += m[i].leap;
      }
   return( leaps);
}

PROP( synthetic, 60000, 10)
{
   rp::own_directory( "chinese");
   const int year0 = (int)d.ival( -350, 8500), n = (int)d.ival( 2, 30);
   const double ecc = d.real( 0., .05), peri = d.real( 0., 2 * M_PI), amp = d.real( 0., .6), phase = d.real( 0., 29.53), anomaly = d.real( 0., 6.28), amp2 = d.real( 0., .18);
               /* calendar year 4637 began in 2000;  solstice of year Y */
   const double sol0 = 2451545. + (year0 - 4636) * 365.2422 - 10.5 + d.real( -2., 2.);
   std::vector<event> ev;
   for( int i = 0; i <= n * 12; i++)
      {
      const double lon = 2. * M_PI * i / 12., t = i / 12. - 2. * ecc * (sin( lon - peri) + sin( peri)) / (2. * M_PI);
      const int term = (10 + i) % 12 + 1;
      ev.push_back( { sol0 + t * 365.2422, term, year0 + (10 + i) / 12 });
      }
   double k0 = ceil( (ev[0].utc - phase + .7) / 29.530589 - .5);
   for( double k = k0; ; k++)
      {
      const double t = phase + 29.530589 * k + amp * sin( anomaly + k * .449) + amp2 * sin( k * .508 + 1.);
      if( t > ev[n * 12].utc) break;
      if( t > ev[0].utc) ev.push_back( { t, 0, 0 });
      }
   if( d.flip( ))          /* events moved to the ends of days */
      for( event &e : ev)
         if( d.rare( 5) && e.utc != ev[0].utc)
            {
            const double edge = floor( e.utc + 1. / 3. + .5) - .5 - 1. / 3.;
            e.utc = edge + (e.utc < edge + .5 ? d.real( 1e-3, 3e-3) : .997 + d.real( 0., 2e-3));
            }
   d.note( "%d years from the solstice of %d,  ecc %.4f peri %.3f, moons %.3f + %.3f sin %.3f + %.3f", n, year0, ecc, peri, phase, amp, anomaly, amp2);
               /* sorting as text puts the moon of a day ahead of its term */
   std::vector<std::string> l;
   for( const event &e : ev)
      l.push_back( log_line( e));
   std::sort( l.begin( ), l.end( ));
   while( l[0][8] != 'z') l.erase( l.begin( ));          /* a moon on the day of the solstice */
   std::string log;
   for( const std::string &s : l) log += s;
   d.nontrivial( true);
   const int leaps = compile( ev, log);
   for( const month &m : rules( ev))
      if( m.leap)
         d.cls( pbt::strf( "intercalary %d", m.num).c_str( ));
   d.nontrivial( leaps > 0);
}

static const vg::ld deg = vg::deg;

PROP( from_phases, 2500, 10)
{
   rp::own_directory( "chinese");
   if( !rp::exists( "vsop.bin"))
      rp::write( "vsop.bin", std::string( vsop( ), vg::size));
   const double year0 = d.flip( ) ? d.real( 1900., 2150.) : d.real( -990., 3900.), years = d.real( 3., 12.);
   d.note( "phases %.4f -m%.4f -c", year0, year0 + years);
   unlink( "phases.log");
   const auto r = rp::run( [&]( int argc, const char **argv) { return( cc_phases_main( argc, argv)); }, { "phases", pbt::strf( "%.4f", year0), pbt::strf( "-m%.4f", year0 + years), "-c", "-lphases.log" });
   REQUIRE( !r[0].code, "exit code %d", r[0].code);
   std::vector<std::string> l = rp::lines( rp::slurp( "phases.log"));
   std::vector<event> ev;
   double prev[2] = { 0., 0. };
   int prev_term = 0, prev_year = 0;
   bool near = false;
   REQUIRE( l.size( ) > 20, "%d lines", (int)l.size( ));
   for( const std::string &s : l)
      {
      event e = { 0., 0, 0 };
      REQUIRE( s.size( ) > 28, "'%s'", s.c_str( ));
      const bool term = (s[8] == 'z');
      const long day = atol( s.c_str( ));
      std::string when = s.substr( 11);
      if( term)
         {
         REQUIRE( when.size( ) > 10 && sscanf( when.c_str( ) + when.size( ) - 8, "%d %d", &e.term, &e.year) == 2, "'%s'", s.c_str( ));
         when.erase( when.size( ) - 9);
         }
      e.utc = get_time_from_string( 0., when.c_str( ), 0, NULL);
      const double td = e.utc + td_minus_utc( e.utc) / 86400., t = (td - 2451545.) / 36525.;
      const vg::ld lag = calc_vsop_loc( vsop( ), 3, 2, t, 0.) * AU_IN_KM / SPEED_OF_LIGHT / 86400. / 36525.;
      const vg::ld sun = calc_vsop_loc( vsop( ), 3, 0, t - (double)lag, 0.) + vg::pi;
      const double local = e.utc + 1. / 3. + .5, tol = td > 2488070. ? 30. : 6.;
      REQUIRE( labs( day - (local_day( e.utc) - 1)) <= (fabs( local - floor( local + .5)) < 3e-5), "'%s': day number for UTC %.5f", s.c_str( ), e.utc);
      near |= (fabs( local - floor( local + .5)) < .011);
      if( term)
         {
         const vg::ld off = vg::wrap( sun - (e.term + 10) * vg::pi / 6, 2 * vg::pi);
         REQUIRE( fabsl( off) / (2 * vg::pi) * 365.25 * 86400. < tol + 2., "'%s': sun at %.5Lf degrees", s.c_str( ), sun / deg);
         if( prev_term)
            REQUIRE( e.term == prev_term % 12 + 1 && e.utc - prev[1] < 33. && e.year == prev_year + (e.term == 1), "'%s' after term %d of %d", s.c_str( ), prev_term, prev_year);
         REQUIRE( abs( e.year - (int)floor( (e.utc - 2451545. - 45.) / 365.25) - 4637) <= 1, "'%s': year for %.3f", s.c_str( ), e.utc);
         if( e.utc > 1721058. && e.term == 11)
            {
            const long yr = (long)floor( (e.utc - 1721058. + (e.utc < 2299160. ? 0. : 0.)) / 365.2425) ;
            REQUIRE( e.year == yr + 2637, "'%s': year %d", s.c_str( ), e.year);
            }
         prev_term = e.term;
         prev_year = e.year;
         }
      else
         {
         double fund[N_FUND], lon, dist;
         lunar_fundamentals( vsop( ), t, fund);
         lunar_lon_and_dist( vsop( ), fund, &lon, &dist, 0L);
         const vg::ld off = vg::wrap( lon * deg - sun, 2 * vg::pi);
         REQUIRE( fabsl( off) / (2 * vg::pi) * 29.53 * 86400. < tol, "'%s': moon %.5Lf degrees from sun", s.c_str( ), off / deg);
         if( prev[0])
            REQUIRE( e.utc - prev[0] > 29. && e.utc - prev[0] < 30., "'%s' is %.3f days after the last", s.c_str( ), e.utc - prev[0]);
         }
      prev[term] = e.utc;
      ev.push_back( e);
      }
               /* sorted;  from the first solstice on */
   std::sort( l.begin( ), l.end( ));
   std::sort( ev.begin( ), ev.end( ), []( const event &a, const event &b) { return( a.utc < b.utc); });
   size_t i = 0;
   while( i < l.size( ) && !(l[i][8] == 'z' && l[i].substr( l[i].size( ) - 8, 2) == "11")) i++;
   std::string log;
   while( l.size( ) > i && !(l.back( )[8] == 'z' && l.back( ).substr( l.back( ).size( ) - 8, 2) == "11")) l.pop_back( );
   for( ; i < l.size( ); i++) log += l[i] + "\n";
   size_t j = 0;
   while( j < ev.size( ) && ev[j].term != 11) j++;
   size_t end = ev.size( );
   const double stop = (year0 + years - 2000.) * 365.25 + 2451545.;
   REQUIRE( prev[1] > stop - 33. && prev[0] > stop - 1., "terms end at %.3f,  moons at %.3f", prev[1], prev[0]);
   std::vector<event> used( ev.begin( ) + j, ev.begin( ) + end);
   d.nontrivial( true);
   const int leaps = compile( used, log);
   d.cls( leaps ? "intercalary" : "no intercalary");
               /* against the library's tables */
   if( !near && year0 > 1900. && year0 + years < 2160.)
      {
      d.cls( "compared with library");
      for( const month &m : rules( used))
         {
         int dd, mm, im;
         long yy;
         day_to_dmy( m.day, &dd, &mm, &yy, CALENDAR_CHINESE);
         im = get_chinese_intercalary_month( );
         const bool leap = (im && mm == im);
         if( im && mm >= im) mm--;
         REQUIRE( dd == 1 && mm == m.num && yy == m.year && leap == !!m.leap, "day %ld is %d of month %d%s of %ld in the library,  1 of month %d%s of %ld by 'phases'", m.day, dd, mm, leap ? "i" : "", yy, m.num, m.leap ? "i" : "", m.year);
         }
      }
}
