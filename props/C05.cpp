// flavor: addr
// extra: calendar.cpp:@calendar_main
/* The PostScript calendar maker 'calendar' */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdint>
#include <map>
#include <set>
#include <algorithm>
#include "watdefs.h"
#include "date.h"
#include "afuncs.h"
#include "pbt.h"
#include "runprog.h"
using pbt::Draw;

extern "C" int calendar_main( int argc, const char **argv);

PROPERTY( "C05", "calendars of a month or a whole year, years 13 to 3500 but 1581-1583, all options; files of dates of up to some thirty lines (fixed days, first such-and-such weekday, lists of days, the year's own file) and tables of lunar phases; non-trivial = a file of dates or phases",
   "The PostScript is read into texts at positions; months, weekdays and cells from independent era arithmetic; the two Hebrew holidays by the library's Hebrew calendar (C02), TD-UTC by the library (T04)",
   "a phase within two seconds of midnight isn't used; up to eight texts in a cell")

static const char *month_names[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };

static long jd_of( int y, int m, int day)       /* JD at noon */
{
   const bool julian = (y < 1582);
   const int a = (m <= 2), yy = y - a, mm = m + (a ? 9 : -3);
   const long base = 365L * yy + (long)floor( yy / 4.) + (153 * mm + 2) / 5 + day;
   return( julian ? base + 1721116L + 1 : base - (long)floor( yy / 100.) + (long)floor( yy / 400.) + 1721119L);
}
static int length( int y, int m) { return( (int)( jd_of( y + m / 12, m % 12 + 1, 1) - jd_of( y, m, 1))); }
static int weekday( long jd) { return( (int)( (jd + 1) % 7)); }      /* 0 = Sunday */

struct Item { int page, x, y; std::string font, text; };

static std::vector<Item> read_ps( const std::string &s, std::vector<int> &pages, int &n_pages, int &page_comments)
{
   std::vector<Item> out;
   std::vector<double> stack;
   std::string font = "none", str, name, last_word;
   Item cur{ -1, 0, 0, "", "" };
   size_t i = 0;
   int depth = 0;
   auto flush = [&]( ) { if( !cur.text.empty( )) out.push_back( cur); cur.text.clear( ); };
   n_pages = page_comments = 0;
   while( i < s.size( ))
      {
      const char c = s[i];
      if( isspace( (unsigned char)c)) { i++; continue; }
      if( c == '%')
         {
         const size_t e = std::min( s.find( '\n', i), s.size( ));
         const std::string l = s.substr( i, e - i);
         if( !l.compare( 0, 9, "%%Pages: ")) n_pages += atoi( l.c_str( ) + 9);
         if( !l.compare( 0, 8, "%%Page: ")) page_comments++;
         i = e;
         continue;
         }
      if( c == '(')
         {
         int level = 1;
         str.clear( );
         for( i++; i < s.size( ); i++)
            {
            if( s[i] == '\\' && i + 3 < s.size( ) && isdigit( s[i + 1]))
               { str += (char)( (s[i + 1] - '0') * 64 + (s[i + 2] - '0') * 8 + s[i + 3] - '0'); i += 3; continue; }
            if( s[i] == '(') level++;
            if( s[i] == ')' && !--level) break;
            str += s[i];
            }
         REQUIRE( !level && i < s.size( ), "unbalanced parentheses");
         i++;
         continue;
         }
      if( c == '{' || c == '}')
         {
         if( c == '{' && !depth)
            {
            flush( );
            if( !name.compare( 0, 8, "calendar"))
               {
               pages.push_back( name.size( ) > 8 ? atoi( name.c_str( ) + 9) : 0);
               cur.page = (int)pages.size( ) - 1;
               }
            else
               cur.page = -1;
            }
         depth += (c == '{' ? 1 : -1);
         REQUIRE( depth >= 0, "unbalanced braces");
         if( !depth) flush( );
         i++;
         continue;
         }
      size_t j = i + 1;
      while( j < s.size( ) && !isspace( (unsigned char)s[j]) && !strchr( "(){}/%", s[j])) j++;
      const std::string w = s.substr( i, j - i);
      i = j;
      if( w[0] == '/') name = w.substr( 1);
      else if( isdigit( w[0]) || (w[0] == '-' && w.size( ) > 1)) stack.push_back( atof( w.c_str( )));
      else if( w == "moveto")
         {
         flush( );
         REQUIRE( stack.size( ) >= 2, "moveto without a position");
         cur.x = (int)stack[stack.size( ) - 2];
         cur.y = (int)stack[stack.size( ) - 1];
         cur.font = font;
         }
      else if( w == "show")
         {
         if( name == "Symbol" && font == "Symbol 9") cur.text += "<" + str + ">";
         else cur.text += str;
         }
      else if( w == "blood") { if( depth && cur.page >= 0) cur.text += "<blood>"; }
      else if( w == "setfont") font = name + " " + pbt::strf( "%d", last_word == "defaultfontsize" || stack.empty( ) ? 14 : (int)stack.back( ));
      last_word = w;
      }
   flush( );
   REQUIRE( !depth, "unbalanced braces at the end");
   return( out);
}

struct Phases { bool there; int32_t phase0; std::vector<int32_t> dt; };

static double phase_utc( const Phases &p, size_t i)
{
   const double mean = 2451550.09765 + 29.530588853 * ((double)p.phase0 + (double)i / 4.);
   return( mean + ((double)p.dt[i] - td_minus_utc( mean)) / 86400.);
}

static std::vector<std::string> small_month( int m, int y, const std::map<long, int> &phase_on, int jd_style)
{
   std::vector<std::string> v;
   while( m < 1) { m += 12; y--; }
   while( m > 12) { m -= 12; y++; }
   v.push_back( pbt::strf( "%s %d", month_names[m - 1], y));
   const long j1 = jd_of( y, m, 1);
   const int first = weekday( j1), n = length( y, m);
   for( int row = 0; row < 6; row++)
      {
      std::string l( 20, ' ');
      for( int col = 0; col < 7; col++)
         {
         const int day = row * 7 + col - first + 1;
         if( day < 1 || day > n) continue;
         std::string t = pbt::strf( "%2d", day);
         const auto it = phase_on.find( j1 + day - 1);
         if( it != phase_on.end( )) t = std::string( "NM1QFM3Q").substr( (size_t)it->second * 2, 2);
         l.replace( (size_t)col * 3, 2, t);
         }
      while( !l.empty( ) && l.back( ) == ' ') l.pop_back( );
      if( !l.empty( )) v.push_back( l);
      }
   if( jd_style == 1) v.push_back( pbt::strf( "(JD %ld.5)", j1 - 2));
   if( jd_style == 2) v.push_back( pbt::strf( "(MJD %ld)", j1 - 2 - 2400000));
   return( v);
}

struct Event { int day; std::string text; };

static void apply_line( std::vector<Event> &ev, const std::string &l, int m, int y)
{
   if( l.size( ) < 8 || l.compare( 0, 3, std::string( month_names[m - 1], 3))) return;
   std::vector<int> days( 1, atoi( l.substr( 3, 3).c_str( )));
   size_t loc = 7;
   if( l[6] == '/')
      {
      while( weekday( jd_of( y, m, 1) + days[0] - 1) != l[7] - '0') days[0]++;
      loc = 9;
      }
   while( l[loc - 1] == ',')
      {
      size_t e = loc;
      while( isdigit( l[e]) || (l[e] == ' ' && e == loc)) e++;
      days.push_back( atoi( l.substr( loc, e - loc).c_str( )));
      loc = e + 1;
      }
   for( int x : days) ev.push_back( Event{ x, l.substr( loc) });
}

static std::string make_line( Draw &d, int m, bool &long_one)
{
   static const char *words[] = { "picnic", "Dr (dentist)", "a", "Mother's day", "(()", "vote; 7 pm", "pay $5.00", ")", "noon #2", "Anna b. 1961" };
   std::string l = std::string( month_names[d.rare( 4) ? (int)d.raw( 11) : m - 1], 3);
   l += pbt::strf( " %02d", (int)d.ival( 1, 31));
   if( d.rare( 3)) l += pbt::strf( "/%d", (int)d.raw( 6));
   int n = d.rare( 3) ? (int)d.ival( 1, d.rare( 4) ? 20 : 4) : 0;
   while( n-- && l.size( ) < 66) l += pbt::strf( d.flip( ) ? ",%d" : ",%02d", (int)d.ival( 1, 31));
   l += " ";
   switch( d.raw( 7))
      {
      case 0: l += "^"; break;
      case 1: l += "*"; break;
      case 2: l += "+ "; break;
      case 3: l += "\\p "; break;
      case 4: l += "^+ "; break;
      default: break;
      }
   l += words[d.raw( 9)];
   if( d.rare( 6)) { l += std::string( d.raw( 60), '('); long_one = true; }
   else if( d.rare( 4)) l += std::string( " and ") + words[d.raw( 9)];
   if( l.size( ) > 76) l.resize( 76);
   return( l);
}

PROP( pages, 12000, 30)
{
   rp::own_directory( "calendar");
   rp::clean( );
   int y = d.flip( ) ? (int)d.ival( 1900, 2100) : (int)d.ival( 13, 3500);
   if( y >= 1581 && y <= 1583) y = 1600;
   const int m = (int)d.ival( 1, 12);
   const bool by_year = d.rare( 8), wrap = d.flip( ), kate = d.rare( 5), legal = d.rare( 4), single = d.flip( ), to_file = d.rare( 5);
   const int jd_style = (int)d.raw( 2);
   std::vector<std::string> args = { "calendar" }, opts;
   if( wrap) opts.push_back( "-w");
   if( kate) opts.push_back( "-k");
   if( legal) opts.push_back( "-l");
   if( single) opts.push_back( "-s");
   if( to_file) opts.push_back( "-oout.ps");
   if( jd_style) opts.push_back( jd_style == 1 ? "-j" : "-m");
   if( by_year)
      {
      args.push_back( pbt::strf( "%d", y));
      if( d.flip( )) opts.push_back( "-d");
      }
   else if( d.rare( 4)) { args.push_back( pbt::strf( "%d", m)); args.push_back( pbt::strf( "%d", y)); }
   else { args.push_back( pbt::strf( "%d", y)); args.push_back( pbt::strf( "%d", m)); }
   for( size_t i = opts.size( ); i > 1; i--)  std::swap( opts[i - 1], opts[d.raw( i - 1)]);
   args.insert( args.end( ), opts.begin( ), opts.end( ));
   d.note( "%s", rp::join( args).c_str( ));
   d.cls( by_year ? "year" : "month");
            /* lunar phases */
   Phases ph;
   ph.there = d.flip( );
   std::map<long, int> phase_on;
   if( ph.there)
      {
      d.cls( "with phases");
      const double k = (jd_of( y, by_year ? 1 : m, 1) - 2451550.09765) / 29.530588853;
      ph.phase0 = (int32_t)floor( k) - 6 - (int32_t)d.raw( 30);
      const size_t n = (size_t)( 4 * ((int)floor( k) - ph.phase0 + (by_year ? 32 : 20)));
      std::string f( (char *)&ph.phase0, 4);
      for( size_t i = 0; i < n; i++)
         {
         ph.dt.push_back( (int32_t)d.ival( -60000, 60000));
         for( ;;)       /* move it away from midnight */
            {
            const double t = phase_utc( ph, i) + .5, off = t - floor( t + .5);
            if( fabs( off) > 2. / 86400.) break;
            ph.dt[i] += 5;
            }
         f.append( (char *)&ph.dt[i], 4);
         phase_on[(long)floor( phase_utc( ph, i) + .5)] = (int)( i % 4);
         }
      rp::write( "phases.dat", f);
      }
            /* files of dates */
   const char *names[3] = { "dates.txt", "katedate.txt", "" };
   const std::string own = pbt::strf( "date%d.txt", y);
   std::vector<std::string> lines[3];
   bool some = false, long_one = false;
   for( int f = 0; f < 3; f++)
      {
      if( d.flip( )) continue;
      std::string s;
      const int n = (int)d.raw( d.rare( 3) ? 30 : 5);
      for( int i = 0; i < n; i++)
         {
         lines[f].push_back( make_line( d, m, long_one));
         d.note( "%s: %s", f == 2 ? own.c_str( ) : names[f], lines[f].back( ).c_str( ));
         s += lines[f].back( ) + (d.rare( 6) ? "\r\n" : "\n");
         if( d.rare( 5)) s += d.flip( ) ? "\n" : "; a comment\n";
         some = true;
         }
      rp::write( f == 2 ? own.c_str( ) : names[f], s);
      }
   d.nontrivial( some || ph.there);
   const rp::Result r = rp::run( [&]( int argc, const char **argv) { return( calendar_main( argc, argv)); }, args)[0];
   REQUIRE( r.code == 0, "ended with code %d: %s", r.code, r.err.c_str( ));
   const std::string ps = to_file ? rp::slurp( "out.ps") : r.out;
   std::vector<int> page_names;
   int n_pages, n_page_comments;
   const std::vector<Item> items = read_ps( ps, page_names, n_pages, n_page_comments);
   REQUIRE( page_names.size( ) == (by_year ? 12u : 1u), "%d calendars", (int)page_names.size( ));
   REQUIRE( n_pages == (by_year || single ? 1 : 7) && n_page_comments == n_pages, "%d pages said, %d there", n_pages, n_page_comments);
   const int width = legal ? 14 * 72 : 11 * 72, xsize = (width - 60) / 7;
   for( int p = 0; p < (int)page_names.size( ); p++)
      {
      const int mon = by_year ? p + 1 : m;
      REQUIRE( page_names[(size_t)p] == (by_year ? mon : 0), "calendar %d is called %d", p, page_names[(size_t)p]);
      const int n_days = length( y, mon);
      const long j1 = jd_of( y, mon, 1);
      const int first = weekday( j1);
      std::vector<Event> ev;
      if( kate)
         for( const std::string &l : lines[1]) apply_line( ev, l, mon, y);
      else
         for( int f = 0; f < 3; f += 2)
            for( const std::string &l : lines[f]) apply_line( ev, l, mon, y);
      std::vector<Event> all( ev.rbegin( ), ev.rend( ));
      for( int h = 0; h < 2; h++)
         {
         const long jd = dmy_to_day( h ? 10 : 1, 1, y + 3761L, CALENDAR_HEBREW);
         if( jd >= j1 && jd < j1 + n_days) all.push_back( Event{ (int)( jd - j1) + 1, h ? "Yom Kippur" : "Rosh Hashanah" });
         }
      static const char *full[4] = { "*New moon", "*First quarter", "*Full moon", "*Last quarter" };
      for( const auto &x : phase_on)
         if( !kate && x.first >= j1 && x.first < j1 + n_days) all.push_back( Event{ (int)( x.first - j1) + 1, full[x.second] });
            /* what ought to be where */
      std::vector<std::string> want, got;
      bool used[35] = { false };
      std::map<int, int> in_cell;
      for( int day = 1; day <= n_days; day++)
         {
         const int cell = first + day - 1, col = cell % 7;
         int row = cell / 7;
         bool shared = false;
         std::string label = pbt::strf( "%d", day);
         if( row == 5)
            {
            if( wrap) row = 0;
            else { row = 4; shared = true; label.clear( ); }
            }
         else if( row == 4 && day + 7 <= n_days && !wrap)
            { label = pbt::strf( "%d/%d", day, day + 7); shared = true; }
         used[row * 7 + col] = true;
         if( !label.empty( )) want.push_back( pbt::strf( "%d %d Times-Roman 14 ", col, row) + label);
         for( const Event &e : all)
            if( e.day == day)
               {
               std::string t = e.text, f = "Times-Roman 9";
               if( t[0] == '*') f = "Times-Italic 14";
               if( t[0] == '^') f = "Times-Bold 9";
               if( t[0] == '*' || t[0] == '^') t.erase( 0, 1);
               const bool empty = t.empty( );
               if( !t.compare( 0, 2, "+ ")) t.replace( 0, 2, "<blood>");
               else if( !t.compare( 0, 2, "\\p")) t.replace( 0, 2, "<p>");
               if( shared && !empty) t = pbt::strf( "(%d) ", day) + t;
               if( !t.empty( )) want.push_back( pbt::strf( "%d %d ", col, row) + f + " " + t);
               if( ++in_cell[row * 7 + col] > 8) { d.nontrivial( false); return; }     /* doesn't fit */
               }
         }
      static const char *dow[7] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
      for( int i = 0; i < 7; i++) want.push_back( pbt::strf( "%d -1 Times-Roman 14 %s", i, dow[i]));
      std::string title = pbt::strf( "%s %d", month_names[mon - 1], y);
      if( jd_style == 1) title += pbt::strf( " (JD %ld.5)", j1 - 2);
      if( jd_style == 2) title += pbt::strf( " (MJD %ld)", j1 - 2 - 2400000);
      std::vector<std::vector<std::string> > smalls;
      std::vector<int> cells;
      int off = -2;
      for( int i = 0; i < 35; i++)
         if( !used[i])
            {
            smalls.push_back( small_month( mon + off, y, phase_on, jd_style));
            cells.push_back( i);
            if( ++off == 0) off++;
            }
            /* what is there */
      std::set<std::vector<int> > spots;
      size_t b = 0, line = 0;
      int last_y = 0, titles = 0;
      for( const Item &it : items)
         {
         if( it.page != p) continue;
         REQUIRE( spots.insert( { it.x, it.y }).second, "'%s' is on top of something else", it.text.c_str( ));
         if( it.font == "Times-Roman 24")
            {
            titles++;
            REQUIRE( it.text == title, "title '%s', expected '%s'", it.text.c_str( ), title.c_str( ));
            REQUIRE( it.y > 20 + 5 * 104 + 20, "title within the calendar");
            continue;
            }
         const int col = (it.x - 20) / xsize, row = 4 - (int)floor( (it.y - 20) / 104.);
         if( !it.font.compare( 0, 8, "Courier-"))
            {
            if( b < smalls.size( ) && line == smalls[b].size( )) { b++; line = 0; }
            REQUIRE( b < smalls.size( ), "extra text '%s' in the small months", it.text.c_str( ));
            REQUIRE( it.text == smalls[b][line], "small month (%s): '%s', expected '%s'", smalls[b][0].c_str( ), it.text.c_str( ), smalls[b][line].c_str( ));
            REQUIRE( row * 7 + col == cells[b], "small month '%s' is at column %d, row %d", smalls[b][0].c_str( ), col, row);
            REQUIRE( !line || it.y < last_y, "small month's lines aren't in order");
            last_y = it.y;
            line++;
            continue;
            }
         got.push_back( pbt::strf( "%d %d ", col, row) + it.font + " " + it.text);
         }
      REQUIRE( titles == 1, "%d titles", titles);
      REQUIRE( smalls.empty( ) || (b == smalls.size( ) - 1 && line == smalls[b].size( )), "only %d of %d small months", (int)b, (int)smalls.size( ));
      std::sort( want.begin( ), want.end( ));
      std::sort( got.begin( ), got.end( ));
      for( size_t i = 0; i < want.size( ) || i < got.size( ); i++)
         {
         const std::string a = i < got.size( ) ? got[i] : "(nothing)", e = i < want.size( ) ? want[i] : "(nothing)";
         REQUIRE( a == e, "%s %d: found '%s', expected '%s'", month_names[mon - 1], y, a.c_str( ), e.c_str( ));
         }
      }
}
