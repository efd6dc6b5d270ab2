/* pbt.h: small property-based testing engine.

A check is a function  void f( Draw &d)  which draws its input from 'd',  runs
the code under test,  and throws (via REQUIRE) when its oracle disagrees.

Every random decision goes through Draw::raw( ),  so a case *is* its sequence
of choices.  That sequence is what gets shrunk (chunks removed,  values
lowered) and what the replay file stores.

Cases run in forked workers,  so a crash,  an abort( ) or a hang in the code
under test is attributed to the case that caused it.  A failure is re-run in
fresh processes (three times) before it is reported;  if it only shows up
after earlier cases (state kept between calls),  the shortest run of
preceding cases which reproduces it becomes the replay. */

#ifndef PBT_H
#define PBT_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

namespace pbt {

struct Failure { std::string msg; };

inline std::string vstrf( const char *fmt, va_list ap)
{
   char buff[6000];
   vsnprintf( buff, sizeof( buff), fmt, ap);
   return( buff);
}

inline std::string strf( const char *fmt, ...) __attribute__((format(printf,1,2)));
inline std::string strf( const char *fmt, ...)
{
   va_list ap;
   va_start( ap, fmt);
   std::string s = vstrf( fmt, ap);
   va_end( ap);
   return( s);
}

[[noreturn]] inline void fail_fmt( const char *fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] inline void fail_fmt( const char *fmt, ...)
{
   va_list ap;
   va_start( ap, fmt);
   Failure f;
   f.msg = vstrf( fmt, ap);
   va_end( ap);
   throw f;
}

#define REQUIRE( cond, ...) do { if( !(cond)) pbt::fail_fmt( __VA_ARGS__); } while( 0)

inline uint64_t splitmix( uint64_t &s)
{
   uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
   return( z ^ (z >> 31));
}

inline uint64_t hash_str( const char *s, uint64_t h = 1469598103934665603ULL)
{
   while( *s)
      h = (h ^ (unsigned char)*s++) * 1099511628211ULL;
   return( h);
}

inline std::string quoted( const std::string &s)
{
   std::string r = "\"";
   for( unsigned char c : s)
      if( c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if( c < ' ' || c >= 127) r += strf( "\\x%02x", c);
      else r += (char)c;
   return( r + "\"");
}

            /* when set,  choices and notes are mirrored here as they are made,
               so that they survive a crash of the process */
struct Mirror { char desc[8192]; size_t n; uint64_t rec[1 << 16]; };
inline Mirror *&mirror( ) { static Mirror *m = nullptr; return( m); }

class Draw
{
public:
   std::vector<uint64_t> rec;
   std::string desc;
   bool is_nontrivial = true;
   std::vector<std::string> classes;

   explicit Draw( uint64_t seed) : state( seed), forced( nullptr) { reset_mirror( ); }
   explicit Draw( const std::vector<uint64_t> *f) : state( 0), forced( f) { reset_mirror( ); }
   void reset_mirror( ) { if( mirror( )) { mirror( )->n = 0; mirror( )->desc[0] = '\0'; } }

            /* uniform in [0, bound] */
   uint64_t raw( uint64_t bound)
      {
      uint64_t v;
      if( forced)
         {
         v = (pos < forced->size( ) ? (*forced)[pos] : 0);
         if( v > bound) v = bound;
         }
      else if( bound == UINT64_MAX)
         v = splitmix( state);
      else
         {
         const unsigned __int128 m = (unsigned __int128)splitmix( state) * ((unsigned __int128)bound + 1);
         v = (uint64_t)( m >> 64);
         }
      pos++;
      rec.push_back( v);
      if( Mirror *m = mirror( ))
         if( m->n < (1 << 16))
            m->rec[m->n++] = v;
      return( v);
      }
            /* integer in [lo, hi];  shrinks to the value closest to zero */
   long ival( long lo, long hi)
      {
      const long origin = (lo > 0 ? lo : (hi < 0 ? hi : 0));
      const uint64_t below = (uint64_t)origin - (uint64_t)lo, above = (uint64_t)hi - (uint64_t)origin;
      uint64_t v = raw( below + above);
               /* 0..2*min zigzag,  rest on the longer side */
      const uint64_t m = (below < above ? below : above);
      if( v <= 2 * m)
         return( (v & 1) ? origin - (long)( (v + 1) / 2) : origin + (long)( v / 2));
      return( below < above ? origin + (long)( v - m) : origin - (long)( v - m));
      }
   bool flip( ) { return( raw( 1) != 0); }
            /* true once in n;  shrinks to false */
   bool rare( unsigned n) { return( raw( n - 1) == n - 1); }
   double unit( )          /* [0, 1) */
      { return( (double)raw( (1ULL << 53) - 1) / 9007199254740992.); }
   double real( double lo, double hi)
      { return( lo + unit( ) * (hi - lo)); }
            /* reals with "interesting" values mixed in:  endpoints,  whole
               numbers,  zero and values very close to all of these */
   double special( double lo, double hi)
      {
      double v;
      switch( raw( 7))
         {
         case 0: v = std::floor( real( lo, hi) + .5); break;
         case 1: v = lo; break;
         case 2: v = hi; break;
         case 3: v = 0.; break;
         case 4: v = std::floor( real( lo, hi) + .5) + (flip( ) ? 1. : -1.) * std::pow( 10., -(double)raw( 15)); break;
         case 5: v = std::floor( real( lo, hi) * 4. + .5) / 4.; break;
         default: v = real( lo, hi); break;
         }
      if( v < lo) v = lo;
      if( v > hi) v = hi;
      return( v);
      }
            /* log-uniform in [lo, hi],  both > 0 */
   double logreal( double lo, double hi)
      { return( lo * std::exp( unit( ) * std::log( hi / lo))); }
   template<class T> const T &pick( const std::vector<T> &v)
      { return( v[raw( v.size( ) - 1)]); }
   char chr( const char *set)
      { return( set[raw( strlen( set) - 1)]); }
   std::string str( const char *set, size_t minlen, size_t maxlen)
      {
      size_t n = minlen + (size_t)raw( maxlen - minlen);
      std::string s;
      while( n--) s += chr( set);
      return( s);
      }
   std::string bytes( size_t minlen, size_t maxlen)     /* any non-NUL bytes */
      {
      size_t n = minlen + (size_t)raw( maxlen - minlen);
      std::string s;
      while( n--)
         switch( raw( 3))
            {
            case 0: s += chr( "0123456789 "); break;
            case 1: s += (char)( ' ' + raw( 94)); break;
            case 2: s += chr( "0123456789.:-+/,|\"'<>ABCDEFKJabcz "); break;
            default: s += (char)( 1 + raw( 254)); break;
            }
      return( s);
      }
   void note( const char *fmt, ...) __attribute__((format(printf,2,3)))
      {
      va_list ap;
      va_start( ap, fmt);
      desc += vstrf( fmt, ap);
      va_end( ap);
      if( Mirror *m = mirror( ))
         snprintf( m->desc, sizeof( m->desc), "%s", desc.c_str( ));
      }
   void nontrivial( bool b) { is_nontrivial = b; }
   void cls( const char *c) { classes.push_back( c); }
   void cls( const std::string &c) { classes.push_back( c); }
private:
   uint64_t state;
   const std::vector<uint64_t> *forced;
   size_t pos = 0;
};

struct Check
{
   const char *name;
   long quick_n;              /* cases for the quick tier */
   double thorough_mult;      /* thorough = quick_n * this */
   std::function<void( Draw &)> fn;
};

inline std::vector<Check> &registry( )
{
   static std::vector<Check> r;
   return( r);
}

struct Reg
{
   Reg( const char *name, long quick_n, double mult, void (*fn)( Draw &))
      { registry( ).push_back( Check{ name, quick_n, mult, fn}); }
};

#define PROP( name, quick_n, mult)  \
   static void name( pbt::Draw &d);   \
   static pbt::Reg reg_##name( #name, quick_n, mult, name);  \
   static void name( pbt::Draw &d)

extern const char *property_id, *property_rule;
extern std::vector<std::string> property_assumptions;
            /* optional per-process set-up (loading of data files...) */
inline std::function<void( )> &worker_setup( )
{
   static std::function<void( )> f;
   return( f);
}

#define N_WORKERS 8

struct Shared
{
   volatile long check_idx, case_idx;
   volatile long evaluations;
   volatile long nontrivial;
   volatile int done, failed;
   volatile double started;
   char msg[8192];
};

inline double now( )
{
   struct timespec t;
   clock_gettime( CLOCK_MONOTONIC, &t);
   return( (double)t.tv_sec + (double)t.tv_nsec * 1e-9);
}

struct Options
{
   bool thorough = false;
   uint64_t seed = 1;
   double cap = 300.;            /* seconds:  stop generating beyond this */
   double hang = 60.;            /* seconds allowed to one case */
   double scale = 1.;
   std::string evidence, replay_dir, replay, only, known;
   bool verbose = false;
};

inline uint64_t case_seed( const Options &o, const char *check, long idx)
{
   uint64_t s = hash_str( property_id) ^ (hash_str( check) * 31) ^ (o.seed * 0x9e3779b97f4a7c15ULL)
                ^ ((uint64_t)idx * 0xd1342543de82ef95ULL);
   splitmix( s);
   return( s);
}

            /* Runs one case.  Returns true if it passed. */
inline bool run_case( const Check &c, Draw &d, std::string &msg)
{
   try
      {
      c.fn( d);
      return( true);
      }
   catch( const Failure &f)
      {
      msg = f.msg;
      }
   return( false);
}

inline std::string json_escape( const std::string &s)
{
   std::string r;
   for( unsigned char c : s)
      if( c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if( c < ' ' || c >= 127) r += strf( "\\u%04x", c);
      else r += (char)c;
   return( r);
}

            /* A "job" for an isolated child : run a list of generated cases
               (history),  then perhaps a case from explicit choices.  Result
               0=pass 1=fail 2=crash 3=hang */
struct Outcome { int code; std::string msg; std::vector<uint64_t> rec; std::string desc; };

struct Job
{
   std::vector<std::pair<int, long> > history;     /* check idx, case idx */
   int check = -1;
   const std::vector<uint64_t> *choices = nullptr;
};

inline Outcome isolated( const Options &o, const Job &job)
{
   struct Area { volatile int code; char msg[8192]; Mirror m; };
   Area *a = (Area *)mmap( NULL, sizeof( Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   a->code = -1;
   fflush( stdout);
   fflush( stderr);
   const pid_t pid = fork( );
   if( !pid)
      {
      const int fd = open( "/dev/null", O_WRONLY);
      dup2( fd, 1);
      if( !getenv( "PBT_LOUD")) dup2( fd, 2);
      if( worker_setup( ))
         worker_setup( )( );
      std::string msg;
      bool ok = true;
      mirror( ) = &a->m;
      for( auto &h : job.history)
         {
         const Check &c = registry( )[h.first];
         Draw d( case_seed( o, c.name, h.second));
         ok = run_case( c, d, msg);
         if( !ok) break;
         }
      if( ok && job.choices)
         {
         Draw d( job.choices);
         ok = run_case( registry( )[job.check], d, msg);
         }
      snprintf( a->msg, sizeof( a->msg), "%s", msg.c_str( ));
      a->code = ok ? 0 : 1;
      _exit( 0);
      }
   Outcome r;
   int status = 0;
   const double t0 = now( );
   const double limit = o.hang + (job.history.size( ) > 100 ? 200. : 0.);
   bool hung = false;
   while( true)
      {
      const pid_t w = waitpid( pid, &status, WNOHANG);
      if( w == pid)
         break;
      if( now( ) - t0 > limit)
         {
         kill( pid, SIGKILL);
         waitpid( pid, &status, 0);
         hung = true;
         break;
         }
      usleep( 200);
      }
   if( hung)
      { r.code = 3; r.msg = "no answer (hang)"; }
   else if( a->code == 0)
      r.code = 0;
   else if( a->code == 1)
      {
      r.code = 1;
      r.msg = a->msg;
      }
   else
      {
      r.code = 2;
      r.msg = WIFSIGNALED( status) ? strf( "crashed with signal %d", WTERMSIG( status))
                                   : strf( "ended the process, status %d", WEXITSTATUS( status));
      }
   r.desc = a->m.desc;
   r.rec.assign( a->m.rec, a->m.rec + a->m.n);
   munmap( a, sizeof( Area));
   return( r);
}

inline std::string finding_key( const std::string &msg)
{
   if( msg.size( ) > 2 && msg[0] == '[')
      {
      const size_t e = msg.find( ']');
      if( e != std::string::npos)
         return( msg.substr( 1, e - 1));
      }
   return( "");
}

inline std::vector<uint64_t> shrink( const Options &o, int check, std::vector<uint64_t> best, Outcome &res)
{
   const double t0 = now( );
   const double limit = 25.;
   int attempts = 0;
   bool improved = true;
   auto attempt = [&]( const std::vector<uint64_t> &cand) -> bool
      {
      if( now( ) - t0 > limit || attempts > 1500)
         return( false);
      attempts++;
      Job j;
      j.check = check;
      j.choices = &cand;
      Options o2 = o;
      o2.hang = (res.code == 3 ? o.hang : 10.);
      Outcome r = isolated( o2, j);
      const bool same_kind = (r.code == res.code &&
               finding_key( r.msg) == finding_key( res.msg));
      if( same_kind)
         {
         res = r;
         best = cand;
         if( r.rec.size( ) < best.size( ))
            best = r.rec;
         return( true);
         }
      return( false);
      };
   if( res.code == 3)
      return( best);
   while( improved && now( ) - t0 < limit)
      {
      improved = false;
      for( size_t chunk = best.size( ) / 2; chunk; chunk /= 2)
         for( size_t i = 0; i + chunk <= best.size( ); )
            {
            std::vector<uint64_t> cand( best);
            cand.erase( cand.begin( ) + (long)i, cand.begin( ) + (long)( i + chunk));
            if( attempt( cand))
               improved = true;
            else
               i += chunk;
            if( now( ) - t0 > limit) break;
            }
      for( size_t i = 0; i < best.size( ); i++)
         if( best[i])
            {
            std::vector<uint64_t> cand( best);
            cand[i] = 0;
            if( attempt( cand))
               { improved = true; continue; }
            uint64_t lo = 0, hi = best[i];         /* lo passes,  hi fails */
            int guard = 64;
            while( lo + 1 < hi && guard-- && i < best.size( ) && now( ) - t0 < limit)
               {
               const uint64_t mid = lo + (hi - lo) / 2;
               cand = best;
               cand[i] = mid;
               if( attempt( cand))
                  { hi = mid; improved = true; }
               else
                  lo = mid;
               }
            }
      }
   return( best);
}

inline std::string read_file( const std::string &path)
{
   std::string r;
   FILE *f = fopen( path.c_str( ), "rb");
   char buff[4096];
   size_t n;
   if( f)
      {
      while( (n = fread( buff, 1, sizeof( buff), f)) > 0)
         r.append( buff, n);
      fclose( f);
      }
   return( r);
}

inline int do_replay( const Options &o)
{
   FILE *f = fopen( o.replay.c_str( ), "r");
   if( !f)
      { fprintf( stderr, "can't open %s\n", o.replay.c_str( )); return( 2); }
   std::string check;
   Options o2 = o;
   Job j;
   std::vector<uint64_t> choices;
   bool have_choices = false;
   char line[1 << 16];
   while( fgets( line, sizeof( line), f))
      {
      char nm[200];
      long a, b, step;
      unsigned long long u;
      if( sscanf( line, "check %199s", nm) == 1)
         check = nm;
      else if( sscanf( line, "seed %llu", &u) == 1)
         o2.seed = u;
      else if( sscanf( line, "history %199s %ld %ld %ld", nm, &a, &b, &step) == 4)
         {
         for( size_t i = 0; i < registry( ).size( ); i++)
            if( registry( )[i].name == std::string( nm))
               for( long k = a; k <= b; k += step)
                  j.history.push_back( std::make_pair( (int)i, k));
         }
      else if( !memcmp( line, "choices", 7))
         {
         char *p = line + 7, *e;
         have_choices = true;
         while( true)
            {
            const uint64_t v = strtoull( p, &e, 10);
            if( e == p) break;
            choices.push_back( v);
            p = e;
            }
         }
      }
   fclose( f);
   for( size_t i = 0; i < registry( ).size( ); i++)
      if( registry( )[i].name == check)
         j.check = (int)i;
   if( j.check < 0)
      { fprintf( stderr, "no such check '%s'\n", check.c_str( )); return( 2); }
   if( have_choices)
      j.choices = &choices;
   Outcome r = isolated( o2, j);
   printf( "%s: %s\n%s\n", check.c_str( ), r.code ? "FAILS" : "passes", (r.desc + "\n" + r.msg).c_str( ));
   if( r.code)
      printf( "VIOLATION property=%s replay=%s\n", property_id, o.replay.c_str( ));
   return( r.code ? 1 : 0);
}

            /* known findings:  lines  "finding: property=<id> key=<key> <text>".
               A failure message that starts with "[key] " for a listed key is
               counted there instead of being reported as a violation. */
inline std::map<std::string, std::string> load_known( const std::string &path)
{
   std::map<std::string, std::string> r;
   const std::string txt = read_file( path);
   size_t i = 0;
   while( i < txt.size( ))
      {
      size_t e = txt.find( '\n', i);
      if( e == std::string::npos) e = txt.size( );
      const std::string line = txt.substr( i, e - i);
      char id[50], key[100];
      int n = 0;
      if( sscanf( line.c_str( ), "finding: property=%49s key=%99s %n", id, key, &n) == 2 && !strcmp( id, property_id))
         r[key] = line.substr( (size_t)n);
      i = e + 1;
      }
   return( r);
}

inline int pbt_main( int argc, char **argv)
{
   Options o;
   if( getenv( "VERIF_SEED"))
      o.seed = strtoull( getenv( "VERIF_SEED"), NULL, 10);
   for( int i = 1; i < argc; i++)
      {
      const std::string a = argv[i];
      auto val = [&]( ) -> const char * { return( i + 1 < argc ? argv[++i] : ""); };
      if( a == "--tier") o.thorough = !strcmp( val( ), "thorough");
      else if( a == "--seed") o.seed = strtoull( val( ), NULL, 10);
      else if( a == "--cap") o.cap = atof( val( ));
      else if( a == "--scale") o.scale = atof( val( ));
      else if( a == "--evidence") o.evidence = val( );
      else if( a == "--replay-dir") o.replay_dir = val( );
      else if( a == "--replay") o.replay = val( );
      else if( a == "--only") o.only = val( );
      else if( a == "--known") o.known = val( );
      else if( a == "-v") o.verbose = true;
      else { fprintf( stderr, "unknown option %s\n", a.c_str( )); return( 2); }
      }
   if( !o.replay.empty( ))
      return( do_replay( o));

   const double t0 = now( );
   const std::map<std::string, std::string> known = load_known( o.known);
   const int nc = (int)registry( ).size( );
   Shared *sh = (Shared *)mmap( NULL, sizeof( Shared) * N_WORKERS, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   memset( sh, 0, sizeof( Shared) * N_WORKERS);
   char tmpl[] = "/tmp/pbt_XXXXXX";
   const char *tdir = mkdtemp( tmpl);
   if( !tdir) { perror( "mkdtemp"); return( 2); }
   pid_t pids[N_WORKERS];
   std::vector<long> n_cases( nc);
   for( int c = 0; c < nc; c++)
      {
      const Check &ck = registry( )[c];
      n_cases[c] = (long)( (double)ck.quick_n * (o.thorough ? ck.thorough_mult : 1.) * o.scale + .999);
      if( !o.only.empty( ) && o.only != ck.name)
         n_cases[c] = 0;
      }
   fflush( stdout);
   for( int w = 0; w < N_WORKERS; w++)
      {
      pids[w] = fork( );
      if( !pids[w])
         {
         Shared &s = sh[w];
         const int fd = open( "/dev/null", O_WRONLY);
         if( !o.verbose)
            {
            dup2( fd, 1);
            if( !getenv( "PBT_LOUD")) dup2( fd, 2);
            }
         if( worker_setup( ))
            worker_setup( )( );
         std::unordered_set<uint64_t> seen;
         std::map<std::string, long> classes;
         std::vector<std::string> samples;
         std::map<std::string, std::pair<long, std::string> > knowns;
         std::vector<long> per_check( nc), nontriv_check( nc);
         for( int c = 0; c < nc && !s.failed; c++)
            {
            const Check &ck = registry( )[c];
            int n_samples = 0;
            const double budget = o.cap * (double)( c + 1) / (double)nc;
            for( long i = w; i < n_cases[c]; i += N_WORKERS)
               {
               s.check_idx = c;
               s.case_idx = i;
               s.started = now( );
               if( s.started - t0 > budget)
                  break;
               Draw d( case_seed( o, ck.name, i));
               std::string msg;
               const bool ok = run_case( ck, d, msg);
               s.evaluations = s.evaluations + 1;
               per_check[c]++;
               if( d.is_nontrivial)
                  {
                  uint64_t h = hash_str( ck.name);
                  for( uint64_t v : d.rec)
                     h = (h ^ v) * 1099511628211ULL + (h >> 29);
                  if( seen.size( ) < 4000000)
                     seen.insert( h);
                  nontriv_check[c]++;
                  if( n_samples < 2 && !d.desc.empty( ) && (w == 0 || w == 3))
                     {
                     samples.push_back( std::string( ck.name) + ": " + d.desc.substr( 0, 500));
                     n_samples++;
                     }
                  }
               for( auto &k : d.classes)
                  classes[std::string( ck.name) + "/" + k]++;
               if( !ok)
                  {
                  const std::string key = finding_key( msg);
                  if( !key.empty( ) && known.count( key))
                     {
                     auto &k = knowns[key];
                     k.first++;
                     if( k.second.empty( ))
                        k.second = d.desc + " -> " + msg;
                     }
                  else
                     {
                     snprintf( s.msg, sizeof( s.msg), "%s\n%s", d.desc.c_str( ), msg.c_str( ));
                     s.failed = 1;
                     break;
                     }
                  }
               }
            }
         s.started = now( ) + 1e9;
         FILE *f = fopen( strf( "%s/%d", tdir, w).c_str( ), "wb");
         if( f)
            {
            for( auto &k : classes)
               fprintf( f, "C %ld %s\n", k.second, k.first.c_str( ));
            for( auto &k : samples)
               fprintf( f, "S %s\n", json_escape( k).c_str( ));
            for( auto &k : knowns)
               fprintf( f, "K %ld %s %s\n", k.second.first, k.first.c_str( ), json_escape( k.second.second).c_str( ));
            for( int c = 0; c < nc; c++)
               fprintf( f, "P %d %ld %ld\n", c, per_check[c], nontriv_check[c]);
            fclose( f);
            }
         f = fopen( strf( "%s/h%d", tdir, w).c_str( ), "wb");
         if( f)
            {
            for( uint64_t h : seen)
               fwrite( &h, sizeof( h), 1, f);
            fclose( f);
            }
         s.done = 1;
         _exit( 0);
         }
      }
   int alive = N_WORKERS;
   bool gone[N_WORKERS] = { false };
   int crash[N_WORKERS] = { 0 };         /* 1 = crashed, 2 = hung */
   int stat[N_WORKERS] = { 0 };
   while( alive)
      {
      for( int w = 0; w < N_WORKERS; w++)
         if( !gone[w])
            {
            int status;
            if( waitpid( pids[w], &status, WNOHANG) == pids[w])
               {
               gone[w] = true;
               alive--;
               stat[w] = status;
               if( !sh[w].done)
                  crash[w] = 1;
               }
            else if( sh[w].started > 0. && now( ) - sh[w].started > o.hang)
               {
               kill( pids[w], SIGKILL);
               waitpid( pids[w], &status, 0);
               gone[w] = true;
               alive--;
               crash[w] = 2;
               }
            }
      usleep( 2000);
      }
                 /* gather statistics */
   long evals = 0;
   std::map<std::string, long> classes;
   std::vector<std::string> samples;
   std::map<std::string, std::pair<long, std::string> > knowns;
   std::vector<long> per_check( nc), nontriv_check( nc);
   std::unordered_set<uint64_t> seen;
   for( int w = 0; w < N_WORKERS; w++)
      {
      evals += sh[w].evaluations;
      FILE *f = fopen( strf( "%s/%d", tdir, w).c_str( ), "rb");
      if( f)
         {
         char *line = NULL;
         size_t cap = 0;
         while( getline( &line, &cap, f) > 0)
            {
            std::string s = line;
            while( !s.empty( ) && s.back( ) == '\n') s.pop_back( );
            if( s[0] == 'C')
               {
               char *e;
               const long n = strtol( s.c_str( ) + 2, &e, 10);
               classes[e + 1] += n;
               }
            else if( s[0] == 'S')
               samples.push_back( s.substr( 2));
            else if( s[0] == 'K')
               {
               char *e;
               const long n = strtol( s.c_str( ) + 2, &e, 10);
               std::string rest = e + 1;
               const size_t sp = rest.find( ' ');
               auto &k = knowns[rest.substr( 0, sp)];
               k.first += n;
               if( k.second.empty( ))
                  k.second = rest.substr( sp + 1);
               }
            else if( s[0] == 'P')
               {
               int c;
               long n, m;
               if( sscanf( s.c_str( ) + 2, "%d %ld %ld", &c, &n, &m) == 3)
                  { per_check[c] += n; nontriv_check[c] += m; }
               }
            }
         free( line);
         fclose( f);
         }
      f = fopen( strf( "%s/h%d", tdir, w).c_str( ), "rb");
      if( f)
         {
         uint64_t h[1024];
         size_t n;
         while( (n = fread( h, sizeof( uint64_t), 1024, f)) > 0)
            seen.insert( h, h + n);
         fclose( f);
         }
      unlink( strf( "%s/%d", tdir, w).c_str( ));
      unlink( strf( "%s/h%d", tdir, w).c_str( ));
      }
   rmdir( tdir);

                 /* examine failures:  confirm,  shrink,  write replays */
   int violations = 0, unconfirmed = 0;
   std::set<long> reported;
   for( int w = 0; w < N_WORKERS; w++)
      if( crash[w] || sh[w].failed)
         {
         const int ci = (int)sh[w].check_idx;
         const long idx = sh[w].case_idx;
         if( reported.count( ci))
            continue;
         if( violations >= 3)
            continue;
         const Check &ck = registry( )[ci];
         if( o.verbose || crash[w])
            fprintf( stderr, "worker %d: check %s case %ld %s (status %d)\n", w, ck.name, idx,
                     crash[w] == 1 ? "crashed" : (crash[w] == 2 ? "hung" : "failed"), stat[w]);
         Job j;
         j.history.push_back( std::make_pair( ci, idx));
         Outcome r = isolated( o, j);
         std::string body;
         if( r.code)
            {
            std::vector<uint64_t> rec = r.rec;
            int again = 0;
            if( r.code == 1 || r.code == 2)
               {
               Outcome r2 = r;
               rec = shrink( o, ci, rec, r2);
               Job j2;
               j2.check = ci;
               j2.choices = &rec;
               for( int k = 0; k < 3; k++)
                  {
                  Outcome r3 = isolated( o, j2);
                  if( r3.code) { again++; r = r3; }
                  }
               if( again < 3)
                  {
                  Outcome r4 = isolated( o, j);
                  again = r4.code ? again : 0;
                  }
               body = strf( "property %s\ncheck %s\nseed %llu\nchoices", property_id, ck.name, (unsigned long long)o.seed);
               for( uint64_t v : rec)
                  body += strf( " %llu", (unsigned long long)v);
               body += "\n";
               }
            else
               {
               for( int k = 0; k < (r.code == 3 ? 1 : 3); k++)
                  if( isolated( o, j).code)
                     again += (r.code == 3 ? 3 : 1);
               body = strf( "property %s\ncheck %s\nseed %llu\nhistory %s %ld %ld 1\n", property_id, ck.name,
                           (unsigned long long)o.seed, ck.name, idx, idx);
               }
            if( again < 3)
               { unconfirmed++; continue; }
            }
         else
            {              /* needs earlier cases:  look for shortest suffix */
            std::vector<std::pair<int, long> > full;
            for( int c = 0; c <= ci; c++)
               for( long i = w; i < n_cases[c]; i += N_WORKERS)
                  {
                  full.push_back( std::make_pair( c, i));
                  if( c == ci && i == idx)
                     break;
                  }
            size_t len = 2;
            bool found = false;
            while( true)
               {
               if( len > full.size( ))
                  len = full.size( );
               Job jh;
               jh.history.assign( full.end( ) - (long)len, full.end( ));
               Outcome rh = isolated( o, jh);
               if( rh.code)
                  {
                  int again = 0;
                  for( int k = 0; k < 2; k++)
                     again += (isolated( o, jh).code != 0);
                  if( again == 2)
                     {
                     found = true;
                     r = rh;
                     body = strf( "property %s\ncheck %s\nseed %llu\n", property_id, ck.name, (unsigned long long)o.seed);
                     size_t k = 0;
                     while( k < jh.history.size( ))
                        {
                        size_t k2 = k;
                        while( k2 + 1 < jh.history.size( ) && jh.history[k2 + 1].first == jh.history[k].first)
                           k2++;
                        body += strf( "history %s %ld %ld %d\n", registry( )[jh.history[k].first].name,
                                 jh.history[k].second, jh.history[k2].second, N_WORKERS);
                        k = k2 + 1;
                        }
                     }
                  break;
                  }
               if( len == full.size( ))
                  break;
               len *= 4;
               }
            if( !found)
               { unconfirmed++; continue; }
            }
         reported.insert( ci);
         violations++;
         mkdir( o.replay_dir.c_str( ), 0777);
         const std::string path = o.replay_dir + "/" + property_id + "-" + ck.name + ".replay";
         FILE *f = fopen( path.c_str( ), "wb");
         for( std::string *t : { &r.desc, &r.msg })      /* keep the report plain text,  whatever the code printed */
            for( char &c : *t)
               if( c != '\n' && c != '\t' && (c < ' ' || c > '~'))
                  c = '?';
         std::string human = r.desc + "\n" + r.msg;
         for( size_t k = 0; k < human.size( ); k++)
            if( human[k] == '\n') { human.insert( k + 1, "# "); k += 2; }
         if( f)
            {
            fprintf( f, "# %s\n%s", human.c_str( ), body.c_str( ));
            fclose( f);
            }
         printf( "%s: %s\n   %s\n", ck.name, r.desc.c_str( ), r.msg.c_str( ));
         printf( "VIOLATION property=%s replay=%s\n", property_id, path.c_str( ));
         }
   for( auto &k : known)
      {
      const auto it = knowns.find( k.first);
      printf( "KNOWN-FINDING: property=%s %s (%ld failing cases met in this run)\n", property_id, k.second.c_str( ),
              it == knowns.end( ) ? 0L : it->second.first);
      }
   if( unconfirmed)
      fprintf( stderr, "%d failure(s) did not reproduce on re-run and are not reported\n", unconfirmed);
   if( !o.evidence.empty( ))
      {
      FILE *f = fopen( o.evidence.c_str( ), "wb");
      if( !f) { perror( o.evidence.c_str( )); return( 2); }
      fprintf( f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n",
               property_id, o.thorough ? "thorough" : "quick", (unsigned long long)o.seed);
      fprintf( f, " \"coverage\": {\n  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"rule\": \"%s\",\n",
               evals, (long)seen.size( ), json_escape( property_rule).c_str( ));
      fprintf( f, "  \"samples\": [");
      for( size_t i = 0; i < samples.size( ); i++)
         fprintf( f, "%s\n   \"%s\"", i ? "," : "", samples[i].c_str( ));
      fprintf( f, "\n  ],\n  \"per_check\": {");
      for( int c = 0; c < nc; c++)
         fprintf( f, "%s\n   \"%s\": {\"evaluations\": %ld, \"nontrivial\": %ld}", c ? "," : "",
                  registry( )[c].name, per_check[c], nontriv_check[c]);
      fprintf( f, "\n  },\n  \"classes\": {");
      bool first = true;
      for( auto &k : classes)
         {
         fprintf( f, "%s\n   \"%s\": %ld", first ? "" : ",", json_escape( k.first).c_str( ), k.second);
         first = false;
         }
      fprintf( f, "\n  },\n  \"unreproduced_failures\": %d\n },\n", unconfirmed);
      fprintf( f, " \"assumptions\": [");
      for( size_t i = 0; i < property_assumptions.size( ); i++)
         fprintf( f, "%s\n  \"%s\"", i ? "," : "", json_escape( property_assumptions[i]).c_str( ));
      fprintf( f, "\n ],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", now( ) - t0, violations);
      fclose( f);
      }
   printf( "%s: %ld cases, %ld distinct non-trivial, %d violation(s), %.1f s\n", property_id, evals,
               (long)seen.size( ), violations, now( ) - t0);
   if( o.verbose)
      for( int c = 0; c < nc; c++)
         printf( "  %-40s %ld (%ld nontrivial)\n", registry( )[c].name, per_check[c], nontriv_check[c]);
   return( violations ? 1 : 0);
}

}  /* namespace pbt */

using pbt::Draw;
using pbt::quoted;

#define PROPERTY( id, rule, ...)  \
   const char *pbt::property_id = id;    \
   const char *pbt::property_rule = rule;  \
   std::vector<std::string> pbt::property_assumptions = { __VA_ARGS__ };  \
   int main( int argc, char **argv) { return( pbt::pbt_main( argc, argv)); }

#endif
