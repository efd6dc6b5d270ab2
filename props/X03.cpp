// flavor: asan
/* Bounded string functions */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "watdefs.h"
#include "stringex.h"
#include "pbt.h"

int snprintf_append_trunc( char *string, const size_t max_len, const char *format, ...);

PROPERTY( "X03", "histories of up to 12 copies, appends and formatted appends to a buffer of 1 to 60 bytes, with texts of 0 to 80 characters chosen to fit exactly, fall one short or overflow; buffers filled to the brim or lacking a terminator; non-trivial = some operation fills or overflows the buffer",
   "Model: the same history on an unbounded string; address sanitizer with the buffer allocated at exactly its stated size; calls that must not return are made in a child process",
   "")

struct buf { std::unique_ptr<char[]> p; size_t n; buf( size_t sz) : p( new char[sz]), n( sz) { memset( p.get( ), 'Z', sz); } operator char *( ) { return( p.get( )); } };
static std::string word( Draw &d, size_t room)
{
   const size_t len = d.flip( ) ? (size_t)std::max<long>( 0, (long)room + d.ival( -2, 2)) : d.raw( d.flip( ) ? 6 : 80);
   std::string s;
   for( size_t i = 0; i < len; i++) s += i % 7 == 3 && d.rare( 3) ? "%\t\200\1"[d.raw( 3)] : (char)( 'a' + (i * 7 + room) % 26);
   return( s);
}
template <class F> static bool returns( F f)          /* run in a child:  did it come back? */
{
   fflush( NULL);
   const pid_t pid = fork( );
   if( !pid)
      {
      const int n = open( "/dev/null", O_WRONLY);
      dup2( n, 2);
      f( );
      _exit( 0);
      }
   int st = 0;
   while( waitpid( pid, &st, 0) < 0) ;
   return( WIFEXITED( st) && WEXITSTATUS( st) == 0);
}

PROP( histories, 60000, 10)
{
   const size_t sz = 1 + d.raw( d.flip( ) ? 5 : 59);
   buf b( sz);
   std::string model;
   bool nt = false;
   b[0] = 0;
   d.note( "buffer of %d", (int)sz);
   const int n = 1 + (int)d.raw( 11);
   for( int i = 0; i < n; i++)
      {
      const int op = (int)d.raw( 7);
      const bool copies = (op < 2 || op == 7);
      const std::string w = word( d, copies ? sz - 1 : sz - 1 - model.size( ));
      std::string full = (copies ? w : model + w);
      const size_t full_len = full.size( );
      const bool over = full_len >= sz;
      static const char *names[] = { "strlcpy", "strlcpy_err", "strlcat", "strlcat_err", "append_trunc", "append", "append number", "snprintf_err" };
      d.note( "; %s %d", names[op], (int)w.size( ));
      if( full_len + 1 >= sz) nt = true;
      if( over) full.resize( sz - 1);
      size_t rv = full_len;
      std::unique_ptr<char[]> src( new char[w.size( ) + 1]);
      memcpy( src.get( ), w.c_str( ), w.size( ) + 1);
      const char *s = src.get( );
      switch( op)
         {
         case 0: rv = strlcpy( b, s, sz); break;
         case 2: rv = strlcat( b, s, sz); break;
         case 4: rv = (size_t)snprintf_append_trunc( b, sz, "%s", s); break;
         case 6:
            {
            const long v = d.ival( -100000, 100000);
            char t[40];
            snprintf( t, sizeof( t), "%ld:%5.2f", v, v / 7.);
            full = model + t;
            rv = full.size( );
            if( full.size( ) >= sz)
               {
               nt = true;
               if( d.rare( 20)) REQUIRE( !returns( [&]( ) { snprintf_append( b, sz, "%ld:%5.2f", v, v / 7.); }), "overflow by snprintf_append( ) went unnoticed");
               full = model;
               }
            else REQUIRE( (rv = (size_t)snprintf_append( b, sz, "%ld:%5.2f", v, v / 7.)) == full.size( ), "snprintf_append returned %d, expected %d", (int)rv, (int)full.size( ));
            break;
            }
         default:
            if( over)
               {
               if( d.rare( 12))
                  REQUIRE( !returns( [&]( ) { if( op == 1) strlcpy_err( b, s, sz); else if( op == 3) strlcat_err( b, s, sz); else if( op == 5) snprintf_append( b, sz, "%s", s); else snprintf_err( b, sz, "%s", s); }),
                           "overflow by %s went unnoticed", names[op]);
               full = model;
               }
            else if( op == 1) rv = strlcpy_err( b, s, sz);
            else if( op == 3) rv = strlcat_err( b, s, sz);
            else if( op == 5) rv = (size_t)snprintf_append( b, sz, "%s", s);
            else rv = (size_t)snprintf_err( b, sz, "%s", s);
            break;
         }
      if( op != 6) REQUIRE( rv == full_len, "%s returned %d, expected %d", names[op], (int)rv, (int)full_len);
      model = full;
      REQUIRE( memchr( b, 0, sz) && model == (char *)b, "after %s the buffer holds %s, expected %s", names[op], pbt::quoted( (char *)b).c_str( ), pbt::quoted( model).c_str( ));
      }
   d.nontrivial( nt);
}

PROP( brim, 40000, 10)
{
   const size_t sz = d.raw( 20);              /* zero-sized and unterminated buffers */
   buf b( sz + 1);
   const std::string w = word( d, sz);
   b[sz] = '!';
   d.note( "unterminated buffer of %d, %d characters", (int)sz, (int)w.size( ));
   d.nontrivial( true);
   const size_t rv = strlcat( b, w.c_str( ), sz);
   REQUIRE( rv == sz + w.size( ), "strlcat to an unterminated buffer returned %d, expected %d", (int)rv, (int)( sz + w.size( )));
   for( size_t i = 0; i < sz; i++) REQUIRE( b[i] == 'Z', "strlcat changed an unterminated buffer");
   REQUIRE( b[sz] == '!', "strlcat wrote past its buffer");
   const size_t rc = strlcpy( b, w.c_str( ), sz);
   REQUIRE( rc == w.size( ), "strlcpy returned %d, expected %d", (int)rc, (int)w.size( ));
   REQUIRE( b[sz] == '!', "strlcpy wrote past its buffer");
   if( sz) REQUIRE( w.substr( 0, sz - 1) == (char *)b, "strlcpy left %s", pbt::quoted( (char *)b).c_str( ));
}
