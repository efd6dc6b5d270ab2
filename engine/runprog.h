/* Running the command-line programs of the library:  their main( ),  renamed,
is called in a forked child (so that static data is fresh) within a scratch
directory of the worker's own,  with output going to a file. */
#ifndef RUNPROG_H
#define RUNPROG_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "pbt.h"

namespace rp {
struct Result { int code; std::string out, err; };

inline std::string slurp( const char *name)
{
   std::string s;
   FILE *f = fopen( name, "rb");
   if( f)
      {
      char buff[4096];
      size_t n;
      while( (n = fread( buff, 1, sizeof( buff), f)) > 0)
         s.append( buff, n);
      fclose( f);
      }
   return( s);
}

inline void write( const char *name, const std::string &s)
{
   FILE *f = fopen( name, "wb");
   REQUIRE( f && fwrite( s.data( ), 1, s.size( ), f) == s.size( ) && !fclose( f), "harness: can't write %s", name);
}

inline bool exists( const char *name) { return( !access( name, R_OK)); }

inline std::vector<std::string> lines( const std::string &s)
{
   std::vector<std::string> v;
   for( size_t i = 0, j; i < s.size( ); i = j + 1)
      {
      j = s.find( '\n', i);
      if( j == std::string::npos)
         j = s.size( );
      v.push_back( s.substr( i, j - i));
      }
   return( v);
}

inline std::string join( const std::vector<std::string> &v)
{
   std::string s;
   for( const std::string &x : v) s += (s.empty( ) ? "" : " ") + x;
   return( s);
}

inline void own_directory( const char *stem)
{
   static pid_t pid = 0;
   static std::string top;
   if( pid == getpid( ))
      return;
   char cwd[600];
   if( top.empty( ) && getcwd( cwd, sizeof( cwd)))
      top = cwd;
   pid = getpid( );
   const std::string dir = top + pbt::strf( "/%s_%d", stem, (int)pid);
   mkdir( dir.c_str( ), 0777);
   REQUIRE( !chdir( dir.c_str( )), "harness: can't get a scratch directory");
   setenv( "HOME", dir.c_str( ), 1);
}

inline std::vector<std::string> names( )
{
   std::vector<std::string> v;
   DIR *d = opendir( ".");
   if( d)
      {
      while( struct dirent *e = readdir( d))
         if( e->d_name[0] != '.')
            v.push_back( e->d_name);
      closedir( d);
      }
   return( v);
}

inline void clean( ) { for( const std::string &n : names( )) unlink( n.c_str( )); }

inline bool any_left( const char *ext)
{
   for( const std::string &n : names( ))
      if( n.size( ) > strlen( ext) && !n.compare( n.size( ) - strlen( ext), std::string::npos, ext))
         return( true);
   return( false);
}

template <typename Main> std::vector<Result> run( Main program, const std::vector<std::string> &args, int at_once = 1)
{
   std::vector<const char *> argv;
   for( const std::string &a : args) argv.push_back( a.c_str( ));
   argv.push_back( NULL);
   std::vector<pid_t> pids;
   std::vector<Result> rval;
   fflush( NULL);
   for( int i = 0; i < at_once; i++)
      {
      const pid_t p = fork( );
      if( !p)
         {
         const int fd = open( pbt::strf( "run%d.out", i).c_str( ), O_WRONLY | O_CREAT | O_TRUNC, 0666), fe = open( pbt::strf( "run%d.err", i).c_str( ), O_WRONLY | O_CREAT | O_TRUNC, 0666);
         dup2( fd, 1);
         dup2( fe, 2);
         alarm( 20);
         const int rv = program( (int)args.size( ), (decltype( argv.data( )))argv.data( ));
         fflush( NULL);
         _exit( rv & 255);
         }
      pids.push_back( p);
      }
   for( int i = 0; i < at_once; i++)
      {
      int st = 0;
      waitpid( pids[(size_t)i], &st, 0);
      Result r;
      r.out = slurp( pbt::strf( "run%d.out", i).c_str( ));
      r.err = slurp( pbt::strf( "run%d.err", i).c_str( ));
      r.code = WIFEXITED( st) ? (int)(signed char)WEXITSTATUS( st) : -1000 - WTERMSIG( st);
      rval.push_back( r);
      }
   return( rval);
}
}
#endif
