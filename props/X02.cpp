// flavor: asan
/* CGI form data */
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include "watdefs.h"
#include "cgi_func.h"
#include "pbt.h"

PROPERTY( "X02", "forms of 0 to 8 fields with arbitrary names and values (any bytes but NUL; for multipart, lines of any kind, including near-copies of the boundary), sent as a query string, a URL-encoded body or a multipart body with optional file names and extra headers, encoded in any permissible way; damaged escapes, values too long for the buffer, arbitrary bytes; non-trivial = at least one field with an escaped or multi-line value, or a malformed form",
   "Round trip: the fields and values the form was encoded from; for malformed data, an error code, terminated strings and no memory error (address sanitizer, buffers of exactly the stated size)",
   "values hold no NUL bytes; multipart values lose trailing line ends, and must fit the buffer together with the boundary that follows")

struct item { std::string field, value, file; bool has_file; };
static std::string any( Draw &d, int maxlen, bool nasty)
{
   std::string s;
   const int n = (int)( d.rare( 6) ? 0 : d.flip( ) ? d.raw( 5) : d.raw( maxlen));
   for( int i = 0; i < n; i++)
      switch( d.raw( 3))
         {
         case 0: s += (char)( 'a' + d.raw( 25)); break;
         case 1: s += "&=%+ ?#/;:\"'<>-._~*"[d.raw( 18)]; break;
         case 2: s += (char)d.ival( 33, 126); break;
         default: s += (char)( nasty ? d.ival( 1, 255) : d.ival( 33, 126)); break;
         }
   return( s);
}
static std::string enc( Draw &d, const std::string &s, bool in_field, bool &escaped)
{
   std::string r;
   for( unsigned char c : s)
      {
      const bool must = c < 33 || c > 126 || c == '%' || c == '&' || c == '+' || (in_field && c == '=') || (c == '=' && d.flip( ));
      if( c == ' ' && d.flip( )) { r += '+'; escaped = true; }
      else if( must || d.rare( 8))
         {
         const char *dig = d.flip( ) ? "0123456789ABCDEF" : "0123456789abcdef";
         r += '%';
         r += dig[c >> 4];
         r += dig[c & 15];
         escaped = true;
         }
      else r += (char)c;
      }
   return( r);
}
struct buf { std::unique_ptr<char[]> p; size_t n; buf( size_t sz) : p( new char[sz]), n( sz) { memset( p.get( ), 'Z', sz); } operator char *( ) { return( p.get( )); } bool ended( ) { return( memchr( p.get( ), 0, n) != NULL); } };
static std::string lines( Draw &d, const std::string &boundary)
{
   std::string s;
   const int n = (int)d.raw( 6);
   for( int i = 0; i < n; i++)
      {
      switch( d.raw( 4))
         {
         case 0: break;
         case 1: s += boundary.substr( 0, d.raw( boundary.size( ) - 1)); break;
         case 2: s += " " + boundary; break;
         default: for( char c : any( d, 40, true)) if( c != '\n') s += c; break;
         }
      if( i < n - 1 || d.flip( )) s += d.flip( ) ? "\r\n" : "\n";
      }
   return( s);
}
static std::string strip( std::string s)
{
   while( !s.empty( ) && (s.back( ) == '\n' || s.back( ) == '\r')) s.pop_back( );
   return( s);
}
static std::string url( Draw &d, std::vector<item> &v, int maxval, bool &nt)
{
   std::string q;
   const int n = (int)d.raw( 8);
   for( int i = 0; i < n; i++)
      {
      item it = { any( d, 28, true), any( d, maxval, true), "", false };
      if( it.field.size( ) > 29) it.field.resize( 29);
      v.push_back( it);
      if( i) q += '&';
      q += enc( d, it.field, true, nt) + "=" + enc( d, it.value, false, nt);
      }
   return( q);
}

PROP( urlencoded, 150000, 10)
{
   std::vector<item> v;
   bool nt = false;
   const std::string q = url( d, v, 60, nt);
   std::unique_ptr<char[]> copy( new char[q.size( ) + 1]);
   strcpy( copy.get( ), q.c_str( ));
   const char *p = copy.get( );
   d.note( "%s", pbt::quoted( q).c_str( ));
   d.nontrivial( nt);
   for( size_t i = 0; i < v.size( ); i++)
      {
      const size_t fsz = v[i].field.size( ) + 1 + (d.flip( ) ? 0 : d.raw( 5)), vsz = d.rare( 8) ? 1 + d.raw( 20) : v[i].value.size( ) + 1 + (d.flip( ) ? 0 : d.raw( 5));
      buf f( fsz), b( vsz);
      const int rv = get_urlencoded_form_data( &p, f, fsz, b, vsz);
      REQUIRE( f.ended( ) && b.ended( ), "field %d: strings lack terminators", (int)i);
      REQUIRE( v[i].field == (char *)f, "field %d is named %s, expected %s", (int)i, pbt::quoted( (char *)f).c_str( ), pbt::quoted( v[i].field).c_str( ));
      if( vsz > v[i].value.size( ))
         REQUIRE( rv == 0 && v[i].value == (char *)b, "field %d: returned %d, value %s, expected %s", (int)i, rv, pbt::quoted( (char *)b).c_str( ), pbt::quoted( v[i].value).c_str( ));
      else
         {
         REQUIRE( rv != 0 && v[i].value.substr( 0, vsz - 1) == (char *)b, "field %d, too long for its buffer: returned %d, value %s", (int)i, rv, pbt::quoted( (char *)b).c_str( ));
         return;
         }
      }
   buf f( 40), b( 40);
   REQUIRE( get_urlencoded_form_data( &p, f, 40, b, 40) < 0, "end of the form isn't reported");
}

PROP( damaged, 60000, 10)
{
   std::vector<item> v;
   bool nt = false;
   std::string q = url( d, v, 30, nt);
   d.nontrivial( true);
   const bool random = d.flip( );
   int bad_at = -1;
   if( random)
      {
      if( d.flip( )) { q.clear( ); for( int i = (int)d.raw( 60); i > 0; i--) q += d.flip( ) ? "%=&+aF0"[d.raw( 6)] : (char)d.ival( 1, 255); }
      else for( int i = (int)d.raw( 4); i >= 0 && !q.empty( ); i--) q[d.raw( q.size( ) - 1)] = "%=&+aF0\n\r\200"[d.raw( 9)];
      }
   else
      {
      if( v.empty( )) return;
               /* one bad escape in the value of one field */
      bad_at = (int)d.raw( v.size( ) - 1);
      q.clear( );
      for( size_t i = 0; i < v.size( ); i++)
         {
         if( i) q += '&';
         q += enc( d, v[i].field, true, nt) + "=" + enc( d, v[i].value, false, nt);
         if( (int)i == bad_at)
            {
            std::string e = "%";
            static const char *bads[] = { "G0", "0g", "-1", "", " 1", "%41", "x", "4", "4&" };
            e += bads[d.raw( 8)];
            q += e;
            }
         }
      }
   std::unique_ptr<char[]> copy( new char[q.size( ) + 1]);
   strcpy( copy.get( ), q.c_str( ));
   const char *p = copy.get( ), *start = p;
   d.note( "%s", pbt::quoted( q).c_str( ));
   int n_read = 0;
   for( ; n_read < 200; n_read++)
      {
      buf f( 30), b( 64);
      const char *before = p;
      const int rv = get_urlencoded_form_data( &p, f, 30, b, 64);
      REQUIRE( f.ended( ), "string %d lacks a terminator", n_read);
      REQUIRE( p >= start && p <= start + strlen( start), "pointer left the form");
      if( rv) break;
      REQUIRE( b.ended( ), "value %d lacks a terminator", n_read);
      REQUIRE( p > before, "no progress was made at field %d", n_read);
      if( !random && n_read < bad_at) REQUIRE( v[n_read].field == (char *)f && v[n_read].value == (char *)b, "field %d, before the damage, is wrong", n_read);
      }
   REQUIRE( n_read < 200, "reading never ended");
   REQUIRE( random || n_read == bad_at, "damaged escape in value %d wasn't reported (reading ended at %d)", bad_at, n_read);
}

static void with_env( const char *name, const std::string *val)
{
   if( val) setenv( name, val->c_str( ), 1);
   else unsetenv( name);
}

PROP( whole_form, 30000, 10)
{
   std::vector<item> v;
   bool nt = false;
   const int method = (int)d.raw( 2);
   std::string body, type;
   if( method < 2)
      {
      body = url( d, v, 60, nt);
      if( body.empty( )) return;
      type = "application/x-www-form-urlencoded";
      if( d.flip( )) type += "; charset=UTF-8";
      }
   else
      {
      std::string b = "--";
      for( int i = 1 + (int)d.raw( 40); i > 0; i--) b += d.flip( ) ? '-' : (char)( '0' + d.raw( 9));
      type = "multipart/form-data; boundary=" + b.substr( 2);
      const int n = 1 + (int)d.raw( 6);
      body = b + "\r\n";
      for( int i = 0; i < n; i++)
         {
         item it = { "", lines( d, b), "", d.flip( ) };
         for( char c : any( d, 29, false)) if( c != '"') it.field += c;
         it.field.resize( std::min<size_t>( it.field.size( ), 29));
         if( it.has_file) for( char c : any( d, 29, false)) if( c != '"') it.file += c;
         body += "Content-Disposition: form-data; name=\"" + it.field + "\"";
         if( it.has_file) body += "; filename=\"" + it.file + "\"";
         body += "\r\n";
         if( it.has_file || d.rare( 4)) body += "Content-Type: text/plain\r\n";
         if( d.rare( 6)) body += "Content-Transfer-Encoding: binary\r\n";
         body += "\r\n" + it.value + "\r\n" + b + (i == n - 1 ? "--\r\n" : "\r\n");
         if( it.value.find( "\n" + b) != std::string::npos || it.value.substr( 0, b.size( )) == b) return;   /* can't be sent thus */
         it.value = strip( it.value);
         if( it.value.find( '\n') != std::string::npos) nt = true;
         v.push_back( it);
         }
      }
   d.note( "%s: %s", type.c_str( ), pbt::quoted( body).c_str( ));
   d.nontrivial( nt);
   const std::string len = pbt::strf( "%d", (int)body.size( )), empty;
   FILE *saved = stdin, *f = NULL;
   if( method == 0) { with_env( "QUERY_STRING", &body); with_env( "CONTENT_TYPE", NULL); with_env( "CONTENT_LENGTH", NULL); }
   else
      {
      with_env( "QUERY_STRING", d.flip( ) ? &empty : NULL);
      with_env( "CONTENT_TYPE", &type);
      with_env( "CONTENT_LENGTH", &len);
      f = fmemopen( (void *)body.data( ), body.size( ), "rb");
      stdin = f;
      }
   struct tidy { FILE *s, *f; ~tidy( ) { stdin = s; if( f) { fclose( f); free_cgi_data( ); } } } t{ saved, f };
   const int rv = initialize_cgi_reading( );
   REQUIRE( rv > 0, "form not recognized: returned %d", rv);
   for( size_t i = 0; i < v.size( ); i++)
      {
      const size_t sz = 512;
      buf fld( 30), b( sz), fn( sz);
      const int r = get_cgi_data( fld, b, d.flip( ) || v[i].has_file ? (char *)fn : (fn[0] = 0, (char *)NULL), sz);
      REQUIRE( r == 0, "field %d: returned %d", (int)i, r);
      REQUIRE( fld.ended( ) && b.ended( ) && v[i].field == (char *)fld && v[i].value == (char *)b, "field %d read as %s = %s, expected %s = %s", (int)i,
               pbt::quoted( (char *)fld).c_str( ), pbt::quoted( (char *)b).c_str( ), pbt::quoted( v[i].field).c_str( ), pbt::quoted( v[i].value).c_str( ));
      REQUIRE( fn.ended( ) && v[i].file == (char *)fn, "field %d: file name %s, expected %s", (int)i, pbt::quoted( (char *)fn).c_str( ), pbt::quoted( v[i].file).c_str( ));
      }
   buf fld( 30), b( 100), fn( 100);
   REQUIRE( get_cgi_data( fld, b, fn, 100) < 0, "end of the form isn't reported");
}

PROP( multipart_noise, 30000, 10)
{
   std::string body, bound = "--12\r\n";
   static const char *bits[] = { "Content-Disposition: form-data; name=\"", "\"", "; filename=\"", "\r\n", "\n", "--12", "--", "name=\"", "x" };
   for( int i = (int)d.raw( 40); i >= 0; i--) { if( d.rare( 4)) body += any( d, 60, true); else body += bits[d.raw( 8)]; }
   const size_t sz = 2 + d.raw( d.flip( ) ? 20 : 200);
   d.note( "buffer %d: %s", (int)sz, pbt::quoted( body).c_str( ));
   d.nontrivial( true);
   FILE *saved = stdin, *f = fmemopen( (void *)body.data( ), body.size( ), "rb");
   stdin = f;
   struct tidy { FILE *s, *f; ~tidy( ) { stdin = s; fclose( f); } } t{ saved, f };
   for( int i = 0; i < 50; i++)
      {
      buf fld( 30), b( sz), fn( sz);
      const int rv = get_multipart_form_data( bound.c_str( ), fld, b, d.flip( ) ? (char *)fn : (char *)NULL, sz);
      if( rv < 0) break;
      REQUIRE( fld.ended( ) && b.ended( ) && (int)strlen( b) == rv, "returned %d for a value of %d bytes", rv, (int)strlen( b));
      }
}
