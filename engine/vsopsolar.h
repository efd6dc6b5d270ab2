/* a vsop.bin with Meeus's theory of the moon and the main terms of the earth's
orbit,  for the programs about sun and moon */
#ifndef VSOPSOLAR_H
#define VSOPSOLAR_H
#include "vsopgen.h"

static const double earth_terms[22][3] = {
   {175347046,0,0}, {3341656,4.6692568,6283.0758500}, {34894,4.6261,12566.1517}, {3497,2.7441,5753.3849}, {3418,2.8289,3.5231},
   {3136,3.6277,77713.7715}, {2676,4.4181,7860.4194}, {2343,6.1352,3930.2097}, {1324,.7425,11506.7698}, {1273,2.0371,529.6910}, {1199,1.1096,1577.3435},
   {628331966747.,0,0}, {206059,2.678235,6283.07585}, {4303,2.6351,12566.1517}, {52919,0,0}, {8720,1.0721,6283.0758},
   {280,3.199,84334.662}, {100013989,0,0}, {1670700,3.0984635,6283.07585}, {13956,3.05525,12566.1517}, {3084,5.1985,77713.7715},
   {103019,1.107490,6283.07585}};

static const char *vsop( )
{
   static vg::Image im;

   if( im.bytes.empty( ))
      {
      im.synthetic( 1, 0);
      im.moon( );
      int n = im.head[10] = 120;
      for( int i = 11; i < 134; i++)
         {
         const int series = i - 1 - 36;         /* those of the earth are 36 to 53 */
         n += (series == 0 ? 11 : series == 1 ? 3 : series == 2 ? 2 : series == 6 ? 1 : series == 12 ? 4 : series == 13 ? 1 : 0);
         im.head[i] = n;
         }
      for( int i = 0; i < 22; i++)
         {
         im.term[120 + i].a = earth_terms[i][0];
         im.term[120 + i].b = earth_terms[i][1];
         im.term[120 + i].c = earth_terms[i][2];
         }
      im.serialize( );
      }
   return( &im.bytes[0]);
}

#endif
