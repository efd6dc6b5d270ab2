// flavor: plain
/* Constellations */
#include <cstdio>
#include <map>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "pbt.h"
typedef long double ld;

PROPERTY( "B01", "points all over the sphere of 1875 (poles, both edges of every one-minute row and one-second column, RAs many turns away), whole-sky surveys of all 10800 rows at a random place within each row; non-trivial = away from the poles; each survey is one case",
   "Oracle: the published IAU areas of the 88 constellations (to .001 square degree), constellations of 88 well-known stars precessed from J2000, invariance under whole turns of RA, constancy within each cell of one second by one arcminute, index and abbreviation in agreement",
   "surveys step 30 seconds in RA and bisect between differing neighbours: a strip narrower than that could be stepped over (all areas would have to be unchanged for it to go unnoticed)")

static const struct { const char *name; double area; } areas[88] = {
 {"And",722.278},{"Ant",238.901},{"Aps",206.327},{"Aql",652.473},{"Aqr",979.854},{"Ara",237.057},{"Ari",441.395},{"Aur",657.438},{"Boo",906.831},{"Cae",124.865},
 {"Cam",756.828},{"Cap",413.947},{"Car",494.184},{"Cas",598.407},{"Cen",1060.422},{"Cep",587.787},{"Cet",1231.411},{"Cha",131.592},{"Cir",93.353},{"CMa",380.118},
 {"CMi",183.367},{"Cnc",505.872},{"Col",270.184},{"Com",386.475},{"CrA",127.696},{"CrB",178.710},{"Crt",282.398},{"Cru",68.447},{"Crv",183.801},{"CVn",465.194},
 {"Cyg",803.983},{"Del",188.549},{"Dor",179.173},{"Dra",1082.952},{"Equ",71.641},{"Eri",1137.919},{"For",397.502},{"Gem",513.761},{"Gru",365.513},{"Her",1225.148},
 {"Hor",248.885},{"Hya",1302.844},{"Hyi",243.035},{"Ind",294.006},{"Lac",200.688},{"Leo",946.964},{"Lep",290.291},{"Lib",538.052},{"LMi",231.956},{"Lup",333.683},
 {"Lyn",545.386},{"Lyr",286.476},{"Men",153.484},{"Mic",209.513},{"Mon",481.569},{"Mus",138.355},{"Nor",165.290},{"Oct",291.045},{"Oph",948.340},{"Ori",594.120},
 {"Pav",377.666},{"Peg",1120.794},{"Per",614.997},{"Phe",469.319},{"Pic",246.739},{"PsA",245.375},{"Psc",889.417},{"Pup",673.434},{"Pyx",220.833},{"Ret",113.936},
 {"Scl",474.764},{"Sco",496.783},{"Sct",109.114},{"Ser",636.928},{"Sex",313.515},{"Sge",79.923},{"Sgr",867.432},{"Tau",797.249},{"Tel",251.512},{"TrA",109.978},
 {"Tri",131.847},{"Tuc",294.557},{"UMa",1279.660},{"UMi",255.864},{"Vel",499.649},{"Vir",1294.428},{"Vol",141.354},{"Vul",268.165} };

            /* J2000 hours & degrees */
static const struct { double ra, dec; const char *c; } stars[] = {
 {6.7525,-16.716,"CMa"},{6.3992,-52.696,"Car"},{14.6601,-60.834,"Cen"},{14.2610,19.182,"Boo"},{18.6156,38.784,"Lyr"},{5.2782,45.998,"Aur"},{5.2423,-8.202,"Ori"},{7.6550,5.225,"CMi"},
 {1.6286,-57.237,"Eri"},{5.9195,7.407,"Ori"},{19.8464,8.868,"Aql"},{12.4433,-63.099,"Cru"},{4.5987,16.509,"Tau"},{16.4901,-26.432,"Sco"},{13.4199,-11.161,"Vir"},{7.7553,28.026,"Gem"},
 {22.9608,-29.622,"PsA"},{20.6905,45.280,"Cyg"},{10.1395,11.967,"Leo"},{6.9771,-28.972,"CMa"},{2.5303,89.264,"UMi"},{11.0621,61.751,"UMa"},{3.4054,49.861,"Per"},{22.1372,-46.961,"Gru"},
 {18.4029,-34.385,"Sgr"},{20.4275,-56.735,"Pav"},{16.8111,-69.028,"TrA"},{9.2200,-69.717,"Car"},{2.1196,23.462,"Ari"},{0.7265,-17.987,"Cet"},{0.1398,29.091,"And"},{0.6751,56.537,"Cas"},
 {23.0794,15.205,"Peg"},{17.5822,12.560,"Oph"},{15.5781,26.715,"CrB"},{8.0597,-40.003,"Pup"},{9.1333,-43.433,"Vel"},{9.4598,-8.659,"Hya"},{21.3097,62.586,"Cep"},{17.9434,51.489,"Dra"},
 {0.4381,-42.306,"Phe"},{16.5037,21.490,"Her"},{15.7378,6.426,"Ser"},{22.0964,-0.320,"Aqr"},{12.2634,-17.542,"Crv"},{15.2834,-9.383,"Lib"},{5.5455,-17.822,"Lep"},{5.6608,-34.074,"Col"},
 {20.7777,-16.000+.8,"Cap"},{21.7840,-16.127,"Cap"},{17.5308,-49.876,"Ara"},{14.6988,-47.388,"Lup"},{12.9338,38.318,"CVn"},{12.6197,-69.136,"Mus"},{2.1589,34.987,"Tri"},{22.3084,-60.260,"Tuc"},
 {0.4292,-77.254,"Hyi"},{20.6606,15.912,"Del"},{18.4495,-45.968,"Tel"},{1.5247,15.346,"Psc"},{8.2753,9.186,"Cnc"},{19.9793,19.492,"Sge"},{9.3509,34.393,"Lyn"},{5.5604,-62.490,"Dor"},
 {4.2404,-62.474,"Ret"},{22.5215,50.282,"Lac"},{10.8885,34.215,"LMi"},{21.2637,5.248,"Equ"},{6.8032,-61.941,"Pic"},{10.9963,-18.299,"Crt"},{10.4525,-31.068,"Ant"},{18.5868,-8.244,"Sct"},
 {19.1579,-37.904,"CrA"},{4.9009,66.343,"Cam"},{7.2805,-67.957,"Vol"},{14.7084,-64.975,"Cir"},{8.7265,-33.186,"Pyx"},{21.0213,-32.258,"Mic"},{10.1317,-0.372,"Sex"},{6.2476,-6.275,"Mon"},
 {4.6761,-41.864,"Cae"},{3.2012,-28.987,"For"},{0.9767,-29.357,"Scl"},{19.4784,24.665,"Vul"},{13.1665,17.529,"Com"},{6.1707,-74.753,"Men"},{20.6261,-47.291,"Ind"},{4.2333,-42.294,"Hor"},
 {14.7976,-79.045,"Aps"},{16.3306,-50.156,"Nor"},{21.6914,-77.390,"Oct"},{8.3088,-76.920,"Cha"} };

static int lookup( double ra, double dec)
{
   char b[8] = "#######";
   const int rv = constell_from_ra_dec( ra, dec, b), rv2 = constell_from_ra_dec( ra, dec, NULL);
   REQUIRE( rv >= 0 && rv < 88 && rv == rv2, "index %d for RA %.9f dec %.9f (%d without the name)", rv, ra, dec, rv2);
   REQUIRE( !strncmp( b, areas[rv].name, 4) && b[4] == '#' , "index %d is '%.3s', expected %s", rv, b, areas[rv].name);
   return( rv);
}

PROP( point, 1500000, 20)
{
   const bool exact = d.rare( 4);         /* exactly on the lower edges of the cell */
   const int ra_s = exact ? 15 * (int)d.ival( 0, 5759) : (int)d.ival( 0, 86399), dec_m = exact ? 15 * (int)d.ival( 0, 719) : (int)d.ival( 0, 10799);
   const double fr = exact ? 0. : d.flip( ) ? d.unit( ) * .999998 + 1e-6 : d.pick( std::vector<double>{ 1e-6, .999999, .5 });
   const double fd = exact ? 0. : d.flip( ) ? d.unit( ) * .999998 + 1e-6 : d.pick( std::vector<double>{ 1e-6, .999999, .5 });
   const double ra = (ra_s + fr) / 240., dec = (dec_m + fd) / 60. - 90.;
   const int turns = d.rare( 3) ? (int)d.ival( -1000, 1000) : (int)d.ival( -3, 3);
   d.note( "RA %.12f dec %.12f, %d turns", ra, dec, turns);
   d.nontrivial( fabs( dec) < 89.);
   const int mid = lookup( (ra_s + .5) / 240., (dec_m + .5) / 60. - 90.);
   const int here = lookup( ra, dec);
   REQUIRE( here == mid, "%s, but the middle of its cell is in %s", areas[here].name, areas[mid].name);
   const int there = lookup( ra + 360. * turns, dec);
   REQUIRE( here == there, "%s, but %d turns away it's %s", areas[here].name, turns, areas[there].name);
   if( exact) d.cls( "on a cell's edge");
   if( turns) d.cls( turns < 0 ? "negative RA" : "RA past 360");
}

PROP( pole, 20000, 5)
{
   const bool north = d.flip( );
   const double ra = d.real( -720., 720.), dec = d.flip( ) ? 90. : d.real( north ? 88.1 : 85.01, 90.);
   d.note( "RA %.9f dec %.9f", ra, north ? dec : -dec);
   d.nontrivial( dec < 90.);
   const int c = lookup( ra, north ? dec : -dec);
   if( north && dec > 88.)  REQUIRE( !strcmp( areas[c].name, dec < 88.01 ? areas[c].name : "UMi"), "%s", areas[c].name);
   if( !north) REQUIRE( !strcmp( areas[c].name, "Oct"), "%s", areas[c].name);
}

PROP( known_star, 200000, 5)
{
   const auto &s = stars[d.raw( sizeof( stars) / sizeof( stars[0]) - 1)];
   const double off = .05;                   /* these stay clear of the boundaries */
   const double dx = d.real( -off, off), dy = d.real( -off, off);
   const int turns = (int)d.ival( -2, 2);
   double p[2], o[2], m[9];
   p[0] = s.ra * M_PI / 12.;
   p[1] = s.dec * M_PI / 180.;
   setup_precession( m, 2000., 1875.);
   precess_ra_dec( m, o, p, 0);
   const double ra = o[0] * 180. / M_PI + dx / cos( o[1]), dec = o[1] * 180. / M_PI + dy;
   d.note( "%s star near RA %.6f dec %.6f (1875)", s.c, ra, dec);
   d.nontrivial( true);
   if( fabs( dec) > 88.) return;
   const int c = lookup( ra + turns * 360., dec);
   REQUIRE( !strcmp( areas[c].name, s.c), "found in %s", areas[c].name);
}

PROP( survey, 3, 6)
{
   const double off_dec = d.real( .001, .999), off_ra = d.real( .001, .999);
   const int shift = (int)d.ival( 0, 29), turn = (int)d.ival( -1, 1);
   d.note( "rows at %.6f, columns at %.6f + %d, %d turns", off_dec, off_ra, shift, turn);
   d.nontrivial( true);
   ld sum[88] = { 0 };
   auto at = [&]( int col, int row) { return( constell_from_ra_dec( (col + off_ra) / 240. + turn * 360., (row + off_dec) / 60. - 90., NULL)); };
   const ld deg = 3.14159265358979323846264338327950288L / 180.L;
   for( int row = 0; row < 10800; row++)
      {
      const ld band = (sinl( ((row + 1) / 60.L - 90.L) * deg) - sinl( (row / 60.L - 90.L) * deg)) / deg / 240.L;
      int prev = at( 0, row), start = 0, prev_col = 0;
      for( int col = shift ? shift : 30; ; col += 30)
         {
         if( col > 86400) col = 86400;
         const int c = col == 86400 ? -1 : at( col, row);
         REQUIRE( c < 88, "index %d", c);
         if( c != prev)
            {
            int lo = prev_col, hi = col;           /* 'lo' has 'prev',  'hi' doesn't */
            while( hi - lo > 1)
               {
               const int mid = (lo + hi) / 2;
               if( at( mid, row) == prev) lo = mid; else hi = mid;
               }
            REQUIRE( prev >= 0, "index %d", prev);
            sum[prev] += band * (ld)( hi - start);
            start = hi;
            if( hi != col)
               {
               prev = at( hi, row);
               if( prev != c) { prev_col = hi; col = hi; continue; }
               }
            prev = c;
            }
         if( col == 86400) break;
         prev_col = col;
         }
      }
   for( int i = 0; i < 88; i++)
      REQUIRE( fabsl( sum[i] - areas[i].area) < .0011L, "%s covers %.4Lf square degrees, not the published %.3f", areas[i].name, sum[i], areas[i].area);
}
