// flavor: plain
// extra: rocks.cpp htc20b.cpp gust86.cpp
/* Inner satellites, co-orbitals and the satellites of Uranus: data as published, and mechanics */
#include <cstdio>
#include <cmath>
#include <cstring>
#include <map>
#include <vector>
#include <unistd.h>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "gust86.h"
#include "pbt.h"
typedef long double ld;

int htc20( const double jd, const int sat_no, double *xyz, double *vxyz);

PROPERTY( "N03", "instants 1600-2400 (precessing ellipses and the satellites of Uranus also -3000 to 7000) for all 36 satellites given as precessing ellipses, Helene, Telesto and Calypso (with and without velocities) and the five classical satellites of Uranus, in histories of several requests of different satellites and instants; instants chosen so that the mean longitude is next to zero; numbers that are no satellite; non-trivial = instant not 0h",
   "The published elements and coefficients (JPL's MAR080, JUP250, SAT, URA, NEP; HTC20; GUST86), written down apart from the code and evaluated in long double with an exact Kepler solution; mechanics: velocity against the change of position, acceleration against GM/r^2, librating co-orbitals 60 degrees from Dione and Tethys, orbit poles against the IAU poles",
   "the ellipses of rocks.cpp use the equation of the centre to second order in the eccentricity, as documented: third-order terms are allowed for; HTC20's velocities are rounded to 1e-6 AU/day per term; Perdita, Mab and Cupid have fits whose semimajor axis does not match the period: left out of the acceleration check")

static const ld pil = 3.14159265358979323846264338327950288L, rad = pil / 180.L;
static const ld au_km = 149597870.L;

struct v3 { ld x[3]; };
static ld dot( v3 a, v3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static v3 cross( v3 a, v3 b) { return v3{ { a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0] } }; }
static ld len( v3 a) { return sqrtl( dot( a, a)); }
static ld angle( v3 a, v3 b) { return atan2l( len( cross( a, b)), dot( a, b)); }
static v3 rotz( v3 a, ld th) { return v3{ { a.x[0] * cosl( th) - a.x[1] * sinl( th), a.x[0] * sinl( th) + a.x[1] * cosl( th), a.x[2] } }; }
static v3 rotx( v3 a, ld th) { return v3{ { a.x[0], a.x[1] * cosl( th) - a.x[2] * sinl( th), a.x[1] * sinl( th) + a.x[2] * cosl( th) } }; }

            /* JPL number, epoch, a/km, h, k, mean longitude, p, q, apsis rate, mean motion, node rate, pole */
struct rock { int id; ld epoch, a, h, k, lon, p, q, apsis, n, node, ra, dec; };
static const rock tab[36] = {
   { 401, 2433282.50L, 9.376164153345777E+03L, -5.689907327111091E-04L, 1.508976478046249E-02L, 8.889912565234037E+01L, -4.374861644190954E-03L, -8.303312581096576E-03L, 5.037011787882128E-06L, 1.306533283449532E-02L, -5.043841563630776E-06L, 3.176707407767539E+02L, 5.289299367003886E+01L },
   { 402, 2433282.50L, 2.345766038183417E+04L, -2.390285567613731E-04L, 6.518182753851608E-05L, 2.505824379527014E+02L, 6.477849519349295E-03L, 1.419810985499536E-02L, 2.076162603566793E-07L, 3.300484710930912E-03L, -2.091750616728367E-07L, 3.166569791010836E+02L, 5.352937471037383E+01L },
   { 505, 2450000.500000000L, 1.813655512465877E+05L, 3.524243705442326E-04L, -3.060388597797567E-03L, 3.088979995508090E+02L, -8.524633361449484E-04L, -3.277584681172060E-03L, 2.908651473226303E-05L, 8.363792987058621E-03L, -2.898772964219916E-05L, 2.680573067077756E+02L, 6.449433514883954E+01L },
   { 514, 2450000.500000000L, 2.218882574500956E+05L, -1.707742712451856E-02L, -4.631931271882844E-03L, 2.889925861272768E+02L, 9.336528660574965E-03L, 7.503268096368817E-05L, 1.433399183927280E-05L, 6.177086242379696E-03L, -1.430832006152276E-05L, 2.680573566856980E+02L, 6.449436369487705E+01L },
   { 515, 2450000.500000000L, 1.289847619277409E+05L, 7.733436951055491E-05L, -7.119915620542968E-04L, 8.469076821476101E+01L, 7.291459020134167E-04L, 2.676849686756846E-04L, 9.721724518582802E-05L, 1.396989430143032E-02L, -9.865593193437598E-05L, 2.680565964128937E+02L, 6.449530295172036E+01L },
   { 516, 2450000.500000000L, 1.279996083074168E+05L, 4.232619343306958E-04L, -6.389823783865655E-04L, 3.380483431923231E+02L, 2.332741944310790E-04L, 5.651570478951611E-04L, 9.905391637419158E-05L, 1.413489189624821E-02L, -9.817915317723091E-05L, 2.680565964128937E+02L, 6.449530295172036E+01L },
   { 610, 2444786.5L, 1.514471646942220E+05L, -3.356112346396347E-03L, 5.663424289609894E-03L, 1.993639755564592E+02L, -1.210639146126198E-03L, 8.350119519512047E-04L, 2.378317712273239E-05L, 5.998806000756397E-03L, -2.367392401124433E-05L, 4.057999864473820E+01L, 8.353999955183330E+01L },
   { 611, 2444786.5L, 1.513991905498270E+05L, 1.244955044467311E-02L, 1.689723618147796E-03L, 1.438890791888553E+02L, -1.212371038828309E-03L, 2.571443713031926E-03L, 2.379040740977320E-05L, 6.001665785000491E-03L, -2.367577385695356E-05L, 4.057999864473820E+01L, 8.353999955183330E+01L },
   { 612, 2444786.5L, 3.774166381879790E+05L, -9.353516152747377E-05L, 1.583034918343283E-03L, 1.006212707258068E+02L, 3.230333151378729E-04L, 1.710869900001995E-03L, -6.777890900303528E-07L, 1.522394989535369E-03L, -9.680289928992843E-07L, 4.057615013244320E+01L, 8.354534172579820E+01L },
   { 613, 2444786.5L, 2.946735826892260E+05L, -5.228888695475952E-04L, -6.853986134369704E-04L, 2.150026475454563E+02L, 8.124186851739944E-03L, -5.785202572889351E-03L, 2.297061650453675E-06L, 2.207149546064677E-03L, -2.290176906415847E-06L, 4.057999864473820E+01L, 8.353999955183330E+01L },
   { 614, 2444786.5L, 2.946734418892560E+05L, 2.900726601141678E-05L, -1.805642558770706E-04L, 9.486345898172432E+01L, -6.373255324934580E-03L, -1.114711641632123E-02L, 2.297022164277979E-06L, 2.207149553889344E-03L, -2.289705897532556E-06L, 4.057999864473820E+01L, 8.353999955183330E+01L },
   { 615, 2444786.50L, 1.376664620000000E+05L, 0.000000000000000E+00L, 0.000000000000000E+00L, 1.865410967364615E+02L, 0.000000000000000E+00L, 0.000000000000000E+00L, 3.334584985561025E-05L, 6.924845572071244E-03L, -3.318681015315788E-05L, 4.058861887893110E+01L, 8.352533375484340E+01L },
   { 616, 2444940.L, 1.393776240E+5L, -1.870790E-3L, -4.319060E-4L, 339.155L, 0.0L, 0.0L, 3.191398148E-05L, 6.797308681E-03L, -3.191398148E-05L, 40.5955L, 83.53812L },
   { 617, 2444940.0L, 1.417131075E+05L, -7.853582898E-05L, 4.499314628E-03L, 96.023L, 0.000000000E+00L, 0.000000000E+00L, 3.008501157E-05L, 6.629462963E-03L, -3.008501157E-05L, 40.5955L, 83.53812L },
   { 618, 2451545.000000000L, 1.335844767617734E+05L, 6.573230396213189E-07L, -3.834742374741285E-06L, 1.465930214018767E+02L, 2.874273755616854E-06L, 1.786179828249530E-06L, 3.711667877073790E-05L, 7.245737665179854E-03L, -3.692848989739440E-05L, 4.058266021370071E+01L, 8.353762557532015E+01L },
   { 635, 2451545.0L, 1.365074939615504E+05L, -1.315672990237585E-05L, 9.642045594783008E-06L, 1.715596048001493E+02L, 7.531461278368427E-06L, 1.795515998708297E-07L, 3.436668768688540E-05L, 7.013639183255008E-03L, -3.419991514627601E-05L, 4.058266021370071E+01L, 8.353762557532015E+01L },
   { 706, 2446450.0L, 4.975278376008903E+04L, 3.397026389377096E-05L, -2.515254211787496E-04L, 7.000215607027029E+01L, 3.704615503525648E-04L, 5.853261080355042E-04L, 1.738799696981362E-05L, 1.243656183299048E-02L, -1.736377492435019E-05L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 707, 2446450.0L, 5.377236269476546E+04L, -2.150301507347647E-04L, -9.999740581692736E-03L, 2.980775969867487E+02L, -2.020628913672490E-05L, -3.602825478615738E-04L, 1.324712040631912E-05L, 1.106966008118268E-02L, -1.323133607399601E-05L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 708, 2446450.0L, 5.916601845295852E+04L, 8.477231065799786E-04L, -1.956287335001066E-04L, 2.399994222705358E+02L, 1.589300498661261E-03L, 6.379647873951716E-05L, 9.467105548594393E-06L, 9.587823207439880E-03L, -9.457950543934906E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 709, 2446450.0L, 6.176701274125071E+04L, 1.280325717493410E-04L, -3.492016953899938E-04L, 1.744231642592986E+01L, -8.721221306573636E-05L, -5.691312570236423E-05L, 8.142357893631056E-06L, 8.988222143978887E-03L, -8.135007925901379E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 710, 2446450.0L, 6.265802480732047E+04L, 6.122707189532604E-05L, -7.493551564088767E-05L, 3.140089739140928E+02L, -8.205209935503686E-04L, 2.858562925749050E-04L, 7.743633229159851E-06L, 8.796938545302438E-03L, -7.736867825787147E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 711, 2446450.0L, 6.435798256249492E+04L, 5.727123336968831E-04L, 2.769692434848892E-04L, 3.086610831200759E+02L, 1.979873455981514E-06L, -3.519679830363237E-04L, 7.050789555402506E-06L, 8.450533525589351E-03L, -7.044928085318312E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 712, 2446450.0L, 6.609699016546280E+04L, -1.561120967532852E-05L, -1.037014963876101E-05L, 3.408196917514196E+02L, -6.171045740059509E-04L, -3.299300587868204E-05L, 6.422466432321616E-06L, 8.119056168010097E-03L, -6.417420983992342E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 713, 2446450.0L, 6.992700696485957E+04L, -1.403276497951949E-06L, -2.648962937429079E-04L, 2.895216219202660E+02L, 1.425386769737830E-04L, 1.380714624815777E-03L, 5.273919837749587E-06L, 7.460999947254308E-03L, -5.270264644406115E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 714, 2446450.0L, 7.525599298568144E+04L, -1.133077752423965E-04L, 9.095450345916166E-05L, 3.189638319876507E+02L, -2.319689561589446E-04L, 1.836879475556537E-04L, 4.080592112111099E-06L, 6.682410769071078E-03L, -4.078118716334471E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 715, 2446450.0L, 8.600500570186481E+04L, 2.408105269975341E-05L, 4.402601703153761E-05L, 3.316332080099892E+02L, -2.920341971029460E-03L, -1.546045006884095E-04L, 2.563927692592904E-06L, 5.469265726829639E-03L, -2.562898939602568E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 725, 2453243.0L, 7.724773127464541E+04L, 1.390656943538988E-02L, 3.764212415028709E-03L, 3.595150462692501E+01L, -3.980139862871680E-03L, 2.570818282326076E-03L, 7.254635422562736E-06L, 6.530622640638519E-03L, -1.264570087799819E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 726, 2453243.0L, 9.775566743468499E+04L, -4.588659276539662E-03L, 1.692530123450800E-04L, 1.541172205352909E+02L, -6.759365158371933E-04L, 1.062018029025279E-03L, 2.045092348282713E-06L, 4.514456799305884E-03L, -1.920887916143170E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 727, 2453243.0L, 7.450315104822017E+04L, 1.837706282342717E-03L, 1.041837588715111E-03L, 2.341997642137053E+02L, -2.742799982489807E-04L, -1.085742482179855E-03L, 4.009533113969465E-06L, 6.799110491893427E-03L, -3.448340803322791E-06L, 7.731359116506646E+01L, 1.517445781731228E+01L },
   { 801, 2447763.5L, 3.547591460000000E+05L, 2.183485420000000E-06L, -1.543648510000000E-05L, -7.672436890000000E+01L, -2.818138250000000E-02L, 2.030103396000000E-01L, 1.211953824000000E-08L, -7.089961076000000E-04L, 1.657793254000000E-08L, 2.989472940000000E+02L, 4.331890600000000E+01L },
   { 803, 2447757.0L, 4.822701435905355E+04L, 3.620224770838396E-04L, 1.156185304588290E-05L, 6.810339767839658E+01L, 3.452822063733985E-02L, 2.290770169216655E-02L, 1.964161049323076E-05L, 1.415326558087714E-02L, -1.985180471594082E-05L, 2.993634890000000E+02L, 4.344909600000000E+01L },
   { 804, 2447757.0L, 5.007495130640859E+04L, 1.881434320556790E-04L, 1.033517936279606E-04L, 2.475810361721285E+02L, 1.808988491806543E-03L, -2.572520444193769E-04L, 1.745544005794959E-05L, 1.337678870805562E-02L, -1.746377282651943E-05L, 2.993634890000000E+02L, 4.344909600000000E+01L },
   { 805, 2447757.0L, 5.252607405757254E+04L, 2.232930551031250E-04L, -1.115774312255063E-05L, 9.311343295481528E+01L, 1.944862825322830E-04L, -5.200679669272585E-04L, 1.475565828888696E-05L, 1.245059755574818E-02L, -1.476785707594837E-05L, 2.993634890000000E+02L, 4.344909600000000E+01L },
   { 806, 2447757.0L, 6.195297903638693E+04L, 1.674342888688514E-05L, -3.311081056771463E-05L, 5.448813192644227E+01L, 4.358773699437865E-04L, -3.132950150251619E-04L, 8.264989830842901E-06L, 9.718285365249440E-03L, -8.284262531923991E-06L, 2.993634890000000E+02L, 4.344909600000000E+01L },
   { 807, 2447757.0L, 7.354791709303492E+04L, 5.742600597431634E-04L, -1.269545891017604E-03L, 1.926654222778896E+02L, 5.395612235869184E-04L, 1.702120710409934E-03L, 4.526939181068548E-06L, 7.512183377052987E-03L, -4.555573945715664E-06L, 2.993634890000000E+02L, 4.344909600000000E+01L },
   { 808, 2447757.0L, 1.176468148802116E+05L, 5.138756385126203E-04L, -1.319038194876358E-04L, 2.214459710358717E+02L, 6.691721009767980E-05L, -2.147144625701844E-04L, 8.764111065373391E-07L, 3.712548540365151E-03L, -9.086814828264133E-07L, 2.993634890000000E+02L, 4.344909600000000E+01L }
   };
static ld ecc_anomaly( ld e, ld M)
{
   M = remainderl( M, 2 * pil);
   ld E = M;
   for( int i = 0; i < 60; i++) { const ld d = (E - e * sinl( E) - M) / (1 - e * cosl( E)); E -= d; if( fabsl( d) < 1e-19L) break; }
   return( E);
}
static v3 rock_xyz( const rock &r, ld jd)
{
   const ld t = (jd - r.epoch) * 86400.L;
   const ld e = hypotl( r.h, r.k), per = atan2l( r.h, r.k) + r.apsis * t * rad;
   const ld ti2 = hypotl( r.p, r.q), node = atan2l( r.p, r.q) + r.node * t * rad, i = 2 * atanl( ti2);
   const ld lon = fmodl( r.lon + r.n * t, 360.L) * rad;
   const ld E = ecc_anomaly( e, lon - per);
   v3 v = { { r.a * (cosl( E) - e), r.a * sqrtl( 1 - e * e) * sinl( E), 0 } };
   v = rotx( rotz( v, per - node), i);
   v = rotz( v, node);
                  /* the Laplacian plane: x axis along its node on the J2000 equator */
   v = rotx( v, pil / 2 - r.dec * rad);
   return( rotz( v, pil / 2 + r.ra * rad));
}

struct hterm { int k[4]; int c[3], s[3], vc[3], vs[3]; };      /* position and velocity, 1e-6 AU (per day), cosine and sine */
static const std::vector<hterm> htc[3] = {
   { /* Helene */
     { { 0, 0, 0, 1 }, { -2396, -399, 442 }, { 557, -2152, 1074 }, { 1278, -4939, 2466 }, { 5500, 916, -1015 } },
     { { 0, 0, 1, 0 }, { 0, 0, 0 }, { 0, 5, 10 }, { 0, 11, 23 }, { 0, 0, 0 } },
     { { 0, 1, 0, -1 }, { -67, 264, -132 }, { 294, 48, -53 }, { -677, -110, 123 }, { -154, 608, -304 } },
     { { 0, 1, 0, 1 }, { -66, 265, -133 }, { -295, -47, 53 }, { -676, -107, 122 }, { 151, -607, 303 } },
     { { 0, 2, 0, -1 }, { 15, 16, -10 }, { 19, -14, 6 }, { -44, 33, -13 }, { 35, 38, -23 } },
     { { 0, 2, 0, 1 }, { 15, 17, -10 }, { -19, 14, -6 }, { -44, 33, -13 }, { -35, -38, 23 } },
     { { 0, 3, 0, -1 }, { 2, 0, 0 }, { 0, -2, 0 }, { -2, 4, -2 }, { 4, 2, 0 } },
     { { 0, 3, 0, 1 }, { 2, 0, 0 }, { 0, 2, 0 }, { -2, 4, -2 }, { -4, -2, 0 } },
     { { 1, -1, 0, 1 }, { 0, 0, 0 }, { 0, 0, 0 }, { 0, 3, 0 }, { -3, 0, 0 } },
     { { 1, 0, 0, -1 }, { -2, 8, -4 }, { 9, 0, -2 }, { 0, 0, 0 }, { 0, 0, 0 } },
     { { 1, 0, 0, 1 }, { 0, 2, 0 }, { -3, 0, 0 }, { -13, -2, 2 }, { 3, -11, 6 } },
     { { 1, 1, 0, 1 }, { 0, 0, 0 }, { 0, 0, 0 }, { 0, 3, 0 }, { -3, 0, 0 } } },
   { /* Telesto */
     { { 0, 0, 0, 1 }, { -1933, -253, 320 }, { 372, -1733, 873 }, { 1237, -5767, 2904 }, { 6432, 842, -1066 } },
     { { 0, 0, 1, 0 }, { 0, 0, 0 }, { 2, 10, 19 }, { 7, 33, 63 }, { 0, 0, 0 } },
     { { 0, 1, 0, -1 }, { -6, 29, -15 }, { 32, 4, -5 }, { -108, -14, 18 }, { -21, 97, -49 } },
     { { 0, 1, 0, 1 }, { -6, 29, -15 }, { -33, -4, 5 }, { -108, -14, 18 }, { 20, -97, 49 } },
     { { 1, 0, 0, -1 }, { 0, 7, -3 }, { 7, 0, 0 }, { 0, 0, 0 }, { 0, 0, 0 } },
     { { 1, 0, 0, 1 }, { 0, 2, 0 }, { -2, 0, 0 }, { -16, -2, 3 }, { 3, -14, 7 } } },
   { /* Calypso */
     { { 0, 0, 0, 1 }, { 651, 1615, -910 }, { -1846, 652, -163 }, { -6145, 2170, -542 }, { -2166, -5375, 3030 } },
     { { 0, 0, 1, 0 }, { 0, 0, 0 }, { 5, 27, 52 }, { -17, -90, -173 }, { 0, 0, 0 } },
     { { 0, 1, -1, 0 }, { 0, 0, -2 }, { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, -2 } },
     { { 0, 1, 0, -1 }, { -78, 27, -7 }, { 27, 68, -38 }, { -89, -225, 127 }, { -257, 89, -22 } },
     { { 0, 1, 0, 1 }, { -77, 28, -7 }, { -28, -67, 38 }, { -92, -225, 127 }, { 257, -92, 23 } },
     { { 0, 1, 1, 0 }, { 0, 0, -2 }, { 0, 0, 0 }, { 0, 0, 0 }, { 0, 0, 2 } },
     { { 0, 2, 0, -1 }, { -2, 0, 0 }, { 0, 2, 0 }, { 4, -6, 3 }, { -7, -3, 2 } },
     { { 0, 2, 0, 1 }, { -2, 0, 0 }, { 0, -2, 0 }, { 4, -6, 3 }, { 7, 3, -2 } },
     { { 1, -1, 0, -1 }, { 0, 0, 0 }, { 0, 0, 0 }, { 2, 0, 0 }, { 0, -2, 0 } },
     { { 1, 0, 0, -1 }, { -4, 0, 0 }, { 0, 3, -2 }, { -9, -22, 12 }, { -25, 9, -2 } },
     { { 1, 0, 0, 1 }, { -11, 4, 0 }, { -4, -10, 6 }, { 0, 0, 0 }, { 0, 0, 0 } },
     { { 1, 1, 0, -1 }, { 0, 0, 0 }, { 0, 0, 0 }, { 2, 0, 0 }, { 0, -2, 0 } } } };

static void htc_xyz( ld jd, int s, v3 &x, v3 &v)
{
   static const ld f1[3] = { 2.29427177L, 3.32489098L, -3.32489617L }, f2[3] = { -.00802443L, -.00948045L, .00946761L };
   static const ld f3[3] = { 2.29714724L, 3.33170385L, -3.33170262L }, fl[3] = { 2.29571726L, 3.32830561L, 3.32830561L };
   static const ld p1[3] = { 3.27342548L, 6.2423359L, 5.4138476L }, p2[3] = { 1.30770422L, 4.62624497L, 1.36874776L };
   static const ld p3[3] = { .77232982L, .04769409L, 5.64157287L }, pl[3] = { 3.07410251L, 3.24465053L, 3.2507488L };
   const ld t = jd - 2451545.L;
   x = v = v3{ { 0, 0, 0 } };
   for( auto &h : htc[s])
      {
      const ld a = h.k[0] * (f1[s] * t + p1[s]) + h.k[1] * (f2[s] * t + p2[s]) + h.k[2] * (f3[s] * t + p3[s]) + h.k[3] * (fl[s] * t + pl[s]);
      for( int i = 0; i < 3; i++)
         {
         x.x[i] += (h.c[i] * cosl( a) + h.s[i] * sinl( a)) * 1e-6L;
         v.x[i] += (h.vc[i] * cosl( a) + h.vs[i] * sinl( a)) * 1e-6L;
         }
      }
}

struct gterm { ld c; int k[5], w; };           /* coefficient (1e-6), multiples of the mean longitudes, which longitude of apsis */
struct gsat { ld n0; std::vector<gterm> n; ld l0, rate; std::vector<gterm> l; ld e[5], i[5]; std::vector<gterm> z; };
static const gsat gust[5] = {
   { /* miranda */ 4443522.67L,
     { { -34.92L, { 1, -3, 2, 0, 0 }, -1 }, { 8.47L, { 2, -6, 4, 0, 0 }, -1 }, { 1.31L, { 3, -9, 6, 0, 0 }, -1 }, { -52.28L, { 1, -1, 0, 0, 0 }, -1 }, { -136.65L, { 2, -2, 0, 0, 0 }, -1 } },
     -238051.58L, 4445190.55L,
     { { 25472.17L, { 1, -3, 2, 0, 0 }, -1 }, { -3088.31L, { 2, -6, 4, 0, 0 }, -1 }, { -318.10L, { 3, -9, 6, 0, 0 }, -1 }, { -37.49L, { 4, -12, 8, 0, 0 }, -1 }, { -57.85L, { 1, -1, 0, 0, 0 }, -1 }, { -62.32L, { 2, -2, 0, 0, 0 }, -1 }, { -27.95L, { 3, -3, 0, 0, 0 }, -1 } },
     { 1312.38L, 71.81L, 69.77L, 6.75L, 6.27L },
     { 37871.71L, 27.01L, 30.76L, 12.18L, 5.37L },
     { { -123.31L, { -1, 2, 0, 0, 0 }, -1 }, { 39.52L, { -2, 3, 0, 0, 0 }, -1 }, { 194.10L, { 1, 0, 0, 0, 0 }, -1 } } },
   { /* ariel */ 2492542.57L,
     { { 2.55L, { 1, -3, 2, 0, 0 }, -1 }, { -42.16L, { 0, 1, -1, 0, 0 }, -1 }, { -102.56L, { 0, 2, -2, 0, 0 }, -1 } },
     3098046.41L, 2492952.52L,
     { { -1860.50L, { 1, -3, 2, 0, 0 }, -1 }, { 219.99L, { 2, -6, 4, 0, 0 }, -1 }, { 23.10L, { 3, -9, 6, 0, 0 }, -1 }, { 4.30L, { 4, -12, 8, 0, 0 }, -1 }, { -90.11L, { 0, 1, -1, 0, 0 }, -1 }, { -91.07L, { 0, 2, -2, 0, 0 }, -1 }, { -42.75L, { 0, 3, -3, 0, 0 }, -1 }, { -16.49L, { 0, 2, 0, -2, 0 }, -1 } },
     { -3.35L, 1187.63L, 861.59L, 71.50L, 55.59L },
     { -121.75L, 358.25L, 290.08L, 97.78L, 33.97L },
     { { -84.60L, { 0, -1, 2, 0, 0 }, -1 }, { 91.81L, { 0, -2, 3, 0, 0 }, -1 }, { 20.03L, { 0, -1, 0, 2, 0 }, -1 }, { 89.77L, { 0, 1, 0, 0, 0 }, -1 } } },
   { /* umbriel */ 1515954.90L,
     { { 9.74L, { 0, 0, 1, -2, 0 }, 2 }, { -106.00L, { 0, 1, -1, 0, 0 }, -1 }, { 54.16L, { 0, 2, -2, 0, 0 }, -1 }, { -23.59L, { 0, 0, 1, -1, 0 }, -1 }, { -70.70L, { 0, 0, 2, -2, 0 }, -1 }, { -36.28L, { 0, 0, 3, -3, 0 }, -1 } },
     2285401.69L, 1516148.11L,
     { { 660.57L, { 1, -3, 2, 0, 0 }, -1 }, { -76.51L, { 2, -6, 4, 0, 0 }, -1 }, { -8.96L, { 3, -9, 6, 0, 0 }, -1 }, { -2.53L, { 4, -12, 8, 0, 0 }, -1 }, { -52.91L, { 0, 0, 1, -4, 3 }, -1 }, { -7.34L, { 0, 0, 1, -2, 0 }, 4 }, { -1.83L, { 0, 0, 1, -2, 0 }, 3 }, { 147.91L, { 0, 0, 1, -2, 0 }, 2 }, { -7.77L, { 0, 0, 1, -2, 0 }, 1 }, { 97.76L, { 0, 1, -1, 0, 0 }, -1 }, { 73.13L, { 0, 2, -2, 0, 0 }, -1 }, { 34.71L, { 0, 3, -3, 0, 0 }, -1 }, { 18.89L, { 0, 4, -4, 0, 0 }, -1 }, { -67.89L, { 0, 0, 1, -1, 0 }, -1 }, { -82.86L, { 0, 0, 2, -2, 0 }, -1 }, { -33.81L, { 0, 0, 3, -3, 0 }, -1 }, { -15.79L, { 0, 0, 4, -4, 0 }, -1 }, { -10.21L, { 0, 0, 1, 0, -1 }, -1 }, { -17.08L, { 0, 0, 2, 0, -2 }, -1 } },
     { -0.21L, -227.95L, 3904.69L, 309.17L, 221.92L },
     { -10.86L, -81.51L, 1113.36L, 350.14L, 106.50L },
     { { 29.34L, { 0, 1, 0, 0, 0 }, -1 }, { 26.20L, { 0, 0, 1, 0, 0 }, -1 }, { 51.19L, { 0, -1, 2, 0, 0 }, -1 }, { -103.86L, { 0, -2, 3, 0, 0 }, -1 }, { -27.16L, { 0, -3, 4, 0, 0 }, -1 }, { -16.22L, { 0, 0, 0, 1, 0 }, -1 }, { 549.23L, { 0, 0, -1, 2, 0 }, -1 }, { 34.70L, { 0, 0, -2, 3, 0 }, -1 }, { 12.81L, { 0, 0, -3, 4, 0 }, -1 }, { 21.81L, { 0, 0, -1, 0, 2 }, -1 }, { 46.25L, { 0, 0, 1, 0, 0 }, -1 } } },
   { /* titania */ 721663.16L,
     { { -2.64L, { 0, 0, 1, -2, 0 }, 2 }, { -2.16L, { 0, 0, 0, 2, -3 }, 4 }, { 6.45L, { 0, 0, 0, 2, -3 }, 3 }, { -1.11L, { 0, 0, 0, 2, -3 }, 2 }, { -62.23L, { 0, 1, 0, -1, 0 }, -1 }, { -56.13L, { 0, 0, 1, -1, 0 }, -1 }, { -39.94L, { 0, 0, 0, 1, -1 }, -1 }, { -91.85L, { 0, 0, 0, 2, -2 }, -1 }, { -58.31L, { 0, 0, 0, 3, -3 }, -1 }, { -38.60L, { 0, 0, 0, 4, -4 }, -1 }, { -26.18L, { 0, 0, 0, 5, -5 }, -1 }, { -18.06L, { 0, 0, 0, 6, -6 }, -1 } },
     856358.79L, 721718.51L,
     { { 20.61L, { 0, 0, 1, -4, 3 }, -1 }, { -2.07L, { 0, 0, 1, -2, 0 }, 4 }, { -2.88L, { 0, 0, 1, -2, 0 }, 3 }, { -40.79L, { 0, 0, 1, -2, 0 }, 2 }, { 2.11L, { 0, 0, 1, -2, 0 }, 1 }, { -51.83L, { 0, 0, 0, 2, -3 }, 4 }, { 159.87L, { 0, 0, 0, 2, -3 }, 3 }, { -35.05L, { 0, 0, 0, 2, -3 }, 2 }, { -1.56L, { 0, 0, 0, 3, -4 }, 4 }, { 40.54L, { 0, 1, 0, -1, 0 }, -1 }, { 46.17L, { 0, 0, 1, -1, 0 }, -1 }, { -317.76L, { 0, 0, 0, 1, -1 }, -1 }, { -305.59L, { 0, 0, 0, 2, -2 }, -1 }, { -148.36L, { 0, 0, 0, 3, -3 }, -1 }, { -82.92L, { 0, 0, 0, 4, -4 }, -1 }, { -49.98L, { 0, 0, 0, 5, -5 }, -1 }, { -31.56L, { 0, 0, 0, 6, -6 }, -1 }, { -20.56L, { 0, 0, 0, 7, -7 }, -1 }, { -13.69L, { 0, 0, 0, 8, -8 }, -1 } },
     { -0.02L, -1.29L, -324.51L, 932.81L, 1120.89L },
     { -1.43L, -1.06L, -140.13L, 685.72L, 378.32L },
     { { 33.86L, { 0, 1, 0, 0, 0 }, -1 }, { 17.46L, { 0, 0, 0, 1, 0 }, -1 }, { 16.58L, { 0, -1, 0, 2, 0 }, -1 }, { 28.89L, { 0, 0, 1, 0, 0 }, -1 }, { -35.86L, { 0, 0, -1, 2, 0 }, -1 }, { -17.86L, { 0, 0, 0, 1, 0 }, -1 }, { -32.10L, { 0, 0, 0, 0, 1 }, -1 }, { -177.83L, { 0, 0, 0, -1, 2 }, -1 }, { 793.43L, { 0, 0, 0, -2, 3 }, -1 }, { 99.48L, { 0, 0, 0, -3, 4 }, -1 }, { 44.83L, { 0, 0, 0, -4, 5 }, -1 }, { 25.13L, { 0, 0, 0, -5, 6 }, -1 }, { 15.43L, { 0, 0, 0, -6, 7 }, -1 } } },
   { /* oberon */ 466580.54L,
     { { 2.08L, { 0, 0, 0, 2, -3 }, 4 }, { -6.22L, { 0, 0, 0, 2, -3 }, 3 }, { 1.07L, { 0, 0, 0, 2, -3 }, 2 }, { -43.10L, { 0, 1, 0, 0, -1 }, -1 }, { -38.94L, { 0, 0, 1, 0, -1 }, -1 }, { -80.11L, { 0, 0, 0, 1, -1 }, -1 }, { 59.06L, { 0, 0, 0, 2, -2 }, -1 }, { 37.49L, { 0, 0, 0, 3, -3 }, -1 }, { 24.82L, { 0, 0, 0, 4, -4 }, -1 }, { 16.84L, { 0, 0, 0, 5, -5 }, -1 } },
     -915591.80L, 466692.12L,
     { { -7.82L, { 0, 0, 1, -4, 3 }, -1 }, { 51.29L, { 0, 0, 0, 2, -3 }, 4 }, { -158.24L, { 0, 0, 0, 2, -3 }, 3 }, { 34.51L, { 0, 0, 0, 2, -3 }, 2 }, { 47.51L, { 0, 1, 0, 0, -1 }, -1 }, { 38.96L, { 0, 0, 1, 0, -1 }, -1 }, { 359.73L, { 0, 0, 0, 1, -1 }, -1 }, { 282.78L, { 0, 0, 0, 2, -2 }, -1 }, { 138.60L, { 0, 0, 0, 3, -3 }, -1 }, { 78.03L, { 0, 0, 0, 4, -4 }, -1 }, { 47.29L, { 0, 0, 0, 5, -5 }, -1 }, { 30.00L, { 0, 0, 0, 6, -6 }, -1 }, { 19.62L, { 0, 0, 0, 7, -7 }, -1 }, { 13.11L, { 0, 0, 0, 8, -8 }, -1 } },
     { 0.00L, -0.35L, 74.53L, -758.68L, 1397.34L },
     { -0.44L, -0.31L, 36.89L, -596.33L, 451.69L },
     { { 39.00L, { 0, 1, 0, 0, 0 }, -1 }, { 17.66L, { 0, -1, 0, 0, 2 }, -1 }, { 32.42L, { 0, 0, 1, 0, 0 }, -1 }, { 79.75L, { 0, 0, 0, 1, 0 }, -1 }, { 75.66L, { 0, 0, 0, 0, 1 }, -1 }, { 134.04L, { 0, 0, 0, -1, 2 }, -1 }, { -987.26L, { 0, 0, 0, -2, 3 }, -1 }, { -126.09L, { 0, 0, 0, -3, 4 }, -1 }, { -57.42L, { 0, 0, 0, -4, 5 }, -1 }, { -32.41L, { 0, 0, 0, -5, 6 }, -1 }, { -19.99L, { 0, 0, 0, -6, 7 }, -1 }, { -12.94L, { 0, 0, 0, -7, 8 }, -1 } } },
   };

static const ld fqn[5] = { 4445190.550L, 2492952.519L, 1516148.111L, 721718.509L, 466692.120L }, phn[5] = { -238051.L, 3098046.L, 2285402.L, 856359.L, -915592.L };
static const ld fqe[5] = { 20.082L, 6.217L, 2.865L, 2.078L, .386L }, phe[5] = { .611392L, 2.408974L, 2.067774L, .735131L, .426767L };
static const ld fqi[5] = { -20.309L, -6.288L, -2.836L, -1.843L, -.259L }, phi[5] = { 5.702313L, .395757L, .589326L, 1.746237L, 4.206896L };
static const int gust_row[5] = { 1, 2, 3, 4, 0 };           /* GUST86_ARIEL... -> order from the planet */
static void gust_xyz( ld jd, int isat, v3 &x, v3 &v, ld *period = NULL)
{
   static const ld gm_as_given[5] = { 4.4L, 86.1L, 84.L, 230.L, 200.L };
   const int row = gust_row[isat];
   const gsat &g = gust[row];
   const ld t = jd - 2444239.5L;
   ld an[5], ae[5], ai[5];
   for( int i = 0; i < 5; i++)
      {
      an[i] = (fqn[i] * t + phn[i]) * 1e-6L;
      ae[i] = fqe[i] * rad * t / 365.25L + phe[i];
      ai[i] = fqi[i] * rad * t / 365.25L + phi[i];
      }
   auto arg = [&]( const gterm &u) { ld a = 0; for( int i = 0; i < 5; i++) a += u.k[i] * an[i]; if( u.w >= 0) a += ae[u.w]; return( a); };
   ld n = g.n0, l = g.l0 + g.rate * t, k = 0, h = 0, q = 0, p = 0;
   for( auto &u : g.n) n += u.c * cosl( arg( u));
   for( auto &u : g.l) l += u.c * sinl( arg( u));
   for( int i = 0; i < 5; i++)
      {
      k += g.e[i] * cosl( ae[i]);
      h += g.e[i] * sinl( ae[i]);
      q += g.i[i] * cosl( ai[i]);
      p += g.i[i] * sinl( ai[i]);
      }
   for( auto &u : g.z) { k += u.c * cosl( arg( u)); h += u.c * sinl( arg( u)); }
   n *= 1e-6L; l *= 1e-6L; k *= 1e-6L; h *= 1e-6L; q *= 1e-6L; p *= 1e-6L;
   const ld mu = 5794554.5L - 604.5L + gm_as_given[isat];
   n /= 86400.L;
   const ld a = cbrtl( mu / (n * n)), e = hypotl( h, k), per = atan2l( h, k), node = atan2l( p, q), inc = 2 * asinl( hypotl( p, q));
   const ld E = ecc_anomaly( e, l - per);
   x = v3{ { a * (cosl( E) - e), a * sqrtl( 1 - e * e) * sinl( E), 0 } };
   const ld f = n * a / (1 - e * cosl( E));
   v = v3{ { -f * sinl( E), f * sqrtl( 1 - e * e) * cosl( E), 0 } };
   static const ld m[3][3] = { { .9753206898L, -.2207422915L, .0047321138L }, { .0619432123L, .2529905682L, -.9654837185L }, { .2119259083L, .9419493686L, .2604204221L } };
   for( v3 *w : { &x, &v})
      {
      *w = rotz( rotx( rotz( *w, per - node), inc), node);
      v3 r;
      for( int i = 0; i < 3; i++) r.x[i] = (m[0][i] * w->x[0] + m[1][i] * w->x[1] + m[2][i] * w->x[2]) / au_km;
      *w = r;
      }
   if( period) *period = 2 * pil / n / 86400.L;
}

static double draw_jd( pbt::Draw &d, double lo, double hi)
{
   switch( (int)d.raw( 3))
      {
      case 0: return( (double)d.ival( (int64_t)lo, (int64_t)hi) + (d.flip( ) ? .5 : 0.));
      case 1: return( d.pick( std::vector<double>{ 2451545., 2433282.5, 2450000.5, 2444786.5, 2444239.5, 2447757. }) + (d.flip( ) ? d.real( -3., 3.) : 0.));
      default: return( d.real( lo, hi));
      }
}
static double modern( pbt::Draw &d) { return( draw_jd( d, 2305447., 2597641.)); }
static double any_jd( pbt::Draw &d) { return( d.rare( 4) ? draw_jd( d, 625332., 4277757.) : modern( d)); }
static std::string show( const double *v) { return( pbt::strf( "(%.12g %.12g %.12g)", v[0], v[1], v[2])); }
static std::string show( v3 v) { return( pbt::strf( "(%.12Lg %.12Lg %.12Lg)", v.x[0], v.x[1], v.x[2])); }
static ld apart( v3 a, const double *b) { return( sqrtl( powl( a.x[0] - b[0], 2) + powl( a.x[1] - b[1], 2) + powl( a.x[2] - b[2], 2))); }
static void quiet_gust( double jd, int s, double *r)
{
   static FILE *nul = fopen( "/dev/null", "w");
   FILE *old = stdout;
   stdout = nul;                      /* it tells what it does on standard output */
   gust86_posn( jd, s, r);
   stdout = old;
}

PROP( rocks, 150000, 12)
{
   const int n = (int)d.ival( 1, 3);
   for( int step = 0; step < n; step++)
      {
      const double jd = any_jd( d);
      double v[3] = { 1, 2, 3 };
      if( d.rare( 12))
         {
         int id = (int)d.ival( 0, 1000);
         bool known = false;
         for( auto &r : tab) known |= (r.id == id);
         if( known) id = -id;
         REQUIRE( evaluate_rock( jd, id, v) == -1, "evaluate_rock( ) accepts %d", id);
         REQUIRE( v[0] == 1 && v[1] == 2 && v[2] == 3, "evaluate_rock( ) wrote a position for %d", id);
         continue;
         }
      const rock &r = tab[d.ival( 0, 35)];
      d.note( "evaluate_rock( %.17g, %d, .)", jd, r.id);
      static const char *who[9] = { "", "", "", "", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune" };
      d.cls( who[r.id / 100]);
      d.nontrivial( jd - floor( jd) != .5);
      REQUIRE( !evaluate_rock( jd, r.id, v), "evaluate_rock( ) does not know %d", r.id);
      const v3 x = rock_xyz( r, jd);
      const ld e = hypotl( r.h, r.k);
      const ld turns = fabsl( jd - r.epoch) * 86400.L * fabsl( r.n) * rad;
      const ld tol = r.a * (1.5L * e * e * e + 1e-9L + turns * 1.5e-15L);
      REQUIRE( apart( x, v) < tol, "JD %.9f satellite %d: %s, the elements give %s (%.6Lf km apart)", jd, r.id, show( v).c_str( ), show( x).c_str( ), apart( x, v));
      }
}

PROP( helene_telesto_calypso, 60000, 12)
{
   const int n = (int)d.ival( 1, 3);
   for( int step = 0; step < n; step++)
      {
      const double jd = any_jd( d);
      double x[4] = { 1, 2, 3, 4 }, v[4] = { 5, 6, 7, 8 };
      const bool want_v = !d.rare( 4);
      if( d.rare( 12))
         {
         const int bad = d.flip( ) ? (int)d.ival( 3, 100) : -(int)d.ival( 1, 100);
         REQUIRE( htc20( jd, bad, x, v), "htc20( ) accepts satellite %d", bad);
         REQUIRE( x[0] == 1 && v[0] == 5, "htc20( ) wrote a position for satellite %d", bad);
         continue;
         }
      const int s = (int)d.ival( 0, 2);
      d.note( "htc20( %.17g, %d, ., %s)", jd, s, want_v ? "." : "NULL");
      d.cls( s == 0 ? "Helene" : s == 1 ? "Telesto" : "Calypso");
      d.nontrivial( jd - floor( jd) != .5);
      REQUIRE( !htc20( jd, s, x, want_v ? v : NULL), "htc20( ) fails for satellite %d", s);
      v3 rx, rv;
      htc_xyz( jd, s, rx, rv);
      const ld tol = 1e-11L + fabsl( jd - 2451545.L) * 3.4L * .004L * 1.5e-15L;
      REQUIRE( apart( rx, x) < tol, "JD %.9f satellite %d: %s, the theory gives %s", jd, s, show( x).c_str( ), show( rx).c_str( ));
      if( want_v) REQUIRE( apart( rv, v) < 4 * tol, "JD %.9f satellite %d: velocity %s, the theory gives %s", jd, s, show( v).c_str( ), show( rv).c_str( ));
      REQUIRE( x[3] == 4 && v[3] == 8 && (want_v || v[0] == 5), "more than three numbers were stored");
      }
}

PROP( uranus, 200000, 12)
{
   static const char *name[5] = { "Ariel", "Umbriel", "Titania", "Oberon", "Miranda" };
   const int n = (int)d.ival( 1, 5);
   double jd = any_jd( d);
   for( int step = 0; step < n; step++)
      {
      const int s = (int)d.ival( 0, 4);
      switch( (int)d.raw( 4))
         {
         case 0: break;                      /* same instant, maybe another satellite */
         case 1:
            {                                /* mean longitude passing through zero in 1980 */
            const gsat &g = gust[gust_row[s]];
            jd = 2444239.5 - (double)(g.l0 / g.rate) + d.logreal( 1e-9, 1e-2) * (d.flip( ) ? 1 : -1);
            d.cls( "longitude near zero");
            }
            break;
         case 2: if( d.rare( 10)) { jd = d.pick( std::vector<double>{ -1., 0., 1., 2444239.5 }); break; }
            /* fall through */
         default: jd = any_jd( d);
         }
      double r[7];
      for( int i = 0; i < 7; i++) r[i] = 9.e+9;
      d.note( "gust86_posn( %.17g, %d, .)", jd, s);
      d.cls( name[s]);
      d.nontrivial( jd - floor( jd) != .5);
      quiet_gust( jd, s, r);
      v3 x, v;
      ld per;
      gust_xyz( jd, s, x, v, &per);
      const ld turns = fabsl( jd - 2444239.5L) / per * 2 * pil + 1;
      const ld tol = len( x) * (3e-9L + turns * 2e-15L);
      REQUIRE( apart( x, r) < tol, "JD %.9f %s: %s, the theory gives %s", jd, name[s], show( r).c_str( ), show( x).c_str( ));
      REQUIRE( apart( v, r + 3) < tol / len( x) * len( v), "JD %.9f %s: velocity %s, the theory gives %s", jd, name[s], show( r + 3).c_str( ), show( v).c_str( ));
      REQUIRE( r[6] == 9.e+9, "more than six numbers were stored");
      }
}

            /* ---- mechanics ---- */
static const ld eps0 = 23.43929111111L * rad;
static v3 place( int who, double jd, ld *per, ld *gm, ld *ra, ld *dec)           /* J2000 equatorial, km */
{
   double v[7];
   v3 r;
   const ld T = (jd - 2451545.L) / 36525.L;
   if( who < 36)
      {
      evaluate_rock( jd, tab[who].id, v);
      for( int i = 0; i < 3; i++) r.x[i] = v[i];
      *per = fabsl( 360.L / tab[who].n / 86400.L);
      }
   else if( who < 39)
      {
      htc20( jd, who - 36, v, NULL);
      for( int i = 0; i < 3; i++) r.x[i] = v[i] * au_km;
      r = rotx( r, eps0);
      *per = who == 36 ? 2.737L : 1.888L;
      }
   else
      {
      static const ld P[5] = { 2.520L, 4.144L, 8.706L, 13.463L, 1.413L };
      quiet_gust( jd, who - 39, v);
      for( int i = 0; i < 3; i++) r.x[i] = v[i] * au_km;
      *per = P[who - 39];
      }
   switch( who < 36 ? tab[who].id / 100 : (who < 39 ? 6 : 7))
      {
      case 4: *gm = 42828.37L; *ra = 317.68143L - .1061L * T; *dec = 52.88650L - .0609L * T; break;
      case 5: *gm = 126686534.L; *ra = 268.056595L - .006499L * T; *dec = 64.495303L + .002413L * T; break;
      case 6: *gm = 37931208.L; *ra = 40.589L - .036L * T; *dec = 83.537L - .004L * T; break;
      case 7: *gm = 5793951.L; *ra = 257.311L - 180.L; *dec = 15.175L; break;
      default: { const ld N = (357.85L + 52.316L * T) * rad; *gm = 6835100.L; *ra = 299.36L + .70L * sinl( N); *dec = 43.46L - .51L * cosl( N); }
      }
   return( r);
}
PROP( mechanics, 60000, 10)
{
   const int who = (int)d.ival( 0, 43);
   const double jd = draw_jd( d, 2415020., 2488070.);
   const int id = who < 36 ? tab[who].id : (who < 39 ? 612 + who - 36 : (who < 43 ? 701 + who - 39 : 705));
   d.note( "%s %d at JD %.9f", who < 36 ? "rock" : (who < 39 ? "htc20" : "gust86"), id, jd);
   d.cls( who < 36 ? "rock" : (who < 39 ? "htc20" : "gust86"));
   d.nontrivial( jd - floor( jd) != .5);
   ld per, gm, ra, dec;
   const v3 b = place( who, jd, &per, &gm, &ra, &dec);
   const double h = (double)floorl( per * 1048576.L / 50.L) / 1048576.;
   const v3 a = place( who, jd - h, &per, &gm, &ra, &dec), c = place( who, jd + h, &per, &gm, &ra, &dec);
   const ld r = len( b), want = gm / (r * r) * 86400.L * 86400.L, nh = 2 * pil * h / per;
   v3 acc, vel;
   for( int i = 0; i < 3; i++)
      {
      acc.x[i] = (a.x[i] - 2 * b.x[i] + c.x[i]) / ((ld)h * h);
      vel.x[i] = (c.x[i] - a.x[i]) / (2.L * h) * (1 + nh * nh / 6);
      }
   const ld got = len( acc) * (1 + nh * nh / 12), off = (pil - angle( acc, b)) / rad;
   const v3 pole = { { cosl( ra * rad) * cosl( dec * rad), sinl( ra * rad) * cosl( dec * rad), sinl( dec * rad) } };
   const ld tilt = angle( cross( b, vel), pole) / rad;
   d.note( "accel/(GM/r^2) = %.6Lf, %.4Lf deg off centre, tilt %.3Lf deg", got / want, off, tilt);
   const bool co = (who >= 36 && who < 39);             /* HTC20 is only good to thousands of km */
   REQUIRE( id == 725 || id == 726 || id == 727 || fabsl( got / want - 1) < (co ? .04L : (id > 700 && who >= 39 ? .002L : .009L)), "satellite %d: acceleration is %.5Lf of GM/r^2", id, got / want);
   REQUIRE( off < (co ? .3L : .05L), "satellite %d: acceleration is %.4Lf degrees off the direction to the planet", id, off);
   static const std::map<int, std::pair<ld, ld>> tilts = { { 401, { .95L, 1.2L } }, { 402, { .85L, 2.75L } }, { 505, { .37L, .41L } }, { 514, { 1.05L, 1.09L } },
         { 610, { .15L, .19L } }, { 611, { .3L, .35L } }, { 612, { .1L, .42L } }, { 613, { .45L, 1.17L } }, { 614, { 1.44L, 1.9L } }, { 701, { 0, .2L } }, { 702, { .02L, .32L } },
         { 703, { .0L, .25L } }, { 704, { 0, .25L } }, { 705, { 4.2L, 4.48L } }, { 708, { .17L, .2L } }, { 715, { .32L, .35L } }, { 725, { .52L, .56L } }, { 801, { 156.9L, 157.6L } },
         { 803, { 4.1L, 5.4L } } };
   auto lim = tilts.find( id);
   if( lim != tilts.end( )) REQUIRE( tilt > lim->second.first && tilt < lim->second.second, "satellite %d: the orbit is tilted %.3Lf degrees to the planet's equator", id, tilt);
   else REQUIRE( tilt < (id > 800 ? .8L : .2L), "satellite %d: the orbit is tilted %.3Lf degrees to the planet's equator", id, tilt);
                  /* velocities */
   double x[3], v[6];
   ld scale = 0;
   if( who >= 39) { quiet_gust( jd, who - 39, v); memmove( v, v + 3, 3 * sizeof( double)); scale = au_km * 86400.L; }
   else if( who >= 36) { htc20( jd, who - 36, x, v); scale = au_km; }
   if( scale)
      {
      v3 w = { { v[0] * scale, v[1] * scale, v[2] * scale } };
      if( who < 39) w = rotx( w, eps0);
      ld diff = 0;
      for( int i = 0; i < 3; i++) diff += powl( w.x[i] - vel.x[i], 2);
      diff = sqrtl( diff) / len( vel);
      d.note( "velocity %.6Lf off", diff);
      REQUIRE( diff < (who >= 39 ? .0006L : .007L), "satellite %d: velocity is off by %.5Lf of itself from the change of position", id, diff);
      }
}

PROP( companions, 20000, 12)
{
   const int s = (int)d.ival( 0, 2);
   const double jd = draw_jd( d, 2433282., 2473400.);
   static const char *name[3] = { "Helene", "Telesto", "Calypso" };
   d.note( "%s at JD %.9f", name[s], jd);
   d.cls( name[s]);
   d.nontrivial( jd - floor( jd) != .5);
   double x[3], y[3];
   htc20( jd, s, x, NULL);
   calc_ssat_loc( jd, y, s ? 2 : 3, 0L);
   const double y2000 = (jd - 2451545.) / 36525. * 5029. / 3600.;
                  /* longitude in the orbit from the node on the ecliptic: plane 28 degrees tilted; enough at this precision */
   v3 a = { { x[0], x[1], x[2] } }, b = { { y[0], y[1], y[2] } };
   b = rotz( b, -y2000 * rad);
   const ld node = 169.5L * rad, inc = 28.05L * rad;
   a = rotx( rotz( a, -node), -inc);
   b = rotx( rotz( b, -node), -inc);
   const ld lead = remainderl( atan2l( a.x[1], a.x[0]) - atan2l( b.x[1], b.x[0]), 2 * pil) / rad;
   d.note( "leads by %.3Lf", lead);
   const ld dev = fabsl( lead) - 60.L;
   REQUIRE( (s == 2) == (lead < 0), "%s is %.3Lf degrees ahead", name[s], lead);
   REQUIRE( fabsl( dev) < 25.L, "%s is %.3Lf degrees from its companion", name[s], lead);
}
