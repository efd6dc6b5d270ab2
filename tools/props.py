PROPS = []
NOT_APPLICABLE = []
def P(**k):
    PROPS.append(k)

P(id="C01", title="Western calendar dates and day numbers are exact inverses under the civil rules",
  statement="For the Gregorian, Julian and mixed (switching on 4/15 October 1582) calendars, every date that exists converts to the day number the calendar's leap-year rules give, every day number converts back to exactly that date, and consecutive day numbers are consecutive dates. Month lengths follow the same rules, for negative years too, and the decimal-day conversion keeps the fraction of the day.",
  for_all="all dates and day numbers within about 5.8 million years of year zero, all three calendars",
  why="Tests convert a handful of modern dates; leap-year arithmetic for negative, century and far years, and the 1582 seam, need every year and month boundary.",
  files=["date.cpp", "date.h", "miscell.cpp"], mech=[("year arithmetic and month tables", "date.cpp"), ("year search", "date.cpp day_to_dmy")],
  technique="property-based testing: generated dates against an independent era-arithmetic model, round trip and successor relation",
  note="random years in +-5.8e6 with boundary bias, whole-year sweeps")
P(id="C02", title="Hebrew, Islamic, Persian, Revolutionary, Chinese calendars follow their rules",
  statement="In the Hebrew (from year 1), Islamic, both Persian, French Revolutionary and Chinese calendars every year is made of exactly the months and month lengths its rules prescribe, consecutive years join without gap or overlap, and date and day number convert to each other exactly. Rule-based calendars match their published rules; astronomical ones begin their years and months at the equinoxes and new moons that define them, and the Chinese intercalary month is reported where published. Jalali and Chinese dates outside the supported span are reported as such.",
  for_all="every year of each calendar's span (Hebrew 1..200000, Islamic and modern Persian -100000..200000, Revolutionary +-50000, Jalali -1096..2327, Chinese -363..9636) and every day in it",
  why="Tests convert a few Hebrew dates; rare combinations (postponement rules, table edges, intercalary thirteenth months) occur once in centuries.",
  files=["date.cpp", "date.h", "chinese.h", "chinese.dat"], mech=[("per-calendar year data", "date.cpp"), ("packed Chinese table", "chinese.h")],
  technique="property-based testing: whole-year walks against independent calendar models and astronomical equinox/new-moon oracles",
  note="whole-year walks and single dates over the full span of each calendar")
P(id="C03", title="Easter falls where the ecclesiastical rules put it, for every year",
  statement="For every year from 1583 the Gregorian Easter date, and for every year from 1 the Julian one, is the Sunday after the ecclesiastical full moon given by the epact and golden-number tables, between 22 March and 25 April. The dates repeat after 5,700,000 and 532 years respectively.",
  for_all="years 1583..10 million (Gregorian), 1..10 million (Julian)",
  why="Tests print 75 years, one frequency table and the years of one date; the exceptional epacts 24 and 25 and far centuries are rarely met.",
  files=["easter.cpp"], mech=[("Spencer Jones algorithm", "easter.cpp")],
  technique="property-based testing: generated years, and the lists of the program, against an epact-table model",
  note="random years, full cycle; 1,500 lists of the program")
P(id="T01", title="Formatted times show the right calendar date, units and rounding",
  statement="Formatting an instant gives exactly the requested layout (order, padding, separators, month names, weekday, day or hour/minute/second units, decimals) with every unit in range and the value truncated, or rounded when asked, at the last shown digit. The text never exceeds the documented buffer, and splitting an instant into year, month, day, hour, minute and second reassembles to the same instant.",
  for_all="all instants in years -9999..9999, all combinations of layout flags and precisions, Gregorian/Julian/mixed calendars",
  why="Tests format a few dozen instants; carries across second/day/month/year boundaries and rare flag combinations need generated instants next to the boundaries.",
  files=["miscell.cpp", "date.h", "afuncs.h"], mech=[("layout and rounding", "miscell.cpp full_ctimel"), ("splitting", "miscell.cpp split_time")],
  technique="property-based testing: instants x layouts against an independent integer-tick formatter",
  note="millions of instants biased to unit boundaries; decimal-year and JD layouts with tolerance")
P(id="T02", title="Every documented date/time notation is parsed to the instant it names",
  statement="A date or time written in any supported notation (all field orders, month names, FITS/ISO, compact MPC-style, JD/MJD, decimal years, day of year, weekday, offsets, partial dates, relative times, lunar phases) is read as the instant it denotes, whatever the capitalisation, separators, precision or sign. Text that is no date is reported as unparsed rather than guessed at.",
  for_all="all instants in the supported years rendered in all supported notations, and reference times for relative notations",
  why="Tests parse a fixed list of strings; the disambiguation rules interact with year ranges, field widths and separators.",
  files=["get_time.cpp", "miscell.cpp"], mech=[("time parsing", "get_time.cpp get_time_from_stringl")],
  technique="property-based testing: grammar-based rendering of a known instant, parse compared with it",
  note="three million texts over seven notation families")
P(id="T03", title="Formatting a time and parsing the text gives the same time back",
  statement="For every layout that carries the full date, parsing the formatted text gives the original instant to within the shown precision, and repeating the round trip changes nothing further. This includes names, day/month/year orders, decimals and JD/MJD forms.",
  for_all="all instants in years -9999..9999 and all self-contained layouts",
  why="The formatter and parser are only tested separately on fixed inputs; their agreement must hold for every instant and layout.",
  files=["get_time.cpp", "miscell.cpp"], mech=[("formatter", "miscell.cpp full_ctimel"), ("parser", "get_time.cpp")],
  technique="property-based testing: round trip and idempotence over generated instants and layouts",
  note="two million round trips")
P(id="T04", title="UTC to dynamical time conversion follows the leap-second record",
  statement="The difference between dynamical time and UTC equals 32.184 s plus the published TAI-UTC value (rate-offset segments 1961-1971, leap seconds from 1972) at every instant, changing exactly at the published dates; future leap seconds fall only at the start of January or July and stop at the configured cut-off. The barycentric variant adds the published periodic terms, in seconds.",
  for_all="all UTC instants 1900-2600 and all cut-off settings",
  why="A handful of fixed instants cannot show that each of the 41 steps lies on the right day with the right size.",
  files=["delta_t.cpp", "afuncs.h"], mech=[("leap-second table", "delta_t.cpp td_minus_utc"), ("TDB terms", "delta_t.cpp tdb_minus_tdt")],
  technique="property-based testing: generated instants biased to step dates against the USNO table",
  note="2.7 million instants, biased to steps")
P(id="T05", title="Delta-T follows the published model and user-supplied formulae",
  statement="Delta-T equals the published polynomials before 1620, interpolates the observed table between 1620 and the table's end, and is extrapolated smoothly beyond it. A user-supplied formula applies exactly in the year ranges it states, and clearing it restores the default, in any sequence of settings.",
  for_all="all instants in years -10000..12000; all sequences of setting, clearing and querying",
  why="The result is piecewise with many joins and depends on the history of settings.",
  files=["delta_t.cpp"], mech=[("default model", "delta_t.cpp default_td_minus_ut"), ("user formula", "delta_t.cpp evaluate_poly, reset_td_minus_dt_string")],
  technique="property-based testing: reference model of Delta-T; stateful histories of user formulae",
  note="1.3 million cases", over=["inputs", "histories"])
P(id="D01", title="Packed and full minor-body designations convert both ways without change",
  statement="Every well-formed designation (numbered and provisional minor planets, survey designations, comets and fragments, natural and artificial satellites, including the extended schemes) packs to the 12-column form the Minor Planet Center defines, and that form unpacks to the same designation and kind of object. Text that is no designation is never packed into, or unpacked as, a different object.",
  for_all="all designations of each family: numbers 1..15396335, years 1600..2099, all cycle counts, all fragments, satellites 1..999",
  why="Tests hold about fifty designations; base-62 carries, skipped letters, field widths and the hand-over between schemes need the whole range.",
  files=["mpc_fmt.cpp", "unpack.cpp", "mpc_func.h"], mech=[("packing", "mpc_fmt.cpp create_mpc_packed_desig"), ("unpacking", "unpack.cpp unpack_mpc_desig")],
  technique="property-based testing: designation grammar with an independent packing model; round trip both ways; near-miss inputs",
  note="5.7 million designations")
P(id="D02", title="Base-62 numbers, catalogue codes and variable-star names are consistent",
  statement="Base-62 numbers encode and decode exactly, with overflow and non-digits reported; every astrometric catalogue code maps to its published name and every usual spelling of that name (case, dashes, spaces, Gaia with or without 'DR') maps back. The n-th variable star of a constellation gets the designation of the traditional order (R..Z, RR..ZZ, AA..QZ without J, V335...) and the designation gives n back.",
  for_all="all values below 62^5, all codes and spellings, variable-star numbers 1..9999",
  why="No test covers catalogue names or variable stars; the ordering has several irregular seams.",
  files=["unpack.cpp", "mpc_fmt.cpp", "miscell.cpp"], mech=[("base 62", "unpack.cpp"), ("catalogue names", "mpc_fmt.cpp net_name_to_byte_code"), ("variable stars", "miscell.cpp make_var_desig")],
  technique="property-based testing: model comparison and round trip over generated values and spellings",
  note="2.9 million cases")
P(id="O01", title="Observation dates in all supported column layouts give the right instant",
  statement="The date of an 80-column observation record, in any documented layout (year month decimal-day with or without leading zeros, JD, MJD, compact date with decimals or clock time), is read as the exact instant with the layout and number of decimals identified, radar times being rounded to the second. The rest of the record has no influence, and records of the wrong length or with a damaged date, note column or station code are refused.",
  for_all="all dates of years 1..9999 (1700..2099 in compact form), all layouts and precisions, arbitrary other columns",
  why="The repository has no test of this parser; layouts are told apart by digit patterns.",
  files=["mpc_fmt.cpp", "mpc_func.h"], mech=[("date columns", "mpc_fmt.cpp extract_date_from_mpc_report")],
  technique="property-based testing: rendered records against independent day-number arithmetic; damaged records",
  note="2.2 million records")
P(id="O02", title="Right ascensions and declinations are read and written exactly in every format",
  statement="An RA or declination in any documented format (sexagesimal with any decimals, decimal hours or degrees, packed high precision, free text) is read to its exact value, with format, precision and sign identified; malformed fields are refused. Writing an angle in a format gives the correctly rounded fixed-width text, and reading it back gives the same format and the angle to half a unit of the last digit.",
  for_all="all angles and all formats; both signs, including values that round to zero or carry over",
  why="The repository has no test of these functions; carries (59.9996 s) and tiny negative declinations need generated values.",
  files=["mpc_fmt.cpp", "mpc_fmt2.cpp", "mpc_code.cpp"], mech=[("record fields", "mpc_fmt.cpp get_ra_dec"), ("output", "mpc_fmt2.cpp output_angle_to_buff"), ("free text", "mpc_code.cpp _get_angle")],
  technique="property-based testing: reference integer formatter/reader, round trip, rejected inputs",
  note="5.4 million fields")
P(id="G01", title="Observatory positions are read exactly; geodetic and parallax forms agree",
  statement="Observer locations given as observatory-list records, rover records (decimal or base 60, any body), comment lines or free text are read to the stated longitude, latitude, altitude and parallax constants; contradictory or out-of-range text is refused. Latitude/altitude and parallax constants are exact inverses on the body's ellipsoid, everywhere from pole to pole, and region lookup returns the first rectangle containing the point.",
  for_all="all latitudes, longitudes and altitudes, all notations",
  why="Tests read ten lines; poles, equator, meridian, signs and unit conversions need generated positions.",
  files=["mpc_code.cpp", "mpc_func.h"], mech=[("records", "mpc_code.cpp get_mpc_code_info"), ("ellipsoid", "mpc_code.cpp point_to_ellipse, lat_alt_to_parallax"), ("free text", "mpc_code.cpp extract_lat_lon")],
  technique="property-based testing: rendered positions against an independent ellipsoid model; inverse relation; brute-force nearest point",
  note="3.7 million positions; ellipsoid inverse for axis ratios .85-.998")
P(id="K01", title="Two-body positions and velocities follow Kepler's laws for every orbit",
  statement="For circular to strongly hyperbolic orbits of any size and orientation, the eccentric anomaly returned satisfies Kepler's equation to rounding (and is odd and repeats every revolution), the position and velocity at any time are those of exact two-body motion, the derived quantities (axis, period scale, angular momentum, perihelion vectors, longitude of perihelion) match their definitions, and results do not depend on what was asked before. The H-G phase correction follows its published formula.",
  for_all="eccentricities 0..1000 including the parabola and its neighbourhood, any orientation, any time",
  why="The repository's tests exercise a few ordinary asteroids; the solver switches method at e=.8, .9, 1 and by mean anomaly.",
  files=["astfuncs.cpp"], mech=[("Kepler's equation", "astfuncs.cpp kepler"), ("propagation", "astfuncs.cpp comet_posn_part_ii, comet_posn_and_vel"), ("derived quantities", "astfuncs.cpp derive_quantities, setup_orbit_vectors")],
  technique="property-based testing: comparison with a long-double universal-variable propagator; residual of Kepler's equation; call histories",
  note="3.5 million orbits")
P(id="K02", title="State vectors and orbital elements convert into each other without loss",
  statement="Elements computed from a position and velocity have the true perihelion distance, eccentricity, inclination, node, argument and time of perihelion, whatever the orbit's shape or orientation (also circular, in the reference plane, polar, retrograde, parabolic), and reproduce and propagate the state they came from, both as returned and after recomputing the derived quantities from the angles alone.",
  for_all="all two-body states out to 100 perihelion distances",
  why="Degenerate planes and near-circular or near-parabolic orbits are never reached by fixed examples.",
  files=["classel.cpp", "astfuncs.cpp"], mech=[("state to elements", "classel.cpp calc_classical_elements"), ("elements to state", "astfuncs.cpp comet_posn_and_vel")],
  technique="property-based testing: round trip against a long-double universal-variable propagator with conditioned tolerances",
  note="1.2 million states")
P(id="E01", title="Orbital elements are read exactly from SOF, MPCORB, ASTORB and Guide records",
  statement="Elements in an SOF record (columns in any order and width), an mpcorb.dat or astorb.dat line or a compressed Guide record are read to the printed values, with angles in radians, the epoch and the nearest perihelion in Julian days, and positions follow from them. Records lacking a needed field or of the wrong layout are refused. Converting an mpcorb/ELEMENTS.COMET pair to SOF and reading that back preserves every object, its name and its elements.",
  for_all="all printable elements (any inclination and axis), all column orders, any number of asteroids and comets",
  why="No test reads these formats; field positions, calendar and unit slips only show for particular values.",
  files=["sof.cpp", "mpcorb.cpp", "mpc2sof.cpp", "astfuncs.cpp"], mech=[("SOF", "sof.cpp extract_sof_data_ex"), ("MPCORB and ASTORB", "mpcorb.cpp"), ("Guide", "astfuncs.cpp setup_elems_from_ast_file"), ("converter", "mpc2sof.cpp")],
  technique="property-based testing: rendered records read back and compared with the rendered values; converter round trip in a scratch directory",
  note="1.7 million records")
P(id="E02", title="Displayed orbital elements state the true values in every line",
  statement="The MPC-style element display shows, for any orbit, central body, precision and option, the correct pericentre name, dates (calendar, clock and JD), angles reduced to 0-360 degrees, equatorial P and Q vectors, distances in AU or km with their unit, mean motion, period in the unit indicated and magnitudes: each number agrees with the element to the last digit shown, in the documented number of lines.",
  for_all="all bound and unbound orbits, 16 precisions, all option flags",
  why="No test looks at this output; digit truncation, unit switches and column shifts are value-dependent.",
  files=["showelem.cpp", "showelem.h"], mech=[("display", "showelem.cpp elements_in_mpc_format")],
  technique="property-based testing: every labelled number is parsed back and compared with the generated element",
  note="2.5 million orbits")
P(id="M01", title="The MOID is the least distance between two orbits, with matching details",
  statement="The minimum orbit intersection distance of a bound orbit and any other orbit is never less than the true least distance between the two curves, and equals it to within the search's stated tolerance whenever the least distance is separated from the nearest maximum by more than two of its five-degree steps. The reported details (true anomaly and date at which the first object is there, relative speed) belong to that same closest pair of points. Built-in orbits for the planets are those of the JPL table at the requested date, and unknown planet numbers are refused.",
  for_all="first orbits with e < .9 (and all fifteen built-in ones), second orbits elliptic, parabolic or hyperbolic with q from .05 to 20 times as large; crossing, near-tangent, coplanar, polar and retrograde planes; all planet numbers",
  why="Tests compute MOIDs for a handful of comets; tangencies, coplanar pairs, nodes and pruned ranges need generated geometry.",
  files=["moid.cpp", "mpc_code.cpp", "brentmin.cpp"], mech=[("search along the second orbit", "moid.cpp find_moid_full"), ("distance to an ellipse", "mpc_code.cpp point_to_ellipse"), ("planet table", "moid.cpp setup_planet_elem")],
  technique="property-based testing: generated orbit pairs against an exhaustive one-dimensional search with an independent point-to-ellipse distance; existential check of the details",
  note="100000 pairs; minima closer than two grid steps to a maximum are only bounded from below")
P(id="M02", title="One-dimensional minimization brackets and converges to a minimum",
  statement="Starting from any bracketing triple, the minimizer only asks for points inside the bracket, keeps a bracket around a local minimum, terminates within a bounded number of steps, and ends within its tolerance of a local minimum of the function. The parabola through three points has the vertex that exact arithmetic gives.",
  for_all="smooth, kinked, skewed and flat unimodal functions, any bracketing triple and tolerance",
  why="The minimizer keeps state between calls; tests reach it only through a few MOIDs.",
  files=["brentmin.cpp", "brentmin.h"], mech=[("step selection and bracket update", "brentmin.cpp")], over=["inputs", "histories"],
  technique="property-based testing: stateful runs of the minimizer on generated functions with known minima",
  note="millions of runs")
P(id="P01", title="Precession carries positions between any two epochs by a proper rotation",
  statement="The matrix for precessing between any two epochs, equatorial or ecliptic, with or without nutation, is a proper rotation equal to the composition of the published precession angles, whichever other epochs were asked for before. Precessing there and back returns the position, going through an intermediate epoch gives the same as going directly, and RA/dec and vector forms of the operation agree. Conversions between ecliptic and equatorial, vector and spherical form are exact inverses.",
  for_all="all pairs of years from -12000 to 16000, all directions, all histories of requests",
  why="Tests precess a few positions to or from 2000; the matrices are cached between calls and composed differently when neither epoch is 2000.",
  files=["precess.cpp", "eart2000.cpp", "miscell.cpp", "obliquit.cpp"], mech=[("matrix set-up", "precess.cpp"), ("rotations", "miscell.cpp")], over=["inputs", "histories"],
  technique="property-based testing: request histories against an independent composition of the published angles in long double",
  note="1.4 million requests")
P(id="P02", title="Nutation, obliquity and sidereal time equal their published series",
  statement="Nutation in longitude and obliquity is the sum of the 106-term IAU 1980 series, whichever of the two is asked for; the mean obliquity is Laskar's polynomial within 10000 years of 2000 and its end value outside, whatever was asked before; and Greenwich sidereal time is the IAU 1982 expression at any instant, advancing evenly through midnight and across the years.",
  for_all="all instants from -10000 to +14000; all histories of obliquity requests",
  why="Tests print three nutations; a wrong coefficient, cached obliquity or branch shows only at other instants.",
  files=["nutation.cpp", "obliquit.cpp", "miscell.cpp", "alt_az.cpp"], mech=[("nutation series", "nutation.cpp"), ("obliquity and its cache", "obliquit.cpp mean_obliquity"), ("sidereal time", "alt_az.cpp green_sidereal_time")], over=["inputs", "histories"],
  technique="property-based testing: generated instants against long-double reference series",
  note="1.5 million instants; the misplaced secular terms are a known finding")
P(id="A01", title="Horizon and equatorial coordinates convert exactly, anywhere on earth",
  statement="For any observer, instant and direction, altitude, azimuth (from south through west), hour angle and position of date computed from RA/dec are those of the direction relative to the observer's zenith and meridian, including precession and nutation; the optional outputs don't affect the others. Converting an altitude and azimuth (from north through east) to J2000 RA/dec is the exact inverse, at the poles and past the zenith too.",
  for_all="all latitudes including both poles, all instants from -1000 to 5000, all directions",
  why="No test calls these; polar observers, the meridian and the zenith are special cases.",
  files=["alt_az.cpp"], mech=[("RA/dec to horizon", "alt_az.cpp full_ra_dec_to_alt_az"), ("horizon to RA/dec", "alt_az.cpp full_alt_az_to_ra_dec"), ("polar cases", "alt_az.cpp ra_dec_to_alt_az, alt_az_to_ra_dec")],
  technique="property-based testing: generated observers and directions against vector geometry in long double; there-and-back round trip",
  note="2 million conversions")
P(id="A02", title="Galactic and supergalactic coordinates follow their defining poles and nodes",
  statement="Converting J2000 RA/dec to galactic or supergalactic latitude and longitude gives the angles fixed by the systems' defining poles and nodes, the reverse conversion is its inverse, and both matrices are proper rotations.",
  for_all="all directions, angles up to several turns",
  why="Tests only print one matrix; a transposed element or swapped argument shows in directions not sampled.",
  files=["alt_az.cpp", "precess.cpp"], mech=[("matrices", "alt_az.cpp j2000_to_galactic_matrix, j2000_to_supergalactic_matrix"), ("conversions", "alt_az.cpp")],
  technique="property-based testing: generated directions against rotations built from the defining poles; round trip",
  note="1.5 million directions; tolerance follows the matrices' eight to ten digits")
P(id="B01", title="Every point of the sky is in the constellation the IAU boundaries give it",
  statement="Looking up a point (equinox 1875) yields one of the 88 constellations with matching index and abbreviation, depending only on the cell of one second of RA by one arcminute the point is in and not on whole turns of RA. The regions so defined have the areas published for the IAU constellations, contain the stars they should, and both poles.",
  for_all="all points of the sphere, any number of turns of RA; whole-sky surveys",
  why="No test looks up a constellation; 324 packed boundaries and a binary search leave countless places for an error.",
  files=["conbound.c"], mech=[("boundary table and search", "conbound.c constell_from_ra_dec")],
  technique="property-based testing: generated points with metamorphic relations; generated whole-sky surveys against published areas",
  note="1.7 million points and 3 full-sky surveys of 30 million lookups")
P(id="N02", title="Satellites of Jupiter, Saturn and Neptune follow their theories and mechanics",
  statement="The positions given for the Galilean satellites, the classical satellites of Saturn and Triton are those of the published theories (Lieske's E5 as given by Meeus, Dourneau, the Explanatory Supplement) in the documented frame and units, whichever subset is asked for and whatever was asked before; satellites not asked for are zero, and a number that is no satellite is refused without a position being stored. The motion obeys mechanics: the satellites accelerate towards the planet by GM/r^2, orbit at the right tilt to the equator, and Io, Europa and Ganymede keep their resonance.",
  for_all="all instants -3000..7000, all subsets and histories of requests",
  why="No test computes a satellite's place; a coefficient or argument that is off shifts a satellite by hundreds of km at some phases only.",
  files=["jsats.cpp", "ssats.cpp", "triton.cpp", "lunar.h"], mech=[("Galilean satellites", "jsats.cpp calc_jsat_loc"), ("Saturn", "ssats.cpp set_ssat_elems, calc_ssat_loc"), ("Triton", "triton.cpp calc_triton_loc")], over=["inputs", "histories"],
  technique="property-based testing: instants and histories against independent long-double transcriptions of the published series, and mechanical invariants",
  note="600,000 positions")
P(id="N03", title="Inner moons, co-orbitals and Uranian moons follow published data and mechanics",
  statement="The positions (and velocities where given) of the 36 satellites modelled as precessing ellipses, of Helene, Telesto and Calypso (HTC20) and of the five classical satellites of Uranus (GUST86) are those the published elements and coefficients give, in the documented frame and units, whatever satellite or instant was asked for before; numbers that are no satellite are refused and store nothing. Velocity is the rate of change of position, acceleration is GM/r^2 towards the planet, orbits lie at the published tilt, co-orbitals stay about 60 degrees from their companions.",
  for_all="all instants -3000..7000, all satellites, histories of requests",
  why="Tests print a few positions of Uranus' satellites on one date; the ellipses and co-orbitals are untested, and caching depends on the history of requests.",
  files=["rocks.cpp", "htc20b.cpp", "gust86.cpp", "gust86.h"], mech=[("precessing ellipses", "rocks.cpp evaluate_rock"), ("HTC20", "htc20b.cpp htc20"), ("GUST86", "gust86.cpp gust86_posn")], over=["inputs", "histories"],
  technique="property-based testing: instants and histories against the published data evaluated independently in long double, and mechanical invariants",
  note="300,000 positions")
P(id="R01", title="Refraction is that of the stated atmosphere, and reverses exactly",
  statement="Integrated refraction, for any observed altitude from horizon to zenith and any wavelength, height below the tropopause, temperature, pressure and humidity, is the bending of a ray through the Explanatory Supplement's atmosphere (a moist hydrostatic troposphere of constant lapse rate under an isothermal stratosphere), to a few tenths of an arcsecond at the horizon and hundredths well above it. Reversing it from the true altitude gives the same refraction. The simple and Saastamoinen formulae are those published, agree with the integration in ordinary conditions, and reverse likewise; refraction never increases with altitude.",
  for_all="all altitudes and atmospheric conditions",
  why="No test calls the refraction functions; quadrature and iteration fail at particular altitudes and conditions (the zenith, grazing rays, humid air).",
  files=["refract.cpp", "refract4.cpp"], mech=[("integration", "refract4.cpp integrated_refraction, total_refraction"), ("inverse", "refract4.cpp reverse_integrated_refraction, refract.cpp reverse_refraction"), ("formulae", "refract.cpp")],
  technique="property-based testing: ray tracing in long double through an independently integrated atmosphere; round trips; agreement of the models",
  note="94,000 cases, 4,000 of them traced")
P(id="R02", title="Sky brightness, extinction and limiting magnitude follow Schaefer's model",
  statement="For any observing conditions and point in the sky, the brightness of the sky in each band requested is the sum of the night sky, moonlight (fading quickly once the moon sets) and the lesser of twilight and daylight by Schaefer's published model; extinction is that of Rayleigh scattering, aerosols, ozone and water vapor along their own air masses and never decreases away from the zenith; the limiting magnitude follows from brightness and extinction. Bands not requested, the conditions and the other results are left alone, whatever the sequence of requests.",
  for_all="all observing conditions, points, sets of bands and sequences of requests",
  why="No test calls these functions; each term dominates in some conditions only (twilight, thin moonlight, saturated air, low sun).",
  files=["vislimit.cpp"], mech=[("conditions", "vislimit.cpp set_brightness_params"), ("brightness", "vislimit.cpp compute_sky_brightness"), ("extinction and limit", "vislimit.cpp compute_extinction, compute_limiting_mag")], over=["inputs", "histories"],
  technique="property-based testing: generated conditions and sequences of requests against the published model in long double; monotonicity and symmetry relations",
  note="1,200,000 cases")
P(id="R03", title="Color indices convert by the published relations and invert exactly",
  statement="Conversions among B-V, V-R and V-I follow the published polynomials, and those from Tycho to Johnson colors the published tables interpolated, throughout their ranges, ends included; outside them every conversion says so. V-R to V-I and B-V to V-I are the exact inverses of V-I to V-R and V-I to B-V for every color in range, and different routes between the same indices agree to a few hundredths.",
  for_all="all color indices, in and out of range",
  why="No test converts a color; an iterative inverse or a table lookup fails at particular values.",
  files=["colors.cpp", "colors2.cpp"], mech=[("polynomials and inverses", "colors.cpp compute_color_polynomial, compute_inverse_color_polynomial"), ("Tycho", "colors2.cpp tycho_to_johnson_colors, colors.cpp")],
  technique="property-based testing: generated colors against polynomials and Neville interpolation in long double; round trips through the inverses",
  note="6,000,000 conversions")
P(id="S01", title="Distances and position angles on a sphere are exact at all separations",
  statement="The distance between two points on a sphere is right to the last digits at any separation from nothing to antipodal, at the poles as elsewhere, the position angle (from north, against increasing longitude) points from the first toward the second, and identical points are reported as having none. Moving from a point by a distance and position angle arrives where spherical geometry says.",
  for_all="all pairs of points, all distances and position angles",
  why="One test compares 50000 distances with an arccosine; tiny and antipodal separations and the position angle need an exact reference.",
  files=["dist_pa.cpp"], mech=[("distance and angle", "dist_pa.cpp calc_dist_and_posn_ang"), ("reverse", "dist_pa.cpp reverse_dist_and_posn_ang")],
  technique="property-based testing: generated pairs against cancellation-free formulas in long double",
  note="3 million pairs")
P(id="S02", title="Geodesic distances and directions on the ellipsoid are right everywhere",
  statement="On any ellipsoid from a sphere to a flattening of 1/150, moving from a point along an azimuth for a distance arrives at the geodesic's end point, and the distance and azimuths between two points are those of the shortest geodesic, to half a millimetre on the earth (some millimetres, with a correspondingly less certain azimuth, next to the antipodes), in either direction and with longitudes any number of turns away. The spherical distance is exact to rounding at all separations and Andoyer's formula is within one part in ten thousand away from the antipodes.",
  for_all="all starting points, azimuths, distances and flattenings; all pairs of points including coincident and antipodal ones",
  why="Tests check four pairs; convergence near the antipodes, equatorial and meridional lines and short lines need generated pairs and an exact reference.",
  files=["dist.cpp"], mech=[("Vincenty", "dist.cpp vincenty_earth_dist, vincenty_direct"), ("sphere, Andoyer", "dist.cpp spherical_earth_dist, earth_dist")],
  technique="property-based testing: generated geodesics against Bessel's integrals by quadrature in long double",
  note="1.4 million lines")
P(id="N01", title="Planet orientations equal the published IAU/COSPAR rotation models",
  statement="For the sun, planets, moon and satellites, the orientation matrix at any instant is the one the IAU/WGCCRE expressions for the pole and prime meridian give, in any rotation system, and the rotation rate and radii are those in the data file. Any file in that format is read as written, whatever its comments, blanks, remapped numbers and order of objects; results depend only on the file loaded last, and objects it lacks are reported as unknown.",
  for_all="all objects, systems and instants; all generated data files; all histories of loads and requests",
  why="No test computes an orientation; each term of each expression, the parser and the caches all need generated instants, files and histories.",
  files=["cospar.cpp", "cospar.txt"], mech=[("parser and evaluation", "cospar.cpp get_cospar_data_from_text_file"), ("matrix", "cospar.cpp calc_planet_orientation"), ("expressions", "cospar.txt")], over=["inputs", "histories"],
  technique="property-based testing: generated instants against published expressions in long double; model-based histories over generated data files",
  note="160,000 instants and 15,000 generated file pairs with histories; address sanitizer on")
P(id="P03", title="Earth orientation parameters are those of the IERS file loaded last",
  statement="Once an IERS 'finals' file is loaded, polar motion, Delta-T (continuous across leap seconds) and nutation corrections at any instant within its span are its daily values, joined by a cubic with continuous slope; outside it they are flagged as unavailable and Delta-T falls back on the built-in formula, as it does for Delta-T generally. The load reports the last day and last observed day; a damaged, truncated or missing file is reported and leaves nothing loaded. The earth's orientation matrix combines precession, nutation, sidereal time and polar motion by the IERS conventions.",
  for_all="all generated files, instants and masks; all histories of loads, failures, unloads and requests",
  why="Tests never load such a file; leap seconds, ends of the tables, damaged files and reloading need generated files and histories.",
  files=["eop_prec.cpp", "spline.cpp", "precess.cpp", "delta_t.cpp"], mech=[("loader", "eop_prec.cpp load_earth_orientation_params"), ("interpolation", "eop_prec.cpp get_earth_orientation_params, spline.cpp"), ("orientation", "eop_prec.cpp setup_precession_with_nutation_eops")], over=["inputs", "histories"],
  technique="property-based testing: model-based histories over generated data files against interpolation and matrix composition in long double",
  note="700 generated files of over 16371 lines with up to 200 requests each")
P(id="V01", title="Planetary positions are the sums of the VSOP series, in every frame",
  statement="For any vsop.bin or big_vsop.bin, planet, time and precision, the heliocentric longitude (0 to 2 pi), latitude and distance are the sums of that planet's Poisson series; a nonzero precision only drops terms smaller than it. The built-in theory of the earth gives the sums of its own table and agrees with the sun's apparent motion. The fifteen coordinates of compute_planet are one position - of sun, planet, Pluto or moon - in five consistent frames. A missing or truncated file is reported, and no request depends on those before it or leaves a file open.",
  for_all="all data files, planets, times and precisions; all histories of requests",
  why="The data files aren't in the repository, so tests can't run any of this; indexing of the 144 series, precision limits and the header cache need generated files and histories.",
  files=["vsopson.cpp", "big_vsop.cpp", "eart2000.cpp", "getplane.cpp"], mech=[("in memory", "vsopson.cpp calc_vsop_loc"), ("from file", "big_vsop.cpp calc_big_vsop_loc"), ("earth", "eart2000.cpp get_earth_loc"), ("frames", "getplane.cpp compute_planet")], over=["inputs", "histories"],
  technique="property-based testing: generated data files, times and request histories against sums in long double, under sanitizers",
  note="82,000 cases over 22,000 generated files")
P(id="V02", title="Lunar positions are those of the published theories, at any precision",
  statement="The moon's fundamental arguments, longitude, latitude and distance are the sums of Meeus's chapter 47 over the tables in vsop.bin, with its planetary and flattening terms and the eccentricity factor for each multiple of the sun's anomaly; ELP 2000-82B positions are the sums of the 36 series in elp82.dat, of whatever lengths, in the J2000 ecliptic. A cutoff only drops terms smaller than it. Missing files and headers are reported with zero coordinates, and no file stays open.",
  for_all="all tables, times, cutoffs and data files",
  why="The data files aren't in the repository, so tests can't run this; each series type has its own layout of multipliers and power of time, which only generated files with arbitrary terms exercise.",
  files=["lunar2.cpp", "elp82dat.cpp"], mech=[("Meeus", "lunar2.cpp lunar_fundamentals, lunar_lon_and_dist, lunar_lat"), ("ELP", "elp82dat.cpp compute_elp_xyz, add_in_series")],
  technique="property-based testing: generated data files and times against the published sums in long double, under sanitizers",
  note="30,000 Meeus evaluations, 1,600 generated ELP files")
P(id="V03", title="PS-1996 and Pluto series give the positions and velocities in the file",
  statement="A series loaded from ps_1996.dat for a planet and date gives, for every instant of its block and no other, the position from the block's secular and Poisson terms, whatever widths they are stored in, and on request the velocity, its derivative. Dates outside the file and incomplete data are refused; several series may be in memory at once and no file stays open. Pluto's position is the sum of the series of Meeus's chapter 37, a cutoff dropping only smaller terms.",
  for_all="all data files, dates, and histories of loads and requests",
  why="The data files aren't in the repository, so tests can't run this; packed widths, block boundaries, powers of time in the velocities and several series at once need generated files and histories.",
  files=["de_plan.cpp", "pluto.cpp"], mech=[("load", "de_plan.cpp load_ps1996_series"), ("evaluate", "de_plan.cpp get_ps1996_position"), ("Pluto", "pluto.cpp calc_pluto_loc")], over=["inputs", "histories"],
  technique="property-based testing: generated data files and histories against sums and derivatives in long double, under sanitizers",
  note="6,000 generated files with up to 16 loads and positions each")
P(id="X01", title="ADES observations become the equivalent 80-column records",
  statement="Reading a file with ADES translation yields, for each observation in PSV or XML form, whatever the order, padding and layout of its fields, exactly the comment lines (uncertainties, identifiers, full-precision values) and the one or two 80-column records that state the same designation, time, position, magnitude, observer position and codes; header data become header lines, Tholen-style lines become an uncertainty comment and a plain record, and everything else passes through unchanged. No value carries over from one observation to another, and no damaged document causes a memory error or endless output.",
  for_all="all documents mixing the forms, all subsets and orders of fields, all histories of observations; damaged documents",
  why="No test reads ADES data; a field that leaks into the next observation or lands a column off depends on which fields are present, in what order, and what came before.",
  files=["ades2mpc.cpp", "mpc_fmt.cpp", "mpc_fmt2.cpp"], mech=[("fields", "ades2mpc.cpp process_ades_tag"), ("lines", "ades2mpc.cpp get_a_line"), ("documents", "ades2mpc.cpp xlate_ades2mpc, fgets_with_ades_xlation")], over=["inputs", "histories"],
  technique="property-based testing: generated documents against an independent writer of the 80-column format; structured fuzzing under address and undefined-behaviour sanitizers",
  note="25,000 documents and 60,000 damaged ones")
P(id="X02", title="CGI form data is decoded to exactly the fields and values sent",
  statement="Whatever fields and values a form holds, reading it from a query string, URL-encoded body or multipart body returns them in order, byte for byte (multipart values less their trailing line ends), with the file names given, and then reports the end. Damaged escapes and values too long for the buffer are reported rather than taken as valid; no input makes reading write past a buffer, leave a string unterminated or loop forever.",
  for_all="all forms, permissible encodings and damaged inputs",
  why="No test reads a form; the encodings are a language, and a server sees hostile input.",
  files=["cgi_func.cpp"], mech=[("URL decoding", "cgi_func.cpp get_urlencoded_piece"), ("multipart", "cgi_func.cpp get_multipart_form_data"), ("dispatch", "cgi_func.cpp initialize_cgi_reading, get_cgi_data")],
  technique="property-based testing: encode/decode round trip over generated forms, and structured fuzzing under address sanitizer",
  note="270,000 forms")
P(id="X03", title="Bounded string functions never overrun and report every truncation",
  statement="Copying and appending to a buffer of stated size never writes outside it, always leaves a terminator (unless there was no room for any), keeps the leading part that fits and returns the length that was wanted; the variants for which truncation is an error never return if the text does not fit, and otherwise do the same.",
  for_all="all buffer sizes, texts and histories of operations",
  why="Off-by-one errors show only when a text exactly fills the buffer, which tests never arrange.",
  files=["snprintf.cpp", "stringex.h"], mech=[("copy and append", "snprintf.cpp strlcpy, strlcat"), ("formatted", "snprintf.cpp _sn_append, snprintf_err")], over=["inputs", "histories"],
  technique="property-based testing: model-based histories against an unbounded string, under address sanitizer",
  note="100,000 histories")
P(id="X04", title="Interpolation in tables is exact for polynomials and at the entries",
  statement="Cubic interpolation passes through the table's entries with the documented slopes, so is continuous with its derivative, reproduces quadratics and says when it had to extrapolate. Lagrange interpolation gives the polynomial through the requested number of points nearest the argument, and its derivative, inside and outside the table. Neither reads outside it.",
  for_all="all tables, arguments and numbers of points",
  why="No test calls either; the choice of points near the ends and signs of the weights need generated tables.",
  files=["spline.cpp"], mech=[("cubic", "spline.cpp cubic_spline_interpolate_within_table"), ("Lagrange", "spline.cpp lagrange_interpolate_within_table")],
  technique="property-based testing: generated tables against Neville's scheme and Hermite cubics in long double, under address sanitizer",
  note="600,000 evaluations")
P(id="X05", title="No text makes a parser read or write outside its buffers",
  statement="Every parser of dates, designations, observation records, angles, observatory codes and positions, orbit records and settings takes any text at all, of any length its caller may hold, without reading before or past the text, overrunning its output buffer or leaving it unterminated, changing the text it was given, reading uninitialized memory (its result depends on the text alone), or looping forever; and plain decimal numbers are read as exactly as the C library reads them.",
  for_all="all texts (without NUL bytes) of all lengths",
  why="Tests give parsers good input; the over-read needs a text which ends, or has a stray character, at one specific place.",
  files=["get_time.cpp", "date.cpp", "unpack.cpp", "mpc_fmt.cpp", "mpc_fmt2.cpp", "mpc_code.cpp", "sof.cpp", "mpcorb.cpp", "delta_t.cpp", "miscell.cpp"], mech=[("times", "get_time.cpp get_time_from_string"), ("designations", "unpack.cpp unpack_mpc_desig; mpc_fmt.cpp create_mpc_packed_desig"), ("observatories", "mpc_code.cpp get_mpc_code_info, get_xxx_location_info, get_lat_lon_info"), ("orbits", "sof.cpp extract_sof_data; mpcorb.cpp")],
  technique="structured fuzzing with shrinking: mutated valid texts in memory of exactly their size, under address sanitizer, with determinism checks",
  note="1,100,000 texts for 21 parsers")
P(id="V04", title="Rise, set, transit, moon phase and season times are when they happen",
  statement="For every place and time, the horizontal position of the sun and moon is that of their ecliptic position; an interval is said to hold a rising or setting exactly when they are on different sides of the rise/set altitude at its ends, and the time given is that of the crossing. The moon's upper or lower transit for a date is the instant of hour angle 0 or 180 degrees nearest local noon, with daylight time by US rules. The programs tabulating rise/set, phases and seasons list all the events of the period in order, each at the right time.",
  for_all="years -1000 to 4000, all latitudes and longitudes, dates, time zones and hour-long or other intervals",
  why="No test runs these (the data file isn't there); signs differ by hemisphere and convergence fails only for grazing or far northern events.",
  files=["riseset3.cpp", "lun_tran.cpp", "tables.cpp", "phases.cpp"], mech=[("positions and crossings", "riseset3.cpp fill_planet_data, look_for_rise_set"), ("transits", "lun_tran.cpp get_lunar_transit_time, is_dst"), ("tables", "tables.cpp, phases.cpp main")],
  technique="property-based testing: generated places and times against vector geometry in long double with bisection; program output compared with scans of the reference",
  note="1,600,000 positions, crossings and transits; 3,100 program runs")
P(id="Q01", title="Object checking lists exactly the known objects near each observation",
  statement="Given a file of orbits and a file of observations, the checking program lists for each observed object those, and only those, whose computed positions (with light time and parallax) lie within the search radius, brighter than the magnitude limit and moving as observed, nearest first, with the right offsets, magnitude and motion; so for every part of the sky, and whatever earlier or simultaneous runs left in its cache files: those for other orbits, incomplete ones and foreign ones are never believed. Its search of a given area does the same.",
  for_all="all sets of orbits and observations, places in the sky, observatories, limits, and histories of cache files",
  why="No test runs the program; the misses come from angles which wrap, high declinations, and cache files left by an earlier run.",
  files=["astcheck.cpp", "sof.cpp", "mpc_code.cpp", "astfuncs.cpp"], mech=[("preselection", "astcheck.cpp is_between"), ("cache", "astcheck.cpp get_cached_day_data, get_sof_file"), ("motion", "astcheck.cpp compute_motion"), ("positions", "astcheck.cpp compute_asteroid_loc")], over=["inputs", "histories"],
  technique="property-based testing: the program run on generated orbits, observations and cache histories, against orbits propagated in long double",
  note="18,000 histories of program runs")
P(id="Q02", title="The asteroid ephemeris program finds the object and gives its true positions",
  statement="Given a file of orbits, the ephemeris program finds the object asked for, by number or designation, wherever it is in the file, or says it isn't there; and for each of the times asked for prints the date, right ascension, declination (signs and units included), distances, magnitude and elongation which follow from that object's orbit, light time included.",
  for_all="all files, objects, starting times, steps (backward included) and numbers of lines",
  why="No test runs the program; lookup failures depend on where the object is in the file, and the errors of sign and rounding on the declination.",
  files=["astephem.cpp", "mpcorb.cpp", "astfuncs.cpp", "eart2000.cpp"], mech=[("lookup", "astephem.cpp find_astorb_rec"), ("magnitude", "astephem.cpp calc_obs_magnitude"), ("columns", "astephem.cpp main")],
  technique="property-based testing: the program run on generated files, each column compared with the orbit propagated in long double",
  note="12,000 program runs")
P(id="T06", title="Mars time scales follow the published equations both ways",
  statement="Coordinated Mars Time and the difference between true and mean solar time on Mars are those of the published equations at every instant; the inverses (from either kind of Martian time back to terrestrial time) return the instant they were made from; and the times of day shown, at Airy and at any longitude, are the corresponding ones from 00:00:00.000 to 23:59:59.999.",
  for_all="all instants and longitudes",
  why="No test runs this; the inverse is an iteration whose error depends on the season, and the display fails only at the turn of a sol.",
  files=["marstime.cpp"], mech=[("scales", "marstime.cpp tt_to_mtc, mars_true_solar_minus_mean_solar_time"), ("inverses", "marstime.cpp mtc_to_tt, mtst_at_airy_to_tt"), ("display", "marstime.cpp format_time, main")],
  technique="property-based testing: generated instants against the published series in long double, round trips, and the program's output compared",
  note="2,000,000 instants; 20,000 program runs")
P(id="K03", title="The near-parabolic solver gives the true anomaly and distance",
  statement="For every near-parabolic orbit and time within the method's range, Landgraf's method converges to the true anomaly and distance of two-body motion; the starting value it shows is that of Schlyter's formula; and the range it gives is the one its series has.",
  for_all="all eccentricities, perihelion distances and times within the range of convergence",
  why="No test runs this; elliptical, parabolic and hyperbolic cases use one series, which converges slowly near the ends of its range.",
  files=["landgraf.cpp"], mech=[("series and root-finding", "landgraf.cpp main"), ("approximation", "landgraf.cpp paul_schlyter_soln")],
  technique="property-based testing: generated orbits against universal variables in long double",
  note="60,000 program runs")
P(id="Q03", title="Observatory positions convert between all their forms without loss",
  statement="The position of a place on earth, given as longitude, latitude and altitude in any layout, as parallax constants, as x, y and z, or as an observatory code, is shown in each of those forms and they all agree with the ellipsoid; two codes give the distance and bearing between the places, and codes not in the lists are reported.",
  for_all="all places, forms, units, files of observatories and pairs of codes",
  why="No test runs the program; which form was meant is guessed from the numbers, and signs and hemispheres decide.",
  files=["parallax.cpp", "mpc_code.cpp"], mech=[("which form", "parallax.cpp main"), ("conversions", "parallax.cpp show_location, get_mpc_obscode_data"), ("pairs", "parallax.cpp; mpc_code.cpp lat_alt_to_parallax")],
  technique="property-based testing: the program run on generated places and lists, every number shown compared with the ellipsoid in long double",
  note="90,000 program runs")
P(id="Q04", title="Observation converters keep every value, unit and time",
  statement="Gaia's asteroid observations come out as ADES records of exactly the objects asked for, with positions in km, velocities in km/s, UTC to the millisecond, angles and uncertainties in the units of ADES; observations from temporary sites become roving-observer pairs with the site's longitude, latitude and altitude and nothing else changed; and the submission time and counters packed in an ADES observation ID are those shown, with a warning for each invalid one.",
  for_all="all files of observations, ranges of objects, sites and IDs",
  why="No test runs these programs; the errors show for ranges of objects across files, small exponents, negative angles and the ends of months.",
  files=["csv2ades.c", "xxx2rov.c", "mpc_time.c", "mpc_code.cpp"], mech=[("fields and units", "csv2ades.c csv_to_ades"), ("files needed", "csv2ades.c file_needed"), ("roving observers", "xxx2rov.c main"), ("IDs", "mpc_time.c main")],
  technique="property-based testing: the programs run on generated files, each line of output compared with that made from the data drawn",
  note="64,000 program runs")
P(id="T07", title="The date converter shows one instant alike in every calendar and time scale",
  statement="Given a date as a Julian day, a modified Julian day or year, month and day of any of its calendars, the jd program shows that instant: its Julian day, civil date, weekday and day of the year, the same day in each of the nine calendars (with intercalary Chinese months marked), and the differences TD-UT1, TD-UTC, UT1-UTC, TDB-TDT, TAI-UTC and GPS-UTC, consistent with one another. Arguments that mean nothing do no harm.",
  for_all="all instants, layouts and calendars of the date given, and arguments of any length",
  why="No test runs the program; errors show at ends of centuries, before year zero, in intercalary months, at midnight, or with long command lines.",
  files=["jd.cpp", "date.cpp"], mech=[("input and display", "jd.cpp main"), ("alternative Gregorian conversion", "jd.cpp greg_day_to_dmy")],
  technique="property-based testing: the program run on generated dates, each line compared with independent calendar arithmetic and the library",
  note="24,000 program runs")
P(id="C04", title="Chinese calendar tables are those the rules give for the moons and terms",
  statement="The list of new moons and principal terms that phases makes has each event once, in order, at its instant, with its day at 120 degrees east, its number and its year. The chinese program makes from any such list the tables by which every day has the year, month (intercalary or not) and day that the rules of the Chinese calendar give it, whichever month is intercalary.",
  for_all="all lists of new moons and principal terms of whole years, and all days in them",
  why="No test runs either program; most months are intercalary only once in decades, and some combinations only thousands of years away.",
  files=["chinese.cpp", "phases.cpp", "date.cpp"], mech=[("events", "phases.cpp main (-c)"), ("table", "chinese.cpp dump_data, main"), ("reading it", "date.cpp get_chinese_year_data")],
  technique="property-based testing: tables made from generated lists, and every month compared with the rules applied directly",
  note="60,000 synthetic lists and 2,500 by phases; about 900,000 months")
P(id="C05", title="Printed calendars show every day, event and lunar phase in its own cell",
  statement="The PostScript calendar of any month or year has each day of the month once, in the column of its weekday and the row of its week (days of a sixth week sharing the cell above, or wrapped to the top if asked); each event of the date files (fixed days, weekday rules, lists), holiday and lunar phase of that month in its day's cell and nothing else; the correct title and Julian day; and in the free cells, in order, correct small calendars of the months before and after.",
  for_all="all months and years of the Julian/Gregorian calendar (but those around the change in 1582), all options, all files of dates and phases",
  why="No test runs the program; months of six weeks, first days on a Sunday and overfull lines of dates are rare.",
  files=["calendar.cpp", "date.cpp"], mech=[("cells", "calendar.cpp calendar, main"), ("events and phases", "calendar.cpp grab_dates, get_phase_data"), ("small calendars", "calendar.cpp")],
  technique="property-based testing: the PostScript read back into texts in cells and compared with independent calendar arithmetic, under address sanitizer",
  note="12,000 runs, months and years")
P(id="V05", title="Listed events of Jupiter's satellites happen, and those that happen are listed",
  statement="The transits, occultations, eclipses and shadows of Jupiter's four great satellites that jevent lists start and end, within a few minutes, when the satellite crosses Jupiter's limb or shadow as seen from the earth or sun, light time included; those hidden behind the planet or in its shadow are marked so; none is missing, all are in order and within the span asked for, and the same on screen, in the file and in the binary data.",
  for_all="all starting times and spans for which the theory of the satellites is given",
  why="No test runs the program; events are missed or mismarked only near conjunction or opposition, at grazing passes of Callisto, or at the ends of the span.",
  files=["jevent.cpp", "jsats.cpp"], mech=[("search", "jevent.cpp find_events"), ("hidden events", "jevent.cpp _mark_hidden_events"), ("order", "jevent.cpp _sort_events"), ("output", "jevent.cpp main")],
  technique="property-based testing: the program run on generated spans, each event compared with independent limb and shadow geometry and a scan for those missed",
  note="700 program runs of many events each")
