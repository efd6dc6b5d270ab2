NOTES = {
 "N01": ["Histories matter here: the file is loaded lazily, may be replaced, and old numbers are remapped."],
 "P03": ["Histories matter: loading, unloading, and requests with any mask interleave; the state is global."],
 "V01": ["Files are generated because none of vsop.bin, big_vsop.bin is distributed with the sources."],
 "V02": ["Files are generated because elp82.dat is not distributed with the sources."],
 "V03": ["Files are generated because ps_1996.dat is not distributed with the sources."],
 "Q01": ["Histories matter: each case runs the program up to three times in one directory, with orbit files replaced and cache files damaged or half written in between, and sometimes three copies at once.", "The checksum of an orbit file samples four 450-byte pieces of it by design, so files are small enough for every change to be seen. That an object be listed is only required beyond .7 AU and below 70 degrees of declination: the first cut interpolates geocentric positions over a day, an approximation which close approaches and the pole defeat (as documented in the source)."],
 "C05": ["The change to the Gregorian calendar (1581 to 1583) is left out: the program prints 21 consecutive days for October 1582, as neither calendar has that month whole."],
 "V05": ["The sort of jevent makes passes over the whole list, and is slow for long spans; that is not a defect of meaning, and was left as it is."],
 "X05": ["Complements the accuracy checks of the same parsers (T02, D01, O01, O02, G01, E01, T05): here only safety and determinism are decided, on much worse text."],
}
CAUGHT = {}
