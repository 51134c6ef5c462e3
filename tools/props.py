"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = state
    P.append(d)
I = ['inputs']; IC = ['inputs', 'configurations']
NOT = 'No existing test touches this code (the test suite only exercises the HEALPix library); '

# ---------------------------------------------------------------- HEALPix
prop('H01', 'Nested and ring pixel numbering are inverse bijections',
 'For every resolution that is a power of two and every pixel index of the sphere, converting the index from nested to ring numbering (or ring to nested) yields an index of the sphere, and converting back returns the original one. For every resolution that is not a power of two the conversions report -1 instead of an index.',
 I, 'all 32-bit resolutions 2^0..2^13 and all pixel indices; all 64-bit resolutions within the stated orders; all non-power-of-two resolutions',
 'The tests sweep all pixels only for small resolutions and sample the large ones with a fixed random seed; a wrong row/column or overflow at a rare pixel of a large resolution is not met.',
 ['HealpixC/chealpix.c'], [('nest<->xyf bit interleaving', 'HealpixC/chealpix.c nest2xyf/xyf2nest'), ('ring<->xyf arithmetic', 'HealpixC/chealpix.c ring2xyf/xyf2ring'), ('scheme conversion', 'HealpixC/chealpix.c nest2ring/ring2nest')],
 ['nest2ring', 'ring2nest', 'nest2ring64', 'ring2nest64'])
prop('H02', 'Every direction maps to a valid pixel, alike in both schemes',
 'Every direction with colatitude in [0, pi] and any finite longitude is assigned a pixel index between 0 and 12*nside^2-1. The nested index converted to ring numbering equals the ring index given for the same direction, and longitude is periodic: adding a whole turn does not leave the range.',
 I, 'all colatitudes in [0,pi], all longitudes within +-100 turns, all resolutions 2^k within the stated orders (nested and ring) ',
 'The tests only feed directions that are pixel centres; no direction on a pixel boundary, pole, or outside the first turn is tried.',
 ['HealpixC/chealpix.c'], [('direction to pixel', 'HealpixC/chealpix.c ang2pix_nest_z_phi/ang2pix_ring_z_phi'), ('longitude reduction', 'HealpixC/chealpix.c fmodulo')],
 ['ang2pix_nest', 'ang2pix_ring', 'vec2pix_nest', 'vec2pix_ring'])
prop('H03', 'Pixel centres are valid directions and belong to their pixel',
 'For every pixel of every supported resolution the reported centre has colatitude in [0, pi] and longitude in [0, 2*pi), both schemes report the same centre for corresponding pixels, and the cartesian centre is the unit vector of that direction. Looking the centre up again returns the same pixel.',
 I, 'all pixels of all resolutions within the stated orders, both schemes, 32- and 64-bit',
 'The tests check only the round trip, on sampled pixels for large resolutions; range, scheme agreement and unit length are never checked.',
 ['HealpixC/chealpix.c'], [('pixel to direction', 'HealpixC/chealpix.c pix2ang_*_z_phi'), ('direction to pixel', 'HealpixC/chealpix.c ang2pix_*_z_phi')],
 ['pix2ang_nest', 'pix2ang_ring', 'pix2vec_nest', 'pix2vec_ring'])
prop('H04', 'Resolution and pixel count convert exactly',
 'The number of pixels of a resolution is exactly twelve times its square, and recovering the resolution from that number gives it back. A positive number that is not twelve times a perfect square is answered with -1.',
 I, 'all 32-bit resolutions up to 13377 and all 32-bit pixel counts; all 64-bit resolutions up to 2^29 and all positive pixel counts up to 12*2^58',
 'The tests try valid resolutions only; every number that is not of the form 12*n^2 is untested.',
 ['HealpixC/chealpix.c'], [('nside from npix', 'HealpixC/chealpix.c npix2nside/npix2nside64'), ('npix from nside', 'HealpixC/chealpix.c nside2npix/nside2npix64')],
 ['npix2nside', 'nside2npix', 'npix2nside64', 'nside2npix64'])

# ---------------------------------------------------------------- TLE input
prop('T01', 'TLE line checksum is the standard one',
 'For any line of at least 69 characters starting with 1 or 2 the checksum test reports a nonzero value when the 69th character is not the last digit of the sum of the digits before it, counting each minus sign as one, and 0 when it is (apart from lines it may refuse for another reason: a second character that is not a blank, bytes outside the printable range, text going on after the digit); it reports a nonzero value for a line that does not start with 1 or 2. Two lines whose second-line checksum, line numbers or leading format characters are wrong are never accepted as element data.',
 I, 'all 69-byte lines',
 NOT+'the property ranges over all byte contents of a line.',
 ['src/get_el.c'], [('checksum', 'src/get_el.c tle_checksum'), ('acceptance', 'src/get_el.c parse_elements')], ['tle_checksum', 'parse_elements'])
prop('T02', 'Catalogue numbers decode, including letter-extended ones',
 'A five-character catalogue field made of leading blanks and digits decodes to that number; a letter (I and O excluded) followed by four digits decodes to (10 + letter rank)*10000 + the digits. Distinct valid fields of these forms decode to distinct numbers between 0 and 339999, and other well-formed extended fields never decode into that range.',
 I, 'all five-character catalogue fields',
 NOT+'letter-extended numbers do not occur in the sample files at all.',
 ['src/get_el.c'], [('catalogue number', 'src/get_el.c get_norad_number')], ['parse_elements: norad_number'])
prop('T03', 'TLE fields decode to the right quantities and units',
 'For every well-formed pair of element lines the decoded elements equal the text fields in the documented units: angles in radians, mean motion and its derivatives in radians per minute powers, eccentricity with its implied leading decimal point, drag terms with their implied point and signed exponent, and the epoch as the Julian Date of the given two-digit year (57-99 in the 1900s) and fractional day. International designator, classification, element set number and revolution number are copied unchanged.',
 I, 'all digit contents of all fields of well-formed lines (format-conforming column layout)',
 NOT+'each field spans 10^4..10^11 values plus signs, blanks, exponents and the century switch.',
 ['src/get_el.c', 'src/norad_in.h'], [('field decoding', 'src/get_el.c parse_elements, get_angle, sci, get_eight_places')], ['parse_elements'])
prop('T04', 'Arbitrary text lines are rejected or decoded safely',
 'For any two NUL-terminated lines of the length the programs read, decoding the pair terminates, reads and writes only inside the lines and the result record, performs no undefined arithmetic, never aborts the program, and gives the same verdict and values when repeated on the same text.',
 ['inputs', 'histories'], 'all byte contents of two lines of up to 99 bytes, within the stated length bounds',
 NOT+'the property is about all malformed inputs.',
 ['src/get_el.c'], [('line decoding', 'src/get_el.c parse_elements and helpers')], ['parse_elements', 'tle_checksum'])
prop('T05', 'Orbit model is chosen by the 225-minute period rule',
 'A satellite is propagated with the deep-space model exactly when its unperturbed orbital period, with the secular correction of the mean motion to the original (un-Kozai) value, is at least 225 minutes, and with the near-Earth model otherwise. The choice depends only on mean motion, eccentricity and inclination.',
 I, 'all mean motions from 0.5 to 18 rev/day, eccentricities in [0,0.95], inclinations in [0,pi]',
 NOT+'the switch-over is a curve in a three-dimensional continuous space.',
 ['src/basics.c'], [('model selection', 'src/basics.c select_ephemeris')], ['select_ephemeris'])
prop('T06', 'State-vector element records decode to position and velocity',
 'A record of the extended state-vector format (type H) decodes to the six position and velocity components its base-36 fields encode, with the documented scale factors and signs, is always treated as deep-space, and its epoch is decoded as for ordinary records.',
 I, 'all base-36 field contents',
 NOT+'no sample file contains such a record.',
 ['src/get_el.c', 'src/basics.c'], [('state vector fields', 'src/get_el.c get_high_value'), ('model selection', 'src/basics.c select_ephemeris')], ['parse_elements', 'select_ephemeris'])

# ---------------------------------------------------------------- dates
prop('D01', 'Calendar date converts to Modified Julian Date',
 'Every valid UTC date-time from years 1600 to 9999 in the form yyyy-mm-ddThh:mm:ss (optionally with fractional seconds, which are ignored) converts to the Modified Julian Date of that instant to within half of 0.00001 day (plus rounding of single precision), with midnight of consecutive days exactly one day apart. A string that does not begin with six such numeric fields, or with a month outside 1..12, day outside 1..31, hour above 23, minute above 59 or second above 60, is reported as a failure with value 0.',
 I, 'all years 1600..9999, all months, days, hours, minutes, seconds',
 NOT+'about 3 million days x 86400 seconds, with month/leap/century switches.',
 ['src/date2mjd_nf.c'], [('date to MJD', 'src/date2mjd_nf.c date2mjd_nf')], ['date2mjd_nf'])
prop('D02', 'Modified Julian Date converts to calendar date and back',
 'For every Modified Julian Date of years 1600 to 9999 the text form is a valid calendar date-time that denotes that instant rounded to the nearest second (or to within one millisecond in the fractional form); fields never show 24 hours, 60 minutes or 60 seconds. Values outside the supported span give no text rather than a wrong one, and the text never exceeds its buffer.',
 I, 'all doubles in the span of years 1600..9999 (and all doubles for the safety part)',
 NOT+'carry between seconds, minutes, hours, days and months happens only at isolated instants.',
 ['src/mjd2date.c'], [('MJD to date', 'src/mjd2date.c mjd2date, mjd2datef')], ['mjd2date', 'mjd2datef'])
prop('D03', 'Current-date tool prints the MJD of the system clock',
 'For every system time the tool prints the Modified Julian Date of that Unix time, 40587 plus seconds/86400, to the printed precision and exits with status 0.',
 I, 'all clock values from -2^40 to 2^40 s',
 NOT+'it depends on the clock.', ['src/mjdnow.c'], [('now', 'src/mjdnow.c main')], ['mjdnow output'])

# ---------------------------------------------------------------- sky geometry
prop('S01', 'Sidereal times are the standard ones and stay in range',
 'For every date from 1950 to 2100 and every site longitude the Greenwich mean sidereal time follows the IAU 1982 expression to well under a second, the local one exceeds it by longitude/15 modulo 24 h, and both are reported in [0, 24). The sidereal angle used to place the observer agrees with the reported one.',
 I, 'all Julian Dates 1950..2100, all longitudes in [-360,360]',
 NOT+'the wrap happens once per day at a continuous instant.',
 ['src/lmst_hr.c', 'src/observe.c'], [('sidereal time', 'src/lmst_hr.c lmst_hr'), ('sidereal angle', 'src/observe.c ThetaG')], ['lmst_hr', 'observer_cartesian_coords'])
prop('S02', 'Observer is placed on the ellipsoid at the given site',
 'For every latitude, height, longitude and date the observer vector is the geocentric position (km) of the geodetic site on the Earth ellipsoid, raised by its height along the local vertical and turned by longitude plus Greenwich sidereal time.',
 I, 'all latitudes in [-90,90], heights -500..10000 m, all longitudes, all dates 1950..2100',
 NOT+'continuous inputs.',
 ['src/observe.c'], [('parallax constants', 'src/observe.c earth_lat_alt_to_parallax'), ('observer vector', 'src/observe.c observer_cartesian_coords')], ['earth_lat_alt_to_parallax', 'observer_cartesian_coords'])
prop('S03', 'Topocentric direction and distance point at the satellite',
 'For every pair of distinct observer and satellite positions the reported right ascension lies in [0, 2*pi), the declination in [-pi/2, pi/2], the distance is the length of the difference vector, and direction times distance reproduces that vector.',
 I, 'all vectors with components up to 10^6 km',
 NOT+'continuous inputs with quadrant and pole switches.',
 ['src/observe.c'], [('direction', 'src/observe.c get_satellite_ra_dec_delta')], ['get_satellite_ra_dec_delta'])
prop('S04', 'Precession to J2000 follows the stated formula and stays on the sphere',
 'For every date from 1900 to 2100 and every direction the correction to J2000 equals the first-order precession formula (annual m and n terms times elapsed years), changes nothing at J2000 itself, and always returns a right ascension in [0, 2*pi) and a declination in [-pi/2, pi/2].',
 I, 'all directions including the poles, all dates 1900..2100',
 NOT+'the range can only be left within a fraction of a degree of a pole or of RA 0.',
 ['src/observe.c'], [('precession', 'src/observe.c epoch_of_date_to_j2000')], ['epoch_of_date_to_j2000'])
prop('S05', 'Horizon coordinates obey the spherical triangle',
 'For every declination, hour angle and latitude the reported altitude, azimuth (from north through east, in [0, 360)) and parallactic angle satisfy the spherical-triangle equations of the pole, the zenith and the target, in degrees, including on the meridian, at the zenith and from the poles.',
 I, 'all declinations and latitudes in [-90,90] deg, hour angles in [-24,24] h',
 NOT+'special cases (meridian, zenith, poles) are hit only by exact inputs.',
 ['src/dechalat2alt.c'], [('horizon coordinates', 'src/dechalat2alt.c dechalat2alt')], ['dechalat2alt'])
prop('S06', 'Sun position follows the low-precision almanac formulae',
 'For every date the Sun right ascension (in [0, 2*pi)) and declination equal those of the Astronomical Almanac low-precision expressions for mean anomaly, ecliptic longitude and obliquity.',
 I, 'all Julian Dates 1900..2100',
 NOT+'continuous input with quadrant switches.',
 ['src/lpsun_radec.c'], [('sun', 'src/lpsun_radec.c lpsun_radec, atan_circ')], ['lpsun_radec'])
prop('S07', 'Haversine separation is the great-circle distance',
 'For every two directions the separation equals the great-circle angle in degrees, lies in [0, 180], is symmetric, is zero for coincident directions and does not depend on whether longitudes are given in [-pi, pi] or [0, 2*pi).',
 I, 'all longitudes in [-pi,2*pi], all latitudes in [-pi/2,pi/2]',
 NOT+'continuous inputs; wrap-around and antipodal points are isolated.',
 ['src/skysep_h.c'], [('separation', 'src/skysep_h.c skysep_h')], ['skysep_h'])
prop('S08', 'Sunlit flag is the Earth-shadow test',
 'A satellite above the Earth surface is reported as not sunlit exactly when the straight line from it towards the Sun meets the spherical Earth of equatorial radius, and as sunlit otherwise; a satellite on the day side is never reported dark. Both programs give the same answer.',
 I, 'all satellite positions outside the Earth up to 10^6 km, all Sun directions at 1 AU',
 NOT+'continuous inputs.',
 ['src/sat_skymap.c', 'src/sat_visibility.c'], [('shadow test', 'src/sat_skymap.c and src/sat_visibility.c intersect_satsun_sphere')], ['sunlit flag in the output'])
prop('S09', 'Geodetic sub-point inverts the ellipsoid',
 'For every satellite position the reported geodetic latitude (in [-90, 90]), longitude (in [-180, 180]) and altitude reproduce that position on the Earth ellipsoid when converted back, the reported equatorial angle is its right ascension, and longitude equals that angle minus the Greenwich sidereal time modulo 360. The computation always ends.',
 I, 'all positions between 6400 and 10^6 km from the Earth centre, all sidereal times',
 NOT+'continuous inputs with an iteration.',
 ['src/sat_skymap.c', 'src/sat_visibility.c'], [('geodetic position', 'src/sat_skymap.c and src/sat_visibility.c sat_geoLocation')], ['geoloc in the output'])
prop('S10', 'Motion direction and speed describe the shown displacement',
 'The reported position angle (integer degrees, in [0, 360)) is the direction of the displacement between the two reported positions, measured from north through east with the right-ascension difference taken the short way and scaled by the cosine of declination; the reported speed is their great-circle separation per second of the time step, in arcminutes, finite and not negative. This holds across right ascension 0.',
 IC, 'all pairs of positions and all time steps',
 NOT+'the wrap at RA 0 and a zero step are special inputs.',
 ['src/sat_skymap.c', 'src/sat_visibility.c'], [('PA and speed', 'src/sat_skymap.c main; src/sat_visibility.c get_sat_PA_and_speed')], ['PA and Speed in the output'])

# ---------------------------------------------------------------- sat_skymap
prop('P01', 'Region search returns exactly the satellites within the radius',
 'With a sky region requested, the search lists a satellite exactly when its separation from the region centre at the start or at the end of the time step is at most the radius, and prints the start separation. The separation is the great-circle one when requested, otherwise the plane-triangle one on the right-ascension difference taken the short way (at most 180 degrees) and the declination difference, so that neighbours across right ascension 0 are close.',
 IC, 'all region centres, radii, sites, dates and satellite positions, with and without great-circle separation',
 NOT+'the decision surface is continuous and wraps at RA 0.',
 ['src/sat_skymap.c'], [('selection', 'src/sat_skymap.c main, separation and radius test')], ['satellites array', 'n_sats_found'])
prop('P02', 'Geodetic-reference search selects by ground distance',
 'With the geodetic reference requested, any sky region is ignored, every listed satellite carries its sub-point, and a satellite is listed exactly when the angular distance between its sub-point and the given site, in degrees and across the date line, is at most the radius.',
 IC, 'all sites, radii and satellite positions, both separation formulae',
 NOT+'continuous inputs and a wrap at longitude 180.',
 ['src/sat_skymap.c'], [('selection', 'src/sat_skymap.c main, geodetic reference branch')], ['satellites array'])
prop('P03', 'Altitude and sunlit filters act only as filters',
 'With an altitude range given (in either order) a satellite is listed exactly when it would be listed without it and its geodetic altitude is within the range; with the sunlit-only switch exactly when it would be listed without it and is sunlit. Filters never change the values printed for a listed satellite, and the altitude filter does not apply to a single satellite requested by number or designator, wherever its option stands on the command line.',
 IC, 'all ranges, positions and option combinations',
 NOT+'option combinations and continuous inputs.',
 ['src/sat_skymap.c'], [('filters', 'src/sat_skymap.c main')], ['satellites array'])
prop('P04', 'Single-satellite and name requests return the requested object only',
 'A request by catalogue number or international designator returns that object wherever it is in the sky, and never another one; if it is not in the file, or a filter removes it, no satellite is listed and the not-found message is given with status 0. A request by name lists exactly the satellites whose name contains the given text, wherever they are.',
 IC, 'all catalogue contents within the bound, requested numbers, designators and names, and filter outcomes',
 NOT+'needs catalogues with several objects and failing filters.',
 ['src/sat_skymap.c'], [('single-satellite state', 'src/sat_skymap.c main single_sat_found')], ['satellites array', 'errmsg'])
prop('P05', 'Each catalogued object is processed once, in file order, up to the limit',
 'Over all the element files given, in order, each catalogue number (as written in its five columns) is reported at most once, from its first occurrence; at most the requested maximum number of satellites is reported, and these are the first ones that qualify. List files skip comment and empty lines, and element sets without name lines or separated by unrelated lines are all found.',
 ['inputs', 'histories', 'configurations'], 'all catalogue contents within the bound (number of records, files, kinds of line), all limits',
 NOT+'needs multi-file catalogues with repeats.',
 ['src/sat_skymap.c'], [('duplicate buffer', 'src/sat_skymap.c main sbuff'), ('list reading', 'src/sat_skymap.c main')], ['satellites array'])
prop('P06', 'Output is one well-formed JSON object with consistent counters',
 'Whatever the arguments and file contents, except for the help text, the search program prints exactly one valid JSON object; its number of found satellites equals the number of listed entries (or of those it would list when only information is requested), the number sunlit equals the number of entries flagged sunlit, and status is zero exactly when the search was carried out. Text taken from the command line or the files cannot break the syntax.',
 IC, 'all option sets, selection outcomes, error paths and text contents within the bound',
 NOT+'every error path and every text content must keep the syntax.',
 ['src/sat_skymap.c'], [('JSON printing', 'src/sat_skymap.c *_json functions')], ['stdout'])
prop('P07', 'Option order and spacing do not matter; documented precedence holds',
 'Giving the options of the search program in any order, with or without a space after the option letter, and the file first or last, gives the same search. A calendar date wins over a day number, a given directory wins over the default-directory switch, and options that are not given take the documented defaults.',
 ['configurations'], 'all orders and spacings of all pairs of options, symbolic values',
 NOT+'hundreds of option orders.',
 ['src/sat_skymap.c'], [('option loop', 'src/sat_skymap.c main')], ['stdout'])
prop('P08', 'Any command line is handled safely',
 'For any command-line text both programs terminate without reading or writing outside their buffers, without undefined arithmetic and without looping: a missing option value, an over-long text value, a number out of its range or an unknown option leads to an error report or to the help text.',
 I, 'all argument contents within the stated number and length of arguments',
 NOT+'malformed command lines.',
 ['src/sat_skymap.c', 'src/sat_visibility.c'], [('option loop', 'src/sat_skymap.c and src/sat_visibility.c main')], ['exit status', 'stdout'])
prop('P09', 'Each record shows the satellite state at the stated times',
 'For every listed satellite the start and end directions are the J2000 topocentric directions, from the site at the respective instant, of the position propagated to the requested time and to the requested time plus the step; distance, separation, sunlit flag, sub-point and sky-pixel number belong to that satellite and the start time. Values are printed in degrees and kilometres to the documented precision.',
 IC, 'all dates, steps, sites, epochs and propagated positions',
 NOT+'continuous inputs, composition of all parts.',
 ['src/sat_skymap.c'], [('record', 'src/sat_skymap.c main')], ['data array'])
prop('P10', 'The reported request data describe the request actually used',
 'The echoed site, region centre, radius, date (both forms), time step, limit and file are those used for the search, with the zenith used as centre when no region is given or the request ignores it (geodetic reference, number or designator); the reported sidereal times, region horizon coordinates and Sun data (position, horizon coordinates, sub-solar longitude in [-180, 180], separation from the centre) are those of that site and date.',
 IC, 'all option values',
 NOT+'continuous inputs and option combinations.',
 ['src/sat_skymap.c'], [('parameters', 'src/sat_skymap.c main')], ['input_params', 'sun'])

# ---------------------------------------------------------------- sat_visibility
prop('V01', 'Visibility interval brackets the sunlit passage',
 'The visibility tool steps through the requested time range and reports, for the requested satellite, the first instant of a step at which it is within the radius of the zenith and sunlit as start, and as end the last such step of the uninterrupted run that begins there; data labelled start and end are those of these instants, and nothing is reported when there is no such instant. The reported duration is the difference of the two instants and is never negative.',
 ['inputs', 'histories'], 'all sequences of in-radius/sunlit outcomes up to the stated number of steps, all steps and ranges',
 NOT+'the property ranges over histories of a time loop.',
 ['src/sat_visibility.c'], [('time loop', 'src/sat_visibility.c main')], ['sat_start', 'sat_end', 'sunlit_duration_minutes'])
prop('V02', 'Visibility mid-point and culmination are taken inside the interval',
 'When a passage is reported, the mid data belong to the middle of the reported interval and the maximum data to the step of the interval with the smallest zenith distance; each carries its own date in both forms.',
 ['inputs', 'histories'], 'all sequences up to the stated number of steps',
 NOT+'the property ranges over histories of a time loop.',
 ['src/sat_visibility.c'], [('mid and max', 'src/sat_visibility.c main')], ['sat_mid', 'sat_max'])
prop('V03', 'Visibility search always ends',
 'For every time range and every time step the visibility tool finishes after at most one evaluation per step of the range; a step that is not positive is refused rather than looping.',
 IC, 'all steps and ranges',
 NOT+'termination for all inputs.',
 ['src/sat_visibility.c'], [('time loop', 'src/sat_visibility.c main')], ['exit'])
prop('V04', 'Daytime skipping starts the search at sunset',
 'With daytime skipping the visibility search starts at the beginning of the range if the Sun is already down, and otherwise at the first minute step after the range start at which the Sun is below the horizon of the site; it never changes anything else.',
 ['inputs', 'histories'], 'all Sun altitude histories up to the stated number of steps',
 NOT+'depends on a time loop.',
 ['src/sat_visibility.c'], [('daytime loop', 'src/sat_visibility.c main')], ['sat_start'])
prop('V05', 'Visibility tool reports the requested satellite or says why not',
 'The visibility tool evaluates only the satellite with the requested catalogue number or designator; if it is not in any of the files, or no satellite was requested though a site was given, or the file cannot be read, it prints one JSON object with a nonzero status and no satellite, and the exit status is nonzero.',
 IC, 'all catalogue contents within the bound and all error paths',
 NOT+'error paths.',
 ['src/sat_visibility.c'], [('search', 'src/sat_visibility.c main')], ['stdout', 'exit status'])

# ---------------------------------------------------------------- propagation
prop('O01', 'Propagation is a pure function of the elements and the time',
 'Propagating any element set to any time gives the same position whatever was propagated before with the same or other element sets, and depends on no uninitialised data: exactly for near-Earth orbits and for new parameters of deep-space orbits; a deep-space parameter array that was used for other times before keeps lunisolar terms for half an hour and the state of its resonance integration by design, which may move positions by up to 5 km.',
 ['inputs', 'histories'], 'all near-Earth element sets and times within the stated bounds; one preceding call with arbitrary time, two other element sets',
 NOT+'the property is about histories of calls.',
 ['src/sgp4.c', 'src/sdp4.c', 'src/deep.c', 'src/common.c'], [('parameter array', 'src/common.c, src/sgp4.c, src/deep.c')], ['SGP4', 'SDP4'])
prop('O02', 'Propagation always ends and reports impossible orbits',
 'For every element set with eccentricity in [0, 1) and any time the near-Earth propagation ends, returns finite coordinates, and reports a hyperbolic, re-entered or non-convergent state by its status instead of invalid numbers.',
 I, 'all elements and times within the stated bounds',
 NOT+'termination for all inputs.',
 ['src/sgp4.c', 'src/common.c'], [('Kepler iteration', 'src/common.c sxpx_posn_vel')], ['SGP4'])
prop('O03', 'Near-Earth propagation follows the SGP4 equations',
 'The near-Earth position and velocity equal those of the published SGP4 theory (Spacetrack Report 3 with its published constants) for the same elements and time, including the simplified drag model for perigees below 220 km and the modified density parameters below 156 and 98 km.',
 I, 'all near-Earth elements and times within the stated bounds',
 NOT+'continuous seven-dimensional input space with branch surfaces.',
 ['src/sgp4.c', 'src/common.c'], [('SGP4', 'src/sgp4.c SGP4_init/SGP4, src/common.c')], ['SGP4_init', 'SGP4'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
    with open(here + '/properties.jsonl', 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
