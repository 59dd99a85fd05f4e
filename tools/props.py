import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=["src/%s.cc"%f for f in files.split()],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or ["return values and output arguments of: "+", ".join(files.split())],hook_needed=None)))
T="The suite calls each routine with one or a few literal arguments"
p("C01","Gregorian dates convert to the right day number, or are rejected with a reason",
 "Every valid proleptic Gregorian date converts to its Modified Julian Date, and to its year and day-in-year in the Julian-aligned calendar, and consecutive days are always consecutive numbers. A year before the supported limit or a month outside 1-12 is rejected with its own status and leaves the outputs untouched; a day that does not exist in that month is reported as a bad day but is still converted. The century-defaulting variants differ only in reading years 0-49 as 2000-2049 and 50-99 as 1950-1999.",
 "all integer (year, month, day) triples, valid or not, including century years, leap days, negative years and the limits of the supported range",
 T+" (a handful of dates); leap-year rules, limits, status precedence and untouched outputs need every year/month/day class.",
 "cldj caldj clyd calyd",[("Gregorian to MJD integer arithmetic and validation","src/cldj.cc, src/clyd.cc"),("century defaults","src/caldj.cc, src/calyd.cc")])
p("C02","Modified Julian Dates convert back to the calendar date they denote",
 "Every Modified Julian Date in the supported range converts to the Gregorian year, month and day containing it together with the fraction of the day, which is in [0,1); this is the exact inverse of the date-to-day-number conversion. The decimal-places variant first rounds the date to the requested number of decimals, so that a fraction that rounds up to a full day carries into the next date, and gives the fraction as an integer. Dates outside the supported range are flagged as unacceptable and never converted.",
 "all MJDs (negative, fractional, just below midnight, near the range limits) and all numbers of decimals 0-9",
 T+" (one MJD); rounding carries at midnight, negative dates, range limits and the bijection need the whole axis.",
 "djcl djcal",[("MJD to Gregorian arithmetic","src/djcl.cc"),("rounding to a number of decimals and carry","src/djcal.cc")])
p("T01","UTC, TAI, TT and UT offsets follow the leap-second table and the delta-T model",
 "For every UTC instant, TAI-UTC is the published value: constant between leap seconds, stepping exactly at 0h of each introduction date from 1972 to 2017, the published linear drift formulae from 1960 to 1972, and the first and last entries extended outside. TT-UTC exceeds it by exactly 32.184 s always, and the long-term ET-UT estimate is the published three-branch function of the Julian epoch.",
 "every UTC MJD, in particular both sides of each introduction date, and every Julian epoch including the branch points",
 T+" (one or a few dates); a wrong row or boundary shows only on the dates it governs.",
 "dat dtt dt",[("leap-second and drift table","src/dat.cc"),("TT offset","src/dtt.cc"),("delta-T branches","src/dt.cc")])
p("T02","Sidereal time and the equation of the equinoxes follow their defining formulae",
 "Greenwich mean sidereal time is the published IAU 1982 function of UT1, returned in the range 0 to 2pi, and advances by one turn plus the sidereal excess per day. Giving the date as whole days plus a day fraction gives the same angle as the single argument, with better precision, whichever way the date is split between the two. The equation of the equinoxes is the published nutation-based function of TDB.",
 "all dates, and all splits of a date into two parts (either order, negative or larger-than-one-day fractions)",
 T+" (one date); splits, ranges and other epochs are not reached.",
 "gmst gmsta eqeqx",[("GMST polynomial and range reduction","src/gmst.cc, src/gmsta.cc"),("equation of the equinoxes","src/eqeqx.cc")])
p("T03","TDB minus TT follows the published series for every date and observer",
 "The relativistic clock correction TDB-TT equals the full published time series (all terms of all powers of time, plus the planetary-mass adjustment) plus the topocentric terms for the observer's longitude and distances from the spin axis and the equator. It depends on UT1 only through the time of day, and with the observer at the geocentre it does not depend on UT1 or longitude at all.",
 "all TDB dates, UT1 times of day, longitudes and observer positions",
 T+" (one date); each of the 787 coefficient rows dominates nowhere and a wrong row needs a comparison over many dates.",
 "rcc",[("Fairhead-Bretagnon series and topocentric terms","src/rcc.cc")])
p("T04","Besselian and Julian epochs convert consistently with dates and each other",
 "Converting a date to a Besselian or Julian epoch and back returns the same date, and the epochs are the published linear functions of the date. The general epoch converter, given the letter of the wanted and of the given epoch kind (B or J in either case), returns the epoch unchanged when the kinds agree and otherwise the same instant expressed in the other kind.",
 "all dates and epochs, and all combinations of kind letters in either case",
 T+" with upper-case letters; lower-case combinations and other epochs are not reached.",
 "epb epb2d epj epj2d epco",[("linear epoch formulae","src/epb.cc, src/epb2d.cc, src/epj.cc, src/epj2d.cc"),("kind letters","src/epco.cc")])
p("S01","Angles and day fractions split into sexagesimal fields with correct rounding",
 "Expressing an interval of days or an angle as sign, hours or degrees, minutes, seconds and a decimal fraction always gives minutes and seconds in 0-59 and a fraction of the requested number of decimals, whose recombination equals the argument to within half a unit of the last place. Rounding carries through seconds, minutes and hours or degrees so that no field is ever 60, a non-positive number of decimals rounds to whole seconds, and the sign is '-' exactly for negative arguments. Single- and double-precision variants agree to single precision.",
 "all real arguments (both signs, zero, just below a carry at each level, many turns) and all numbers of decimals that fit",
 T+" (one value, a few precisions); carries occur only in a vanishing set of inputs.",
 "dd2tf cd2tf dr2tf cr2tf dr2af cr2af",[("scaled rounding and field extraction","src/dd2tf.cc"),("unit scaling","src/dr2tf.cc, src/dr2af.cc, src/cd2tf.cc, src/cr2tf.cc, src/cr2af.cc")])
p("S02","Sexagesimal fields combine into the right angle or day fraction, with status",
 "Combining hours or degrees, minutes and seconds gives exactly their sexagesimal sum in days or radians, whether or not the fields are in range. The status is OK exactly when every field is in range (0-23 hours or 0-359 degrees, 0-59 minutes, 0 <= seconds < 60), and otherwise names a field that is out of range, with a fixed precedence when several are.",
 "all field triples, including each field at, just inside and just outside its limits, in all combinations",
 T+" (one valid triple each); statuses and limits are not reached.",
 "daf2r caf2r dtf2d ctf2d dtf2r ctf2r",[("range tests and sums","src/daf2r.cc, src/caf2r.cc, src/dtf2d.cc, src/ctf2d.cc, src/dtf2r.cc, src/ctf2r.cc")])
p("A01","Angle normalisation returns the same angle in the promised range",
 "Reducing an angle gives a value that differs from the argument by a whole number of turns and lies in the promised range: within +/-pi for the symmetric form and within 0 to 2pi for the unsigned form. Angles already inside the range are returned unchanged, in both precisions and for both signs.",
 "all finite angles: zero, the range ends, exact and near multiples of pi, tiny, negative and very large values, in both precisions",
 T+" (one angle each); range ends and signs are not reached.",
 "range drange ranorm dranrm",[("remainder and correction","src/range.cc, src/drange.cc, src/ranorm.cc, src/dranrm.cc")])
p("V01","3-vector and 3x3-matrix algebra is exact algebra, even with shared arguments",
 "Scalar and vector products, vector modulus and normalisation, matrix-vector products with a matrix or its transpose, and matrix-matrix products equal their algebraic definitions to rounding. Normalising a zero vector gives a zero vector and zero modulus, and results are the same when an output is the same array as an input.",
 "all vectors and matrices (zero, axis-aligned, very large or small components, non-orthogonal) and all ways of sharing arrays between arguments",
 T+" on one set of matrices; aliasing, zero and unscaled operands are not reached.",
 "vdv dvdv vxv dvxv vn dvn mxv dmxv imxv dimxv mxm dmxm",[("element loops with temporaries","src/dmxm.cc, src/dmxv.cc, src/dimxv.cc, src/dvxv.cc, src/dvn.cc, src/dvdv.cc and single-precision twins")])
p("V02","Rotation matrices, Euler angles and axial vectors describe the same rotation",
 "An axial vector or a set of one to three Euler rotations about named axes always produces a proper orthogonal matrix that rotates the frame by the given amounts in the documented sense and order; axis names may be X, Y, Z in either case or 1, 2, 3, and processing stops at the first unrecognised name. Recovering the axial vector of a rotation matrix other than an exact half-turn gives back a vector for the same rotation, with magnitude at most pi, and a null rotation gives a null vector.",
 "all axial vectors (zero, tiny, around pi, beyond a turn), all angles, and all order strings of any length and letter case",
 T+" (one axial vector, one ZYZ-like order); axis letters, short strings and degenerate rotations are not reached.",
 "av2m dav2m m2av dm2av euler deuler",[("axial vector formulae","src/dav2m.cc, src/dm2av.cc"),("successive frame rotations","src/deuler.cc")])
p("V03","Spherical and Cartesian coordinates convert both ways without loss",
 "Spherical to Cartesian conversion gives the unit direction vector, and the reverse gives longitude and latitude of any non-zero vector irrespective of its length, with zero longitude at the poles and zero for a null vector. The position-and-velocity forms additionally carry distance and the time derivatives, are mutual inverses away from the poles, and their velocities are the true derivatives of the positions; for a null position the direction of motion stands in for the direction, with zero angular rates and the speed as rate of distance.",
 "all directions, distances and velocities, including poles, null vectors, axis directions and zero distance",
 T+" on one position and velocity; poles, null vectors and quadrants are not reached.",
 "cs2c dcs2c cc2s dcc2s cs2c6 ds2c6 cc62s dc62s",[("trigonometric conversions and pole rules","src/dcs2c.cc, src/dcc2s.cc, src/ds2c6.cc, src/dc62s.cc and single-precision twins")])
p("V04","Separations and bearings are true angles on the sphere",
 "The separation of two directions, given as coordinates or as vectors of any length, is the angle between them in [0, pi], symmetric, zero exactly for coincident directions and accurate for tiny and near-antipodal separations. The bearing of one point from another is the position angle measured from north through east within +/-pi, identical for coordinates and vectors, and zero for coincident points.",
 "all pairs of points: coincident, nearly coincident, antipodal, at and across the poles and the longitude wrap, vectors of any length",
 T+" on one pair; degenerate pairs and lengths are not reached.",
 "sep dsep sepv dsepv bear dbear pav dpav",[("cross/dot product arctangent","src/dsepv.cc, src/dsep.cc"),("position angle","src/dbear.cc, src/dpav.cc and single-precision twins")])
p("H01","Equatorial and horizon coordinates convert both ways and agree with each other",
 "For any hour angle, declination and latitude, the azimuth (0 to 2pi, north zero, east positive) and elevation are those of the same direction seen in the horizon frame, and converting back returns the hour angle within +/-pi and the declination. Zenith distance is always the complement of that elevation in [0, pi], and the parallactic angle is the true position angle of the zenith, zero when undefined.",
 "all directions and latitudes including the zenith, nadir, poles, meridian and observers at the poles, in both precisions",
 T+" on one direction; singular directions and ranges are not reached.",
 "e2h de2h h2e dh2e zd pa",[("frame rotation about the east-west axis","src/de2h.cc, src/dh2e.cc, src/e2h.cc, src/h2e.cc"),("zenith distance and parallactic angle","src/zd.cc, src/pa.cc")])
p("H02","Mount rates are true derivatives; hour-angle solutions are complete",
 "For any tracked direction the mount model returns azimuth, elevation and parallactic angle of that direction together with velocities and accelerations that are their first and second derivatives with respect to hour angle. For a given latitude, declination and azimuth, or parallactic angle, the returned valid hour angles are genuine solutions within +/-pi, every existing solution clear of the zenith and nadir is returned, and none is flagged valid when no solution exists.",
 "all latitudes, declinations, hour angles, azimuths and parallactic angles, including those with zero, one or two solutions",
 T+" on one configuration; derivatives at other places and no/one/two-solution cases are not reached.",
 "altaz pda2h pdq2h",[("analytic derivatives","src/altaz.cc"),("solution selection and validity","src/pda2h.cc, src/pdq2h.cc")])
p("G01","Tangent-plane projection, deprojection and tangent-point recovery are consistent",
 "Projecting a direction onto a tangent plane gives the gnomonic standard coordinates, with a status that tells acceptable stars, stars too far from the axis, and antistars on or too far from the plane; deprojecting returns the original direction with right ascension in 0 to 2pi. Given a star and its plane coordinates, both tangent points that map the star to those coordinates (one possibly beyond a pole) are found, and the number of usable solutions (0, 1 or 2) is reported. Coordinate and vector forms, in both precisions, agree.",
 "all stars, tangent points and plane coordinates, including stars on the axis, 90 degrees away, behind the plane, and tangent points or stars at the poles",
 T+" on one field position; status classes, poles and 0/1-solution cases are not reached.",
 "s2tp ds2tp v2tp dv2tp tp2s dtp2s tp2v dtp2v tps2c dtps2c tpv2c dtpv2c",[("gnomonic projection and status thresholds","src/ds2tp.cc, src/dv2tp.cc"),("inverse projection","src/dtp2s.cc, src/dtp2v.cc"),("tangent point equations","src/dtps2c.cc, src/dtpv2c.cc")])
p("E01","Precession matrices are the published rotations between any two epochs",
 "The precession matrices (IAU 1976, the long-term model, and the pre-IAU-1976 Besselian model) are, for every pair of epochs, proper rotations built from their published angle polynomials; equal epochs give the identity and exchanging the epochs gives the inverse to the accuracy of the model. Precessing coordinates applies the matrix of the named system in place and returns right ascension in 0 to 2pi; any other system name yields the documented invalid marker.",
 "all pairs of epochs (past, future, equal, exchanged), all directions, all system selectors",
 T+" on one pair of epochs; polynomial terms that vanish there, other systems and invalid selectors are not reached.",
 "prec precl prebn preces",[("angle polynomials and Euler rotation","src/prec.cc, src/precl.cc, src/prebn.cc"),("system selection","src/preces.cc")])
p("E02","Nutation series and the precession-nutation matrices follow the published models",
 "Nutation in longitude and obliquity and the mean obliquity equal the full published Shirai-Fukushima 2001 and IAU 1980 models at every date. The nutation matrix is the rotation built from the first of these, and the combined precession-nutation matrix is always the product of nutation at the date and precession from the given epoch to that date.",
 "all TDB dates over centuries and all starting epochs",
 T+" on one date; any one of some 300 series rows can be wrong without showing there.",
 "nutc nutc80 nut prenut",[("series tables and fundamental arguments","src/nutc.cc, src/nutc80.cc"),("matrix assembly","src/nut.cc, src/prenut.cc")])
p("F01","Equatorial, ecliptic, galactic, supergalactic, FK4 frames convert consistently",
 "Conversions between equatorial, ecliptic, galactic and supergalactic coordinates, and between B1950 FK4 and galactic coordinates including the E-terms of aberration, are the published rotations: they preserve angles, each pair of directions of conversion are mutual inverses, and longitudes come back in 0 to 2pi with latitudes within +/-pi/2. Adding and removing E-terms moves a direction by the published aberration vector for the Besselian epoch, and undo each other.",
 "all directions, including the poles of either frame, and all dates or epochs",
 T+" on one direction; inverse pairs, poles and ranges over the sphere are not reached.",
 "eqgal galeq galsup supgal ecmat eqecl ecleq eg50 ge50 etrms addet subet",[("frame matrices","src/eqgal.cc, src/galeq.cc, src/galsup.cc, src/supgal.cc, src/ecmat.cc, src/eg50.cc, src/ge50.cc"),("E-terms","src/etrms.cc, src/addet.cc, src/subet.cc")])
p("K01","Star positions are propagated by true space motion",
 "Applying proper motion moves a star along its three-dimensional space motion for the interval between the epochs, using proper motions, parallax and radial velocity, so that zero motion or equal epochs leave it in place and the result has right ascension in 0 to 2pi. Propagation forward and the change of direction agree with the straight-line motion of the position vector for any combination of parallax and radial velocity, including zero parallax.",
 "all star parameters (including zero parallax, large motions, poles) and all epoch pairs",
 T+" on one or two stars; degenerate parallax and reversed epochs are not reached.",
 "pm",[("space motion vector","src/pm.cc")])
p("P01","Earth position and velocity ephemerides follow their models at every date",
 "The precise Earth ephemeris gives, at every date, heliocentric and barycentric positions and velocities equal to the full published series; the approximate ephemerides equal their published models, agree with the precise one within their documented accuracy, and the optional mean-equinox argument precesses all outputs. The Earth orbital velocity and light-time corrections for a direction are the projections of the approximate Earth motion on it.",
 "all dates over centuries, all optional equinoxes (given or not), all directions",
 T+" on one date; one wrong coefficient among thousands, the equinox option and other dates are not reached.",
 "epv evp earth ecor",[("series tables","src/epv.cc"),("Stumpff ephemeris and optional precession","src/evp.cc"),("low-precision ephemeris","src/earth.cc, src/ecor.cc")])
p("P02","Moon position and velocity ephemerides follow their models at every date",
 "The geocentric Moon position and velocity equal the full published series at every date, in the mean equator and equinox of date, in AU and AU per second; the low-precision form agrees with the precise one within its documented accuracy. Velocities are the time derivatives of the positions.",
 "all dates (any year, day-of-year and day fraction, or any TDB date)",
 T+" on one date; individual series rows, leap-year phases and other dates are not reached.",
 "moon dmoon",[("Meeus series","src/dmoon.cc, src/moon.cc")])
p("O01","Observer position, velocity and polar motion are those of the rotating ellipsoid",
 "Geodetic latitude and height convert to distances from the spin axis and the equatorial plane on the adopted ellipsoid, and the observer's position and velocity vectors are those distances rotated to the local sidereal time at the sidereal rate. Polar motion converts mean to true longitude, latitude and azimuth by the exact rotation for the given pole offsets.",
 "all latitudes (poles, equator, both hemispheres), heights, sidereal times, longitudes and pole offsets",
 T+" on one site; hemispheres, poles and signs are not reached.",
 "geoc pvobs polmo",[("ellipsoid constants","src/geoc.cc"),("sidereal rotation","src/pvobs.cc"),("pole offset rotation","src/polmo.cc")])
p("O02","Line-of-sight velocity corrections are projections of the adopted motions",
 "The velocity components for Earth rotation, galactic rotation, the Local Group, and the dynamical and kinematical local standards of rest are the projections of the published velocity vectors on the given direction, so opposite directions give opposite values and no direction exceeds the vector's speed. The Earth-rotation component vanishes at the poles and on the meridian and is positive for receding (setting) stars.",
 "all directions, latitudes and sidereal times",
 T+" on one direction; other directions and latitudes are not reached.",
 "rverot rvgalc rvlg rvlsrd rvlsrk",[("fixed vectors and dot products","src/rverot.cc, src/rvgalc.cc, src/rvlg.cc, src/rvlsrd.cc, src/rvlsrk.cc")])
p("O03","The observatory catalogue is complete and found by number or by name",
 "Every catalogued observatory is returned by its index with its identifier, name, longitude, latitude and height, and the same entry is found by its identifier; an abbreviated identifier finds the first entry that begins with it. An index beyond the end or an unknown identifier reports failure and returns the documented 'unknown' values.",
 "all indices (in and out of range) and all identifier strings: full, abbreviated, unknown, empty, wrong case",
 T+" on a few entries; each entry and each failing lookup is its own case.",
 "obs",[("site table and lookup","src/obs.cc")])
p("R01","Refraction by the full atmosphere model is the published integral, everywhere",
 "For every observed zenith distance, site height, temperature, pressure, humidity, wavelength, latitude, lapse rate and precision request, the refraction is the two-layer atmosphere integral of the published model, odd in zenith distance, zero at zero pressure at radio wavelengths, with out-of-range conditions replaced by their nearest permitted values. The two refraction constants, by the exact and by the quick method, and the wavelength adjustment of those constants, follow their published formulae in both the optical and the radio regime.",
 "all atmospheric conditions, wavelengths on both sides of the optical/radio boundary, heights on both sides of the tropopause, zenith distances to beyond the horizon as long as the ray stays above the ground and is not trapped by extremely dense or humid air, out-of-range values",
 T+" on one or two conditions; clamps, regimes and the tropopause branch are not reached.",
 "refro refco refcoq atmdsp",[("layered ray integral","src/refro.cc"),("constants","src/refco.cc, src/refcoq.cc, src/atmdsp.cc")])
p("R02","Applying refraction and air mass behaves smoothly down to and below the horizon",
 "Applying the two refraction constants to a zenith distance gives the documented corrected observed zenith distance, continuous across the switch to the low-altitude model near 83 degrees and limited below the horizon; applying them to a direction vector moves it toward the zenith in its own vertical plane by the corresponding amount and keeps its azimuth and length to the documented accuracy. The air mass is the published polynomial in the secant of zenith distance, even in its argument and constant beyond about 87 degrees.",
 "all zenith distances (positive at and around 83, 87, 90 and 93 degrees and beyond; negative down to the switch to the low-altitude model), all directions, all refraction constants",
 T+" on a few zenith distances; branch points and low altitudes are not reached.",
 "refz refv airmas",[("tangent model and low-altitude fit","src/refz.cc, src/refv.cc"),("air mass clamp","src/airmas.cc")])
p("L01","Linear systems are solved and inverted correctly, or reported singular",
 "For any non-singular square matrix of any order, the solver replaces the matrix by its inverse and the vector by the solution of the system, and returns the determinant with its correct sign, whatever row exchanges are needed. For a matrix that is singular to working precision (no pivot, or a running product of pivots below 1e-20) it reports failure with a zero determinant.",
 "all orders from 1 up, all matrices including those with zero pivots needing row exchanges in any pattern, singular matrices, both precisions",
 T+" on one 3x3 matrix; larger orders, pivoting patterns and singular input are not reached.",
 "dmat smat",[("Gauss-Jordan elimination with pivoting","src/dmat.cc, src/smat.cc")])
p("L02","Singular value decomposition reproduces the matrix and its least-squares answers",
 "For any matrix with at least as many rows as columns the decomposition gives orthonormal columns, non-negative singular values and an orthogonal right factor whose product is the original matrix, stored in the leading part of possibly larger arrays whose remainder is untouched. The solution routine returns the minimum-norm least-squares solution, ignoring zeroed singular values, and the covariance routine returns the corresponding symmetric covariance matrix.",
 "all shapes, ranks (including rank-deficient and zero matrices), physical array sizes and right-hand sides",
 T+" on one matrix; rank deficiency, padding and other shapes are not reached.",
 "svd svdsol svdcov",[("Householder bidiagonalisation and QR iteration","src/svd.cc"),("back substitution","src/svdsol.cc"),("covariance","src/svdcov.cc")])
p("X01","Fitting a linear plate model gives the least-squares model or says why not",
 "Fitting expected to measured positions yields the linear six-coefficient model, or the rigid scale-rotation-translation four-coefficient model with the better of the two reflections, that minimises the sum of squared residuals (with just two samples, the unreflected rigid model); data generated by such a model are fitted exactly. Too few samples are reported as insufficient and leave the model argument untouched; degenerate data, whose normal equations are singular to working precision (for instance all measurements at one place), are reported as having no solution.",
 "all sample sets (any number from zero up, exact, noisy, coincident, collinear, reflected) and both model kinds",
 T+" on one small sample set; degenerate, reflected and minimal sets are not reached.",
 "fitxy",[("normal equations and reflection choice","src/fitxy.cc")])
p("X02","Plate models and radial distortion are applied, inverted and decomposed exactly",
 "Applying a plate model, predicting residuals with their RMS values, inverting the model and decomposing it into zero points, scales, non-perpendicularity and orientation are mutually consistent: the inverse undoes the model, and recomposing the decomposition gives the model back. A singular model is reported as not invertible. Removing radial distortion undoes applying it, for both barrel and pincushion coefficients.",
 "all model coefficients (including reflected, skewed and singular), sample sets, points and distortion coefficients of either sign or zero",
 T+" on one model; singular, reflected and negative-distortion cases are not reached.",
 "xy2xy pxy invf dcmpf pcd unpcd",[("linear model algebra","src/xy2xy.cc, src/pxy.cc, src/invf.cc, src/dcmpf.cc"),("cubic distortion and its inverse","src/pcd.cc, src/unpcd.cc")])
p("N01","Combination and permutation generators enumerate everything exactly once",
 "Started from the documented initial state, successive calls produce every combination of the requested size, or every permutation, exactly once in the documented order, each result well formed; the call after the last one reports exhaustion and delivers the first one again, after which the enumeration repeats identically. Invalid sizes are rejected without touching the arrays.",
 "all sizes, and all histories of calls from the initial state through exhaustion and beyond",
 T+" for one size; completeness over whole histories, wrap-around and other sizes are not reached.",
 "combn permut",[("mixed-radix state","src/permut.cc"),("lexicographic successor","src/combn.cc")],over=("inputs","histories"))
p("N02","Random deviates have the promised range and distribution over any history",
 "Successive uniform deviates lie in [0,1), are not stuck or starting over, and are uniformly and serially independently distributed, whatever seed argument is given; the seed of the first call of a process alone decides the sequence, and seeds that differ in their leading digits choose different ones. Successive Gaussian residuals have zero mean, the requested standard deviation and a normal distribution: each call takes the next element of one fixed standard normal sequence and multiplies it by its own argument, whatever deviations were requested before. The two generators do not disturb each other, and neither ever returns a non-finite value.",
 "all seeds and deviations and all call histories, including interleavings of the two generators",
 T+" a few times; range, distribution and long histories are not reached.",
 "random gresid",[("random engine and Box-Muller pairs","src/random.cc, src/gresid.cc")],over=("inputs","histories"))
p("N03","Every computation depends only on its arguments, never on earlier calls",
 "Apart from the random generators, any call anywhere in any sequence of library calls returns exactly the result it would return as the first call of a fresh process, and leaves its input arrays unchanged unless documented as outputs.",
 "all interleavings and repetitions of calls to all routines",
 T+" once, in one fixed order; state leaking between calls is invisible there.",
 "evp epv dmoon moon nutc refro svd fitxy obs dat rcc",[("absence of retained state: constant tables and local workspace only","src/*.cc")],over=("histories","inputs"))
p("N04","Concurrent calls from several threads do not disturb one another",
 "Built in its thread-safe configuration, the library may be called from any number of threads at once without locking. Every call, however it is interleaved with calls of the same or other routines in other threads, returns exactly what the same call returns when made alone, as long as the threads do not share output arguments. Each thread has its own uniform and Gaussian random streams, which start afresh in that thread and are advanced only by that thread's own calls.",
 "all interleavings, down to single accesses of shared memory, of calls to all routines by several threads",
 T+" in one thread; a result computed through static storage is right in every sequential test.",
 "gresid random dh2e dsep precl epv dmoon nutc refro",[("per-thread generator state","src/random.cc, src/gresid.cc"),("absence of shared mutable storage","src/*.cc"),("thread-safe configuration switch","src/slalib.h")],over=("schedules","histories","inputs"))
p("U01","Value types keep what is stored, under every name of a component",
 "Each of the library's value types (spherical directions and positions, Cartesian and spherical position-velocity pairs, mount state, sexagesimal result, plate coefficients) behaves as a record: a component keeps the last value written to it, through whichever of its names, index or view; it reads back the same through every getter, index and view that denotes it (longitude, right ascension and hour angle are one component, as are hours and degrees); writing one component changes no other; and a copy is independent of its original. A sign is plus exactly for the plus character or true.",
 "all histories of construction, writes, copies and reads, through all names, of all types in both precisions",
 "The suite reads a few fields after a call; aliases, views, constructors and non-interference are not exercised.",
 "",[("accessors, constructors and array views","src/slalib.h")],over=("histories","inputs"),observe=["getters, views and indices of Spherical, SphericalPos, VectorPV, SphericalPV, AltazMount, ConversionResult, FitCoeffs"])
P[-1]["anchors"]["files"]=["src/slalib.h"]
p("W01","The version forms agree, and a delay lasts the requested whole seconds",
 "The version string, of the form M.N-R, and the version number M * 1000000 + N * 1000 + R denote the same version. A requested delay holds the caller for that number of seconds rounded to the nearest whole second, never returning early and not oversleeping by a second, whatever signals the process handles meanwhile; a zero or negative delay returns at once.",
 "all delays (fractional either side of a half second, whole, zero, negative), every arrival of handled signals",
 "The suite compares the version with literals and never waits.",
 "vers veri wait",[("version constants","src/slalib.h, src/vers.cc, src/veri.cc"),("rounding of the delay","src/wait.cc")])
p("N05","A result may be stored over what it is computed from",
 "A routine that turns a vector, matrix, direction, proper-motion epoch place or linear model into another of the same type gives exactly the same result when the caller stores that result in the place of an input: vector normalisation and cross products, matrix-vector and matrix-matrix products and their transposed forms, refraction of a vector, inversion of a linear plate model, ecliptic / galactic / supergalactic / equatorial changes of frame, E-terms of aberration, proper motion between epochs, and tangent-plane point to direction. Whichever of two inputs of the result's type is overwritten, the result is that of distinct storage.",
 "all inputs of these routines, each possible sharing of the result with an input",
 "The suite always passes distinct storage, or shares it once for a single value.",
 "vxv dvxv vn dvn mxv dmxv imxv dimxv mxm dmxm refv invf eqecl ecleq eqgal galeq galsup supgal eg50 ge50 addet subet pm tp2s dtp2s tp2v dtp2v",[("local result before the store","src/mxm.cc, src/dmxm.cc, src/mxv.cc, src/imxv.cc, src/vxv.cc"),("read before write in frame changes","src/pm.cc, src/dtp2s.cc, src/eg50.cc")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
