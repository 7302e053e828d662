#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [],
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


T = 'py/desimeter/'
prop('C01', 'A positioner target resolves to in-range angles that really reach it',
     'Resolving an (x,y) target into (theta,phi) always returns angles inside the given travel ranges; unless flagged unreachable they put the fibre on the target, and without a guess phi is the one in [0,180] deg. '
     'A target whose primary arm configuration fits the ranges (modulo full turns) is never flagged unreachable; a target outside the reachable annulus always is, and gets the nearest annulus point when that point is within the ranges. '
     'With a theta guess the answer is, among both arm configurations and their +/-360 deg alternatives inside the ranges, the one closest to the guess when any is within the tolerance; a guess far from all of them changes nothing.',
     ['inputs', 'configurations'], 'all targets (inside, on the border of, outside the annulus), arm lengths, travel ranges, guesses and tolerances',
     'test_pos2ptl samples one arm geometry and default ranges with recorded points; the wraps, mirrored configuration, range edges and guess tolerance interact combinatorially',
     [T + 'transform/xy2tp.py'], [('annulus clamp, primary configuration, mirrored and rotated options, selection', T + 'transform/xy2tp.py:xy2tp'),
                                  ('wrap into travel range', T + 'transform/xy2tp.py:_wrap_into_range')], observe=['return value of xy2tp, tp2xy'])
prop('C02', 'The positioner coordinate chain is path independent for every input shape',
     'Along internal angles, external angles, local, flat and petal coordinates of a positioner, any walk through the provided transforms (elementary, composite, with or without a theta guess) that comes back to a system gives back the starting coordinates, within the accuracy of the flattening polynomials, for reachable configurations. '
     'Offsets add, arms follow two-link kinematics, flattening is radial. Scalars, lists, tuples and arrays, and scalar or per-positioner calibration vectors, give the same numbers element by element and inputs are not modified.',
     ['inputs', 'histories', 'configurations'], 'all points in travel range, all calibration parameters, all walks through the transform graph, all argument shapes',
     'the tests compare one recorded data set per transform with fixed shapes; walks, guesses near range ends and mixed scalar/vector parameters are not exercised',
     [T + 'transform/pos2ptl.py', T + 'transform/xy2tp.py', T + 'transform/xy2qs.py'],
     [('forward and inverse transforms and composites', T + 'transform/pos2ptl.py'), ('ranges shifted by the angle offsets', T + 'transform/pos2ptl.py:loc2ext')], observe=['return values of pos2ptl functions'])
prop('C03', 'Directed rotations end at the right angle, turning the way they were told',
     'The signed distance between two angles with a requested direction is congruent to final minus start modulo 360 deg, never opposes a requested direction, and equals the plain difference when the direction is unspecified or agrees with it. '
     'Against the natural direction it stays under one turn, except that whole numbers of turns stay the same number of turns. Scalars and vectors may be mixed freely.',
     ['inputs'], 'all pairs of angles, all directions, all mixtures of scalar and vector arguments',
     'the tests check a handful of angle pairs in one argument shape',
     [T + 'transform/pos2ptl.py'], [('delta_angle', T + 'transform/pos2ptl.py:delta_angle')], observe=['return value of delta_angle'])
prop('C04', 'Focal-plane coordinate frames are mutually consistent, everywhere and always',
     'For every petal, GFA, FVC lens model, tangent-plane and curved-surface frame, any chain of the provided transforms that returns to its starting frame returns the same coordinates within the documented accuracy, for any point of that frame, any ADC setting, and for scalars as for arrays. '
     'Petal and GFA placements are rigid motions and each location uses its own alignment; radius, surface distance and height agree with the focal surface tables.',
     ['inputs', 'histories', 'configurations'], 'all points of the focal plane, all ten petals, all GFAs, both FVC lenses, all ADC angle pairs, all orders of calls',
     'tests sample single frames and a few points; they do not compose frames, switch petals or ADC settings between calls, or visit all petals',
     [T + 'transform/ptl2fp.py', T + 'transform/gfa2fp.py', T + 'transform/dm2pm.py', T + 'transform/xy2qs.py', T + 'transform/rszn_lookups.py', T + 'transform/fvc2fp.py', T + 'transform/tan2fp/raytracefit.py', T + 'transform/tan2fp/echo22.py', T + 'transform/zhaoburge.py'],
     [('rigid petal alignment', T + 'transform/ptl2fp.py'), ('GFA affine per location', T + 'transform/gfa2fp.py'), ('Zhao-Burge distortion with iterative inverse', T + 'transform/fvc2fp.py'), ('ADC dependent ray-trace polynomials', T + 'transform/tan2fp/raytracefit.py')], observe=['return values of the transforms'])
prop('C05', 'Sky and focal-plane coordinates convert back and forth without loss',
     'For any pointing, date, sidereal time, ADC and field rotation, converting sky coordinates through hour angle, tangent plane and focal plane and back returns the same sky position, wrapping of RA and hour angle notwithstanding, for scalars as for arrays. '
     'Each correction (precession, aberration, refraction, polar misalignment, equatorial/horizontal, equatorial/ecliptic) is undone by its inverse, and the pointing centre maps to the field centre. The sidereal time computed from a date advances at the sidereal rate from the recorded exposures.',
     ['inputs', 'configurations', 'histories'], 'all sky positions the telescope can point at, all epochs 2019-2030, all LST, all ADC pairs, all rotations, scalars and arrays',
     'tests check a few pointings with loose tolerances and never combine corrections, RA wraps and array shapes',
     [T + 'transform/radec2tan.py', T + 'fieldmodel.py', T + 'fiberassign.py', T + 'trig.py', T + 'time.py'],
     [('radec2tan/tan2radec chain', T + 'transform/radec2tan.py'), ('FieldModel', T + 'fieldmodel.py'), ('fiberassign_radec2xy_cs5 and inverses', T + 'fiberassign.py')], observe=['return values'])
prop('C06', 'Matching two spot lists is one-to-one and keeps the nearest claimant',
     'Matching two lists of points in the same coordinate system returns for every point of the first list either nothing (at infinite distance) or its nearest point of the second list, with its true distance. '
     'Unless duplicates are asked for, no point of the second list is given to two points of the first; when several claim it, the nearest claimant keeps it, and a point stays unmatched only because another one holds its nearest point. An empty list matches nothing.',
     ['inputs'], 'all pairs of finite point lists (duplicates, ties, crowding, empty lists, any order)',
     'test_match uses one list and its jittered copy, where matching is trivially one-to-one',
     [T + 'match.py', T + 'averagecoord.py'], [('nearest neighbour and duplicate removal', T + 'match.py:match_same_system')], observe=['returned indices and distances'])
prop('C07', 'Pattern matching is unaffected by shift, rotation, scale, order or spurious',
     'Matching a small pattern of points with a shifted, scaled, slightly rotated and reordered copy of itself returns the true correspondence, whatever the order of either list, and also when the second list contains additional points. '
     'Every returned correspondence is one-to-one, and lists too short to form a triangle match nothing.',
     ['inputs'], 'all point patterns in general position, all shifts, scales and small rotations, all permutations, additional points',
     'the test uses one pattern with one translation and scale and no extra points',
     [T + 'match.py'], [('triangle invariants', T + 'match.py:compute_triangles_with_arbitrary_translation_dilatation'), ('duplicate removal', T + 'match.py:match_arbitrary_translation_dilatation')], observe=['returned indices'])
prop('C08', 'Fiducial pinholes are identified uniquely, correctly and order-independently',
     'When the spots on a simulated focal plane show the pinholes of enough fiducials, each identified spot carries the LOCATION and PINHOLE_ID of the pinhole it came from (for patterns distinguishable above the noise), every fully visible four-pinhole fiducial is identified, no (LOCATION, PINHOLE_ID) is given to two spots, and spots further from any fiducial than its extent are not labelled. '
     'The result does not depend on the order of the spot list, on labels left in it, nor on earlier calls with other input transforms; LOCATION, PETAL_LOC and DEVICE_LOC agree.',
     ['inputs', 'histories', 'configurations'], 'all spot lists (missing and additional spots, permutations) and input transforms, all call histories',
     'the test runs one image with one transform and checks only that most spots are found',
     [T + 'findfiducials.py', T + 'match.py'], [('expected pixel positions, isolation test, pattern match per fiducial', T + 'findfiducials.py:findfiducials')],
     state=[('metrology pinhole table', 'expected pixel positions of all pinholes, kept between calls', T + 'findfiducials.py')], observe=['returned table'])
prop('C09', 'Spots are assigned to positioners one-to-one, within reach, as many as can be',
     'Assigning measured spots to positioners gives each spot at most one positioner and each positioner at most one spot, only among bright spots that are not pinholes, and never a spot out of the reach of the arms (plus the margin) from the positioner centre. '
     'As many spots as possible are assigned. Each reported alternative is a possible assignment with as many spots; a positioner whose spot is ambiguous has an alternative, an unambiguous one has none, and the groups printed are exactly these possibilities.',
     ['inputs'], 'all configurations of positioner centres, arm lengths, expected positions and spots (crowded, missing, additional)',
     'there is no test of this module at all',
     [T + 'match_positioners.py'], [('reach-limited candidate graph, assignment solver, alternatives', T + 'match_positioners.py')], observe=['returned tables and dictionaries'])
prop('C10', 'Fitting the FVC-to-focal-plane map is keyed by identity, not by row order',
     'Fitting the FVC map on a simulated focal plane recovers the true map, whenever its free parameters can express it, whatever the order of spots, the order of the metrology rows, extra unmatched spots, or previous fits with the same object. '
     'Fixed scale or rotation, and a distortion that is not fitted, stay exactly as they were; each matched spot is given the metrology position of its own LOCATION and pinhole, unmatched spots get none, the fit statistics are those of the table, and nothing else in the tables changes.',
     ['inputs', 'histories', 'configurations'], 'all permutations of spots and metrology rows, missing and spurious spots, scale, rotation and offset values, fixed-parameter options, repeated fits',
     'test_fvc2fp fits one ordered table; joins keyed by row order would pass it',
     [T + 'transform/fvc2fp.py', T + 'transform/zhaoburge.py'], [('metrology join, polynomial fit, reduced coordinates', T + 'transform/fvc2fp.py:FVC2FP.fit')],
     state=[('fitted parameters', 'scale, rotation, offset, ZB coefficients of the object', T + 'transform/fvc2fp.py')], observe=['fitted object, spots table updated by fit'])
prop('C11', 'A saved model, read back, is the same model',
     'Writing any fitted or configured model (FVC map in every supported version, field model, tangent-plane correction, two-dimensional correction, ray-trace fit, dm/pm table) to its JSON form and reading it back yields a model that computes the same results for every input and writes the same JSON again. '
     'This holds for any parameter values, through text or file, and for any number of round trips.',
     ['inputs', 'histories', 'configurations'], 'all model parameter values and option flags, all sequences of configure, fit, save and load',
     'tests round-trip single default objects, and some models are never round-tripped',
     [T + 'transform/fvc2fp.py', T + 'fieldmodel.py', T + 'simplecorr.py', T + 'transform/dm2pm.py', T + 'transform/tan2fp/raytracefit.py'],
     [('tojson/fromjson', T + 'fieldmodel.py'), ('tojson/fromjson, write_jsonfile/read_jsonfile', T + 'transform/fvc2fp.py')], observe=['JSON text, outputs of the reloaded model'])
prop('C12', 'Results depend on arguments only: no call history leaks, inputs stay intact',
     'Any public computation gives the same result whatever computations were run before it in the same process, including failed ones, calls with other petals, ADC settings, transforms or calibrations, and repeated calls. '
     'Arrays, tables and dictionaries passed as inputs are not modified unless that is the documented purpose of the call.',
     ['histories', 'inputs'], 'all sequences of public calls in one process, including repeated, interleaved and failing ones',
     'tests run each function in isolation and look at outputs only; caches, module-level tables and in-place updates only show across calls',
     [T + 'transform/ptl2fp.py', T + 'transform/gfa2fp.py', T + 'findfiducials.py', T + 'posparams/fitter.py', T + 'posparams/fithandler.py', T + 'simplecorr.py', T + 'transform/radec2tan.py', T + 'transform/tan2fp/raytracefit.py', T + 'io.py'],
     [('module caches', T + 'transform/ptl2fp.py, gfa2fp.py, findfiducials.py, raytracefit.py'), ('module-level parameter tables', T + 'posparams/fitter.py')],
     state=[('module caches and parameter tables', 'values kept between calls', 'see files')], observe=['return values against a fresh process, inputs before and after'])
prop('C13', 'The FVC image pipeline gives every input exactly one coherent outcome',
     'A run of the FVC image program ends for each selected input frame in exactly one outcome: an output table that describes this frame, a documented skip (fewer spots than the minimum or more than the maximum: exit 0 and no table), or a nonzero exit and no table, never a table for a frame that failed or is missing; the frame is the one asked for (by name, the last numbered one, or all in sequence, one table each). '
     'Every detected spot appears once in the output, unchanged; focal-plane coordinates are those of the fitted and written transform (but for the turbulence correction asked for); fibers are given to the expected position that is nearest, within the maximum distance, in whichever form (LOCATION or petal and device, X_FP, X_FP_EXP or EXP_Q_0, FITS or CSV, empty entries) this is given. Matched rows carry consistent location, metrology or expected coordinates and name of their own device, unmatched rows none, and no location is used twice. '
     'process_fvc returns the kept table unless a new one is asked for, and never a table of an earlier image in place of a failure.',
     ['inputs', 'configurations', 'fault_sequences'], 'all combinations of options, input formats, frame sequences, expected-position tables and broken, missing or too sparse inputs',
     'no test runs the pipeline program',
     [T + 'processfvc.py', 'bin/desi_fvc_proc'], [('per-input processing, exit codes', T + 'processfvc.py:fvc_proc'), ('table assembly', T + 'processfvc.py:process_fvc')], observe=['output files, exit status'])
prop('C14', 'Calibration fits use exactly the valid rows, in windows that follow time',
     'Only rows of enabled positioners in which a move was made, whose log note contains every keyword of at least one requested alternative, take part in a calibration fit. '
     'Each analysis window is a contiguous run of rows in time order, holds at least the requested minimum of points whenever the data allow, and the result row reports exactly the dates and number of points of its window; the order of rows in the input file does not matter.',
     ['inputs', 'histories'], 'all tables of moves (any order, gaps, disabled periods, repeated move counts), all periods, window sizes and keyword selections',
     'no test covers calibration fitting',
     [T + 'posparams/fithandler.py', T + 'posparams/posmoveselection.py'], [('row filters', T + 'posparams/fithandler.py:_apply_filters'), ('windows', T + 'posparams/fithandler.py:_define_cases'), ('keyword selection', T + 'posparams/posmoveselection.py')], observe=['rows of the parameter file'])
prop('C15', 'Positioner calibration recovers the truth or says that it failed',
     'From error-free simulated measurements the calibration fit returns the arm lengths, offsets and scales that generated them, the same for a positioner whatever other positioners or windows were fitted before. '
     'A positioner that did not move in theta yields, like one with too little usable data, a parameter file whose flags say so and which carries no calibration values; flags name exactly the conditions present. A positioner with no move after a rehome is refused with an error.',
     ['inputs', 'histories', 'fault_sequences'], 'all positioner geometries, move sequences, stuck axes, rehome patterns, drifts and orders of fitting positioners',
     'no test covers calibration fitting',
     [T + 'posparams/fitter.py', T + 'posparams/fithandler.py', T + 'posparams/flags.py', T + 'posparams/movemask.py'], [('fit_params', T + 'posparams/fitter.py'), ('move flags', T + 'posparams/flags.py'), ('failure file', T + 'posparams/fithandler.py:write_failed_fit')],
     state=[('default values and bounds', 'module-level parameter tables shared by all fits', T + 'posparams/fitter.py')], observe=['fit_params result, parameter files'])
prop('C16', 'Bit masks translate names and values both ways without loss',
     'For every mask definition, each name has its own bit; combining names gives the or of their bits and naming a value gives exactly the names of its set bits, so going either way and back is the identity. '
     'Undefined names and bits, and additional attributes that would hide those of a bit, are reported, not ignored.',
     ['inputs', 'configurations'], 'all mask definitions, all combinations of names, bits and values, all ways of asking',
     'no test covers the bit mask class',
     [T + 'bitmask.py', T + 'posparams/movemask.py', T + 'posparams/posflags_mask.py'], [('BitMask', T + 'bitmask.py')], observe=['mask(), bitnum(), names(), bitname(), comment()'])
prop('C17', 'A fibre list expression denotes exactly the numbers it spells',
     'Parsing a fibre or device list expression returns, in order, exactly the numbers denoted by its comma-separated items: single numbers and half-open ranges (a:b, a..b or a-b); spaces are ignored. '
     'A malformed expression ends with an error and never with a wrong list.',
     ['inputs'], 'all expressions of the grammar and all malformed ones',
     'no test covers the parser',
     [T + 'util.py'], [('parse_fibers', T + 'util.py')], observe=['returned array, exit'])
prop('C18', 'Only calibrations that passed every check and the operator are committed',
     'In the table prepared for the instrument a value is marked for commit only if the operator said yes for that parameter and, when disabling is enabled, its positioner is not marked non-functional. '
     'Rows that fail any check (flags, bounds, outliers, fit error, offsets, arm lengths, missing values) are dropped, or marked non-functional with the reason; every other row is kept once, values unchanged; each positioner appears at most once and the row kept is the one the operator chose.',
     ['inputs', 'histories', 'configurations'], 'all input tables and all operator dialogues (answers, help, adjustments, retries, exit)',
     'the interactive program has no test',
     ['bin/prepare_posparams_for_instr'], [('row elimination', 'bin/prepare_posparams_for_instr:_eliminate_rows'), ('check functions and adjustment dialogue', 'bin/prepare_posparams_for_instr:Check'), ('commit dialogue', 'bin/prepare_posparams_for_instr')], observe=['output table, exit status'])
prop('C19', 'Merging calibration files keeps every row and refuses wrong locations',
     'The merged table holds every row of every input file once, in order, with unchanged values, and positioners missing their location get it from the metrology table by device id. '
     'If any location column contradicts the metrology for its device id, nothing is written and the program exits with an error, unless the check is switched off.',
     ['inputs', 'configurations', 'fault_sequences'], 'all sets of input files (empty, different columns, unknown or moved devices) and options',
     'the program has no test',
     ['bin/merge_posparams'], [('metrology cross-check', 'bin/merge_posparams')], observe=['output table, exit status'])
prop('C20', 'Each move is stored with the calibration in force when it was made',
     'Exporting move data writes for each positioner exactly the measured moves in the requested dates, exposures and iterations (plus tracked-angle updates when asked), each once with its own values. '
     'Each row carries the calibration record latest at or before the move, the location of its petal, and is marked as recently rehomed exactly for the listed exposures.',
     ['inputs', 'histories', 'configurations'], 'all contents of the move and calibration tables and all option combinations',
     'the export programs need a database and have no test',
     ['bin/get_posmoves', T + 'dbutil.py'], [('time join of calibration', 'bin/get_posmoves'), ('query to columns, petal locations', T + 'dbutil.py')], observe=['CSV files written, queries issued'])
prop('C21', 'Positioners reported safe to move together are safe',
     'A positioner is reported ok to move unless its two nearest neighbours are both closer than the limit and open an angle wider than the limit around it, and reported groups list each such positioner exactly once. '
     'Within each generated group of positioners no two members are closer than the safety distance, and no positioner is in two groups.',
     ['inputs', 'configurations'], 'all spot configurations, limits and group sizes',
     'the programs have no test',
     ['bin/ok2move', 'bin/select_groups_of_positioners'], [('neighbour test', 'bin/ok2move:ok2move'), ('greedy grouping', 'bin/select_groups_of_positioners')], observe=['printed and written groups'])
prop('C22', 'A field model fitted on guide stars maps detections back onto those stars',
     'Fitting the field model on simulated guide-star detections returns a model that maps each detection to its catalogue star, with the simulated field rotation, whatever the order of the stars, the mixture of guide cameras, the field, or earlier fits. '
     'Rows without a valid star or camera do not disturb it.',
     ['inputs', 'histories'], 'all star catalogues (orders, cameras, bad rows), pointings, rotations and offsets',
     'the test fits one recorded catalogue with a loose tolerance',
     [T + 'fieldmodel.py', T + 'transform/gfa2fp.py'], [('fit_tancorr, read_guide_stars_catalog', T + 'fieldmodel.py')], observe=['fitted model'])
prop('C23', 'Every bright spot of an image is detected once, where it is',
     'On a simulated image every spot well above the noise and away from the borders is reported exactly once, at its position to a fraction of a pixel, with an uncertainty that reflects the noise and counts that order the spots by brightness; nothing is reported where there is no light. '
     'This does not depend on the data type of the image, its background level, or the order of the spots, and the image is not modified.',
     ['inputs', 'configurations'], 'all spot arrangements with separations above the resolution, all image types, backgrounds and sizes',
     'the test has a few spots on one image size',
     [T + 'detectspots.py'], [('convolution, local maxima, centroid fit', T + 'detectspots.py')], observe=['returned table'])
prop('C24', 'Coordinate averaging and corrections act on corresponding spots only',
     'Averaging spot tables gives each spot found in all tables the mean of its own positions after removal of the relative shift, scale and rotation, and leaves the other columns and unmatched spots alone. '
     'A fitted two-dimensional or turbulence correction recovers a simulated shift, scale and rotation or smooth field, pairs entries by location and not by order, and does not depend on earlier fits of the same object.',
     ['inputs', 'histories'], 'all orders and contents of the tables, missing and additional entries, all shifts, scales and rotations, repeated fits',
     'test_corr fits one transform on one fresh object; averaging and turbulence have no test',
     [T + 'averagecoord.py', T + 'simplecorr.py', T + 'turbulence.py', T + 'match_positioners.py'], [('pairing', T + 'match.py:match_same_system'), ('SimpleCorr.fit', T + 'simplecorr.py'), ('make_data', T + 'turbulence.py')], observe=['returned tables and arrays'])
prop('C25', 'A circle fitted through measured positions is the one they lie on',
     'The circle fit returns the least squares centre and radius of the points, whatever their order, number (from three) and the place of the circle, or refuses when the radius is not one a positioner can have. '
     'With rejection, exactly the outliers are left out as long as they are fewer than one point in six. The table of circle centres lists exactly the devices measured often enough that moved (or are fiducials), each once, with its own centre and expected position.',
     ['inputs', 'configurations'], 'all point sets on arcs with noise and outliers; all histories of measured, doubly matched and missing exposures',
     'the test fits one circle of 20 points, with and without one outlier',
     [T + 'circles.py', 'bin/desi_fit_circles'], [('fit_circle, robust_fit_circle', T + 'circles.py'), ('selection of devices', 'bin/desi_fit_circles')], observe=['centre, radius, mask of points used', 'output table'])
prop('C26', 'Calls of the external matching program get their own answers',
     'Spot matching through the external program hands it exactly the measured spots, expected targets and fiducials of this call, and returns one row per spot it reported, with the identifiers the metrology has for that location and distinct pinhole numbers. '
     'The answer is never that of another call, running or earlier: a program that fails, writes nothing or is missing ends in an error.',
     ['inputs', 'schedules', 'histories', 'fault_sequences'], 'all interleavings of two calls, all behaviours of the program, all metrologies and outputs',
     'the program is not installed, the test returns at once',
     [T + 'spotmatch.py'], [('files of a call', T + 'spotmatch.py:spotmatch'), ('rows to devices', T + 'spotmatch.py:spotmatch')], observe=['files given to the program', 'returned table'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
