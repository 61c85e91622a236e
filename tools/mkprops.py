#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is diffable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
CORE = 'src/navigation_client_impl.cpp'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = list(observe)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('P01', 'Navigation is a function of map, settings and messages only',
  'Two navigation sessions built from equal maps and equal settings and fed equal messages report the same outputs and debug states, field for field. This holds whatever memory held before, whatever other sessions exist, were destroyed or are run in between in the same process, and with no decision or reported value taken from memory that was never written.',
  ['inputs', 'histories', 'configurations'], 'every map, settings record and message history; every interleaving of calls to several sessions in one thread; every initial memory content',
  'A test runs one session once in a fresh process, where memory happens to be zero; hidden state shows up only when memory is dirty or sessions are interleaved.',
  [CORE, 'src/navigation_client_impl.h', 'src/measurements/measurement_preprocessor.cpp', 'include/navigine/navigation-core/navigation_output.h', 'include/navigine/navigation-core/navigation_input.h', 'include/navigine/navigation-core/navigation_state.h'],
  [('NavigationClientImpl::navigate', CORE), ('MeasurementsPreprocessor', 'src/measurements/measurement_preprocessor.cpp')],
  [('session members', 'everything a session remembers', 'src/navigation_client_impl.h')])
p('P02', 'Sessions sharing one map may run in parallel threads',
  'Any number of navigation sessions built on one shared map may be created, run and destroyed concurrently in different threads without data races, and each reports exactly what it reports when run alone. The same holds for independent use of the geometry, conversion, triangulation and filter functions from several threads.',
  ['schedules', 'inputs'], 'every thread schedule of sessions that share a map; every message log given to each',
  'No test in the repository uses threads; a race needs a schedule and a detector to be seen at all.',
  [CORE, 'src/level_collector.cpp', 'src/level_geometry.cpp', 'src/knn/knn_utils.cpp', 'src/geometry.cpp', 'src/position_postprocessor/polynomial_fit.cpp'],
  [('shared LevelCollector read by several clients', 'src/level_collector.cpp'), ('createNavigationClient', CORE)])
p('P03', 'No measurement stream or settings can corrupt memory, hang or kill navigation',
  'For every well-typed map with settings for each of its levels, and for every message stream whatever its values (zero, negative, huge, infinite or not-a-number rssi, sensor values, coordinates and powers; repeated, backward and far-apart times within +-10^15 ms; empty batches; unknown identifiers), creating a session and navigating terminates, throws no exception and performs no out-of-bounds, use-after-free, leaked or undefined operation. The same holds for unusual settings: zero, negative, tiny or large times, distances and counts.',
  ['inputs', 'histories', 'configurations'], 'every message history and settings record over every well-typed map, including degenerate maps (no transmitters, no reference points, collinear reference points, empty graphs, no barriers)',
  'Tests feed a few friendly values; overflow, empty-container and non-finite paths need hostile ones and a sanitizer to observe them.',
  [CORE, 'src/measurements/measurement_preprocessor.cpp', 'src/position_estimator/position_estimator_knn.cpp', 'src/position_estimator/position_estimator_outdoor.cpp', 'src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/pedometer.cpp', 'src/position_postprocessor/polynomial_fit.cpp', 'src/triangulation.cpp'],
  [('NavigationClientImpl::navigate', CORE), ('to_minus_Pi_Pi', 'src/sensor_fusion/complementary_filter.cpp'), ('SigmaFilter::add', 'src/position_estimator/position_estimator_outdoor.cpp')])
p('P04', 'Batching is transparent and late messages have no effect',
  'Splitting a time-ordered message sequence into batches in any way yields the same concatenated outputs and debug states, with exactly one output and one debug state per message. Within one batch a message older than the latest one already accepted in it yields no output and changes nothing: the remaining outputs, now and later, are as if it had never been sent. An empty batch yields no output and changes nothing.',
  ['inputs', 'histories'], 'every message sequence, every way of cutting it into batches, every insertion of late messages',
  'The command line test calls with one message at a time only; the quantifier over cuts and insertions is untouched.',
  [CORE], [('NavigationClientImpl::navigate batch loop', CORE)],
  [('debug states', 'one per accepted message of the last batch', 'src/navigation_client_impl.h')])
p('P05', 'Every reported position is well formed',
  'An output with status OK names a level of the map (unless no level was ever needed), has a finite latitude and longitude which, without GNSS positions outside the map being allowed, lie within that level\'s bounding box to within a centimetre, a non-negative radius, a provider among GNSS, indoor and fused, and, while sensor values are finite, an orientation in [-pi, pi). An output with any other status carries no level, zero coordinates and provider "none".',
  ['inputs', 'histories', 'configurations'], 'every finite message stream, settings record and map',
  'Existing tests never inspect navigation outputs.',
  [CORE, 'src/position_postprocessor/position_postprocessor.cpp', 'include/navigine/navigation-core/navigation_output.h'],
  [('navigate: filling the output', CORE), ('getProcessedPosition: fitting inside the box', 'src/position_postprocessor/position_postprocessor.cpp')])
p('P06', 'Signals that must be ignored are ignored',
  'A radio message has no effect on any position, level or session timing when its transmitter is not on the map (unless unknown transmitters are allowed), its rssi is not below 0 or not above the configured cut-off, its signal type (WiFi/RTT or the Bluetooth family) is switched off, or its transmitter is a tracking locator while not tracking (or not one while tracking). All other radio messages from the map\'s transmitters are used; in distance measuring modes only round-trip-time signals are used and their rssi is not tested.',
  ['inputs', 'histories', 'configurations'], 'every mixture of accepted and ignorable radio messages, every signal setting',
  'No test covers measurement filtering; the property compares two histories.',
  ['src/measurements/measurement_preprocessor.cpp'],
  [('getValidSignalEntry / isSignalTypeSupported / isRssiValid / isTransmitterSupported', 'src/measurements/measurement_preprocessor.cpp')])
p('P07', 'Radio signals are windowed and averaged per transmitter, with model distances',
  'Signals are released once per window shift (the averaging time if the shift is zero or longer), one entry per transmitter holding the mean rssi and mean measured distance of its signals received within the averaging time and still kept; older ones are dropped except while standing still with stop handling on. With "closest transmitters" on only the configured number with the strongest mean rssi remain. Each released entry\'s distance is exp((A-rssi)/B) with its transmitter\'s own path-loss A and B, or, for round-trip-time signals, the mean measured distance less the configured offset.',
  ['inputs', 'histories', 'configurations'], 'every timed sequence of radio messages and every averaging time, shift, stop and closest-count setting',
  'Window edges, erasure and averaging depend on the history of arrival times, which no test explores.',
  ['src/measurements/measurement_preprocessor.cpp', 'src/measurements/measurement_preprocessor.h'],
  [('RadioMeasurementBuffer::extractMeasurements', 'src/measurements/measurement_preprocessor.cpp'), ('MeasurementsPreprocessor::extractRadioMeasurements', 'src/measurements/measurement_preprocessor.cpp')],
  [('measurement buffer', 'signals not yet dropped', 'src/measurements/measurement_preprocessor.h')])
p('P08', 'Zone positioning puts the user at the strongest transmitter of the level',
  'With zone positioning the indoor position is the location of the transmitter of the current level with the greatest averaged rssi, on that level, stamped with the message time, with radius sqrt(exp((A-rssi)/B))+1 from that level\'s configured A and B. Transmitters of other levels never influence it, and without any signal from the level there is no position.',
  ['inputs', 'configurations'], 'every set of averaged signals, level and level settings',
  'No test exercises any position estimator of the navigation core.',
  ['src/position_estimator/position_estimator_zone.cpp', 'src/level.cpp'],
  [('PositionEstimatorZone::calculatePosition', 'src/position_estimator/position_estimator_zone.cpp')])
p('P09', 'Fingerprint positioning is the weighted centre of the best reference points',
  'With fingerprint positioning and at least the configured number of signals known to the level\'s radio map, the position is the weight-averaged location of the heaviest triangle of reference points (or of the K heaviest reference points), where a reference point\'s weight grows as its recorded signal strengths (or their pairwise differences) agree better with the measured ones. It therefore lies in the convex hull of the reference points used, does not depend on the order of the signals, and coincides with the matching reference point when that one\'s weight dominates; with too few signals the previous position is kept.',
  ['inputs', 'configurations'], 'every radio map, every set of signals, triangle and K-neighbour modes, difference and absolute modes',
  'There is no test of fingerprint positioning; results over all radio maps need an independent reference computation.',
  ['src/position_estimator/position_estimator_knn.cpp', 'src/knn/knn_utils.cpp', 'src/radiomap.cpp', 'src/position_estimator/docs/KNN.md'],
  [('calcRpWeightsKnn, calcPositionInTriangle, calcKHeaviestRefPointsAverage', 'src/knn/knn_utils.cpp'), ('PositionEstimatorKnn::calculatePosition', 'src/position_estimator/position_estimator_knn.cpp')])
p('P10', 'Level detection by transmitters picks the level with the best signal score',
  'Without a radio map, the level detected from one set of averaged signals is the one with the greatest score (mean rssi of its own transmitters, plus their mean reference power when enabled) divided by (1 + 0.1 times the share of signals that are its own), among levels having at least one signal and a score above -1000. Signals of other levels count only in that share, and no signals means no detection.',
  ['inputs', 'configurations'], 'every assignment of transmitters to levels and every set of averaged signals',
  'No test exercises level detection.',
  ['src/level_estimator/level_estimator_transmitters.cpp'],
  [('LevelEstimatorTransmitters::detectCurrentLevel', 'src/level_estimator/level_estimator_transmitters.cpp')])
p('P11', 'Level detection by radio map picks the level whose fingerprints match best',
  'With a radio map, the level detected is the one whose fingerprints agree best with the averaged signals: the sum over signals of the mean of 1/(difference of absolute rssi + 0.1) over that level\'s reference points, times the number of signals it knows; or, in best-reference-point mode, the level owning the single heaviest reference point. A level none of whose fingerprints contain a received transmitter is never detected.',
  ['inputs', 'configurations'], 'every collection of level radio maps and every set of averaged signals, both modes',
  'No test exercises level detection.',
  ['src/level_estimator/level_estimator_radiomap.cpp', 'src/knn/knn_utils.cpp'],
  [('LevelEstimatorRadiomap::detectCurrentLevel, calcWeight, calcWeightBestRp', 'src/level_estimator/level_estimator_radiomap.cpp')])
p('P12', 'The reported level changes only after repeated detections',
  'The first detected level is adopted at once; afterwards the level changes to another one only when that one has been detected five times counted since the previous time any level reached its quota, and the level that just reached it keeps a head start of four. Moments without a detection leave both the level and the counts unchanged, so isolated wrong detections never move the user to another level.',
  ['histories'], 'every sequence of detections over any number of levels, including gaps',
  'The guarantee is about sequences of arbitrary length; no test feeds any.',
  ['src/level_estimator/level_history.cpp', 'src/level_estimator/level_estimator.cpp'],
  [('LevelHistory::detectLevelUsingHistory', 'src/level_estimator/level_history.cpp')],
  [('occurrence counts', 'detections per level since the last quota', 'src/level_estimator/level_history.h')])
p('P13', 'The barometer vetoes level changes without a height change',
  'With the barometer in use and enough pressure history (two consecutive full windows of about a hundred readings), the level changes only if the mean pressures of the newer and older windows correspond to a height difference above two metres in either direction; before that, or with non-positive mean pressure for the veto\'s purposes left unchanged, the radio decision alone counts. Messages of other sensors do not alter the pressure history.',
  ['inputs', 'histories'], 'every interleaving of pressure readings with level decisions',
  'Needs histories of hundreds of readings; no test feeds any.',
  ['src/level_estimator/barometer.cpp', 'src/level_estimator/barometer.h'],
  [('Barometer::checkLevelChange, updateBuffers, updateLevel', 'src/level_estimator/barometer.cpp')],
  [('pressure windows', 'newest and preceding readings', 'src/level_estimator/barometer.h')])
p('P14', 'GNSS fixes are accepted only when trustworthy and inside the map',
  'A satellite fix gives an outdoor position only if it lies in some level\'s bounding box (first such level; any position if outside-map fixes are allowed), its accuracy is not worse than the configured maximum, the reported satellite count is zero/unknown or at least the minimum, and, with the sigma filter on, it lies within three standard deviations plus the margin of the last full window of fixes. Its radius is the larger of the reported accuracy and the configured minimum, its coordinates are the fix in the level\'s frame. An accepted fix stays usable for at most the configured validity time after it was received, whatever other messages arrive.',
  ['inputs', 'histories', 'configurations'], 'every interleaving of fixes, satellite reports and other messages; every filter setting',
  'No test feeds a location fix.',
  ['src/position_estimator/position_estimator_outdoor.cpp', 'src/position_estimator/position_estimator_outdoor.h'],
  [('PositionEstimatorOutdoor::calculatePosition, SigmaFilter::add', 'src/position_estimator/position_estimator_outdoor.cpp')],
  [('sigma window', 'last fixes', 'src/position_estimator/position_estimator_outdoor.h')])
p('P15', 'Indoor and outdoor positions are fused by recency and accuracy',
  'The combined position is the indoor one when satellites are not used, indoor is preferred and valid, or the outdoor one is absent or older than the limit; the outdoor one when instant GNSS is on, or the indoor one is absent or older than the limit; otherwise, when fusing is on and the two are closer than their radii plus the border, the average weighted by the other\'s accuracy, which lies on the segment between them, carries the smaller of the two aged accuracies and the newer time; else the more accurate of the two. Accuracy of each source is the mean of its radius and its prior, which grows with walking speed times age up to the configured prior deviation.',
  ['inputs', 'histories', 'configurations'], 'every history of indoor and outdoor positions and every fusion setting',
  'No test exercises fusion.',
  ['src/position_postprocessor/position_postprocessor.cpp'],
  [('PositionPostprocessor::fusePositions, fillIndoorOutdoorPositionStates', 'src/position_postprocessor/position_postprocessor.cpp')],
  [('last indoor/outdoor position and accuracy', 'fusion memory', 'src/position_postprocessor/position_postprocessor.h')])
p('P16', 'The alpha-beta smoother filters noise but never invents or traps positions',
  'For increasing times the smoothed position is the alpha-beta prediction corrected by alpha of the innovation, alpha running from 0.9 (no smoothing) to 0.1 (full) or following relative accuracy clamped to that range; it restarts at the raw position, with zero speed, on the first call, after a gap over ten seconds, when the estimated speed exceeds 4 m/s with the speed constraint on, or when the result would leave the allowed area with barriers on. A position not newer than the last returns the last smoothed position unchanged, and a reset forgets speed and position.',
  ['inputs', 'histories', 'configurations'], 'every timed sequence of positions and resets, every smoothing setting and barrier layout',
  'Filter state depends on arbitrarily long histories; no test covers it.',
  ['src/position_postprocessor/position_smoother_ab.cpp'],
  [('PositionSmootherAB::smoothPosition, reset', 'src/position_postprocessor/position_smoother_ab.cpp')],
  [('position and speed', 'filter state', 'src/position_postprocessor/position_smoother_ab.h')])
p('P17', 'The least-squares smoother fits recent positions with a true least-squares line',
  'The fit equals the least-squares polynomial of the points no older than the time interval (consecutive equal values entered once), evaluated at the time minus the shift and blended with the previous output by the configured weight; with one point it returns that point, after a clear it starts afresh. Positions that leave the allowed area with barriers on are returned unsmoothed and restart the fit, and a non-finite fit leaves the position unchanged; the linear solver used returns the solution of every well-conditioned system.',
  ['inputs', 'histories', 'configurations'], 'every timed sequence of values, polynomial power and window; every well-conditioned linear system',
  'No test covers the fit or the solver.',
  ['src/position_postprocessor/polynomial_fit.cpp', 'src/position_postprocessor/position_smoother_lstsq.cpp'],
  [('PolynomialFit::addSequencePoint, predict, solveLinearSystem', 'src/position_postprocessor/polynomial_fit.cpp'), ('PositionSmootherLstsq::smoothPosition', 'src/position_postprocessor/position_smoother_lstsq.cpp')],
  [('fit window and last output', 'smoother state', 'src/position_postprocessor/polynomial_fit.h')])
p('P18', 'Time smoothing interpolates between the last two known positions',
  'Between two known positions of one level the time-smoothed position moves linearly from the older to the newer over a duration equal to their spacing, never extrapolating: later than that it is the last known position, and before any pair exists, for an empty position, or right after a level change it is the given position. It always lies on the segment between the last two known positions.',
  ['inputs', 'histories'], 'every sequence of positions, times and level changes',
  'No test covers time smoothing.',
  ['src/position_postprocessor/navigation_time_smoother.cpp'],
  [('NavigationTimeSmoother::getTimeSmoothedPosition', 'src/position_postprocessor/navigation_time_smoother.cpp')],
  [('previous and next position', 'interpolation ends', 'src/position_postprocessor/navigation_time_smoother.h')])
p('P19', 'Post-processing drops stale and off-map positions, clamps and rounds the rest',
  'Post-processing yields no position when the fused one is empty, outside the level\'s bounding box (unless outside-map fixes are allowed) or older than the dead-reckoning time. Otherwise the result lies inside the box rounded down to whole centimetres, is stamped with the current time, and when no smoothing, projection or stop handling is configured is within a centimetre of the fused position on the same level.',
  ['inputs', 'histories', 'configurations'], 'every fused position, time and level box, every setting',
  'No test covers post-processing.',
  ['src/position_postprocessor/position_postprocessor.cpp'],
  [('PositionPostprocessor::getProcessedPosition, isInsideMap', 'src/position_postprocessor/position_postprocessor.cpp')])
p('P20', 'A standing user\'s position is held',
  'With stop handling on and the last detected step at least the stop-detection time ago, the reported coordinates change at most once per stop-update time; as soon as a step is detected the position follows the measurements again. With stop handling off steps have no influence on the position.',
  ['inputs', 'histories', 'configurations'], 'every history of positions and steps',
  'Depends on timed histories; no test covers it.',
  ['src/position_postprocessor/position_postprocessor.cpp'],
  [('PositionPostprocessor::getProcessedPosition stop branch', 'src/position_postprocessor/position_postprocessor.cpp')],
  [('last step time, last update time', 'stop state', 'src/position_postprocessor/position_postprocessor.h')])
p('P21', 'Graph projection snaps to the nearest point of the route graph',
  'With graph projection on, a position closer than the projection distance to the level\'s graph becomes the nearest point of the graph (edges taken as closed segments, whatever their direction or order), and a position farther away, or on a level whose graph has no edges, is left unchanged.',
  ['inputs', 'configurations'], 'every graph and position, including degenerate edges',
  'No test covers graph projection.',
  ['src/position_postprocessor/position_postprocessor.cpp', 'src/geometry.cpp'],
  [('getProjection', 'src/position_postprocessor/position_postprocessor.cpp'), ('GetProjection', 'src/geometry.cpp')])
p('P22', 'Geographic and local coordinates convert consistently',
  'Converting geographic coordinates to local metres about a binding point and back returns the same point (longitude modulo 360), in every hemisphere and across the antimeridian, with x east, y north, the binding point at the origin, one degree of latitude equal to 40008000/360 m and one degree of longitude to 40075160*cos(binding latitude)/360 m. Returned longitudes lie in (-180, 180] for inputs at most one turn away.',
  ['inputs'], 'every point and binding point away from the poles',
  'No test covers the conversion.',
  ['src/point.cpp'], [('gpsToLocal, localToGps', 'src/point.cpp')])
p('P23', 'A map keeps all its content when converted to the local frame',
  'Adding levels to a map preserves every transmitter (identifier, type, path-loss model, position, height = level altitude plus own altitude), reference point with its fingerprints, graph vertex and edge, area polygon with its holes, and bounding box, all expressed about the south-west corner of the level\'s box. Every transmitter is found on the first added level that contains it, every added level is found by its identifier, and nothing else is found.',
  ['inputs', 'configurations'], 'every set of levels',
  'No test builds a map.',
  ['src/level_collector.cpp', 'src/level.cpp', 'src/radiomap.cpp', 'src/barriers_geometry_builder.cpp', 'include/navigine/navigation-core/graph.h'],
  [('LevelCollector::addGeoLevel, findLevelByTransmitterId', 'src/level_collector.cpp'), ('Level::addTransmitters', 'src/level.cpp'), ('getGeometry', 'src/barriers_geometry_builder.cpp')])
p('P24', 'Plane geometry functions return the mathematically right answer',
  'Distances, point-segment distances, point-line distances, signed triangle areas, 2x2 and 3x3 determinants, projections, segment intersections (point and yes/no), point-on-segment and ray-crossing tests agree with exact geometry for every argument not within rounding distance of a degenerate case. Distance, area and intersection tests are symmetric under exchanging and reversing segments, and operations across different levels are not-a-number.',
  ['inputs'], 'every argument away from the documented tolerances',
  'No test covers the geometry functions.',
  ['src/geometry.cpp', 'src/geometry.h'],
  [('GetDist, SegmentPointDist, GetArea, Determinant, GetProjection, GetIntersection, CheckIntersection, PointOnLine, XRayIntersectsLine', 'src/geometry.cpp')])
p('P25', 'A path touches barriers exactly when it leaves the allowed area',
  'A path is reported as touching barriers exactly when it is not covered by the outer boundary of some allowed zone or meets one of the holes of the allowed area, for any number of zones and holes and whatever the orientation, or closing point, the polygons were given with.',
  ['inputs', 'configurations'], 'every set of zones with holes and every path',
  'No test covers barriers.',
  ['src/level_geometry.cpp', 'src/barriers_geometry_builder.cpp'],
  [('LevelGeometry::isPathTouchesBarriers', 'src/level_geometry.cpp')])
p('P26', 'Reference points are triangulated by a Delaunay triangulation',
  'For reference points in general position every returned triangle has three distinct reference points as corners, no reference point lies strictly inside its circumscribed circle, no two triangles overlap, none is repeated, and no edge is longer than the level\'s larger side; every triangle of well-shaped points that satisfies this in the interior is present. The result depends only on the set of points, not on their order, and one level that cannot be triangulated does not affect the other levels. Edges and triangles measure (length, area, sines, circumscribed circle) as plane geometry says and order lexicographically by place.',
  ['inputs', 'configurations'], 'every finite set of points in general position, every edge bound and level mix',
  'No test covers triangulation.',
  ['src/triangulation.cpp', 'src/triangulation.h', 'src/knn/knn_utils.cpp'],
  [('TriangulateVertices', 'src/triangulation.cpp'), ('triangulate', 'src/knn/knn_utils.cpp')])
p('P27', 'Steps are counted from acceleration as documented',
  'A step is reported exactly when the acceleration magnitude, averaged over 0.2 s less its average over 2.5 s, crosses 0.05 g upwards more than 0.3 s after the previous possible step; its length is 0.52 times the fourth root of the filtered swing over the last 0.7 s, times the step multiplier. A resting device never makes steps, other sensors\' messages never make steps, and the step count equals the number of steps reported so far.',
  ['inputs', 'histories'], 'every acceleration history and sampling pattern',
  'The navigation core\'s pedometer has no test.',
  ['src/sensor_fusion/pedometer.cpp', 'src/sensor_fusion/sensor_fusion.cpp'],
  [('Pedometer::update, calculateSteps, calculateStepLength', 'src/sensor_fusion/pedometer.cpp'), ('SensorFusion::calculateDisplacement', 'src/sensor_fusion/sensor_fusion.cpp')],
  [('acceleration and magnitude windows', 'pedometer state', 'src/sensor_fusion/pedometer.h')])
p('P28', 'The orientation filter follows gyroscope, gravity and magnetic field',
  'The orientation stays a unit rotation; gyroscope readings rotate it by angular rate times elapsed time, accelerometer readings pull it towards the measured gravity by the configured gain, magnetometer readings pull the heading towards magnetic north only while no gyroscope has been seen, and other sensors leave it unchanged. Held in any fixed attitude with consistent gravity the roll and pitch converge to that attitude, and the magnetic azimuth reported is that of the tilt-compensated field, in [-pi, pi).',
  ['inputs', 'histories'], 'every time-ordered sensor history; every fixed attitude',
  'The navigation core\'s filter has no test; the standalone copy is tested for two static tilts.',
  ['src/sensor_fusion/complementary_filter.cpp', 'src/sensor_fusion/quaternion.cpp', 'src/sensor_fusion/sensor_fusion.cpp'],
  [('ComplementaryFilter::update, updateUsingGyroscope, updateUsingAccelerometer, updateUsingMagnetometer, calculateMagneticAzimuth', 'src/sensor_fusion/complementary_filter.cpp')],
  [('orientation quaternion', 'filter state', 'src/sensor_fusion/complementary_filter.h')])
p('P29', 'Quaternion and vector arithmetic obeys its algebra',
  'In the navigation core and in the standalone projects alike, quaternion product, sum, conjugate, normalisation and Euler angles, and vector sum, difference, scaling, dot and cross products, magnitude, normalisation, equality and angle wrapping satisfy their defining identities for all finite arguments: norms multiply, products associate and compose rotations, conjugation inverts unit rotations, Euler angles of a rotation reproduce it, cross products are orthogonal, wrapped angles lie in [-pi, pi) and differ from the argument by whole turns.',
  ['inputs'], 'all finite arguments of moderate size, including zero and axis-aligned ones',
  'No test covers the arithmetic directly.',
  ['src/sensor_fusion/quaternion.cpp', 'src/vector3d.cpp', 'include/navigine/navigation-core/vector3d.h', 'src/sensor_fusion/complementary_filter.cpp', 'standalone_algorithms/complementary_filter/src/quaternion.cpp', 'standalone_algorithms/complementary_filter/src/vector3d.cpp', 'standalone_algorithms/pedometer/src/vector3d.cpp'],
  [('Quaternion operators, toEuler, normalized', 'src/sensor_fusion/quaternion.cpp'), ('Vector3d operators', 'src/vector3d.cpp'), ('to_minus_Pi_Pi', 'src/sensor_fusion/complementary_filter.cpp')])
p('P30', 'Altitude comes from a least-squares trilateration of at least four transmitters',
  'With altitude on, distances to at least four mutually consistent transmitters (spheres that reach each other; in order of increasing distance each one not yet dropped drops those it does not reach) of the level yield the altitude computed from the least-squares horizontal position; each transmitter adds (its height plus its vertical offset to that position) divided by its distance, where the vertical offset is the leg of the right triangle of distance and horizontal separation, imaginary ones being skipped. With fewer transmitters, or none usable, the altitude is not reported.',
  ['inputs', 'configurations'], 'every layout of transmitters and every set of distances',
  'The navigation core\'s altitude computation has no test.',
  ['src/trilateration.cpp', CORE], [('Trilateration::calculateAltitude, getIntersectedMeasurements', 'src/trilateration.cpp')])
p('P31', 'Maps are read from GeoJSON without loss',
  'Every level, transmitter, reference point with its fingerprints, route graph and allowed area of a well-formed map document is read with exactly its stated values, coordinates in the document\'s longitude-latitude order, features attributed to the level they name, whatever the order of features and keys; a transmitter that states no path loss has A = -80 and B = 3, one that states no height has none of its own. Each graph vertex exists once (points within 0.1 m of each other are one vertex), and edges connect the vertices whose coordinates the document gives.',
  ['inputs'], 'every well-formed map document',
  'No stable test reads a map.',
  ['tools/verification/helpers.cpp', 'include/navigine/navigation-core/README.md'],
  [('ParseGeojson and its helpers', 'tools/verification/helpers.cpp')])
p('P32', 'Measurement logs are read without loss',
  'Every measurement of a well-formed log becomes one message with its time, type, transmitter identifier and all documented values (rssi, distance, transmit power, standard deviation, sensor axes, satellite counts), in the order of the log, whatever the order of keys within an entry.',
  ['inputs'], 'every well-formed measurement log, all documented entry types',
  'No stable test reads a log.',
  ['tools/verification/helpers.cpp', 'include/navigine/navigation-core/README.md'],
  [('GetNavMessages and its helpers', 'tools/verification/helpers.cpp')])
p('P33', 'Settings are read without loss and defaults fill the gaps',
  'Every documented setting present in a settings document takes exactly its value, for common and per-level settings alike, and every setting absent from it takes its documented default, independently of which other settings are present and in which order.',
  ['inputs', 'configurations'], 'every subset of settings with every value',
  'No stable test reads settings.',
  ['tools/verification/helpers.cpp', 'include/navigine/navigation-core/navigation_settings.h'],
  [('CreateSettingsFromJson and its helpers', 'tools/verification/helpers.cpp')])
p('P34', 'Standalone trilateration weighs beacons by nearness, repeatably',
  'The coordinates computed are the mean of the positions of the known measured beacons, each weighted by the inverse of its distance (a zero distance counting as a millionth of a metre, so a beacon at hand takes practically all the weight). Repeated measurements of one beacon count as one with their average distance, and unknown beacons are ignored. A negative or non-finite distance, including one never set, yields ERROR_IN_TRILATER; fewer than three distinct measured beacons, or none of them known, yield ERROR_NO_SOLUTION_TRILATERATION. The result of a calculation depends only on the current beacons and measurements, not on earlier calculations, on copying the object or on the order of measurements, and no input corrupts memory or hangs.',
  ['inputs', 'histories'], 'every beacon layout, measurement set and sequence of calculations on one object',
  'The one existing test tries a single layout once and accepts nearly any result.',
  ['standalone_algorithms/trilateteration/src/trilateration.cpp', 'standalone_algorithms/trilateteration/src/beacon.cpp'],
  [('Trilateration::calculateCoordinates', 'standalone_algorithms/trilateteration/src/trilateration.cpp'), ('deleteDuplicateMeasurements, filterUnknownBeacons, calculateTrilaterationCoordinates', 'standalone_algorithms/trilateteration/src/trilateration.cpp')],
  [('beacons, measurements, coordinates', 'object state', 'standalone_algorithms/trilateteration/src/trilateration.h')])
p('P35', 'Standalone position estimation follows its documented pipeline',
  'The standalone preprocessor uses signals of enabled types with an rssi strictly between -100 and 0; once at least the shift time (the averaging time when the shift is zero or longer) has passed since the last release it releases one entry per transmitter with the mean rssi and mean distance of its signals newer than the previous release or still within the averaging time, at most the five strongest, in order of strength. The estimator ignores unregistered transmitters, takes the place of the strongest one with radius sqrt(exp((-82-rssi)/3))+1 and the time of the last signal used, and smooths with the fixed-gain alpha-beta filter, restarting at the raw place on the first call and after more than ten seconds; a position not newer than the last leaves the last one standing, and without registered signals there is none. No input corrupts memory or hangs.',
  ['inputs', 'histories'], 'every timed measurement sequence, averaging and shift time and transmitter set',
  'The standalone estimator has no test.',
  ['standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp', 'standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp', 'standalone_algorithms/position_estimation/src/position_smoother.cpp'],
  [('MeasurementsPreprocessor, NearestTransmitterPositionEstimator, PositionSmoother', 'standalone_algorithms/position_estimation/src')],
  [('measurement buffer, position and speed', 'object state', 'standalone_algorithms/position_estimation/include')])
p('P36', 'The standalone pedometer counts steps as documented',
  'The standalone pedometer reports a step exactly when the acceleration magnitude, averaged over 0.2 s less its average over 2.5 s, crosses 0.05 g upwards more than 0.3 s after the previous step, with length 0.52 times the fourth root of the filtered swing over the last 0.7 s. Every sample is examined once, so feeding the same samples one at a time or in groups, with any number of updates between queries, reports the same steps; a resting device makes none, and no input corrupts memory or hangs.',
  ['inputs', 'histories'], 'every acceleration history, sampling pattern and grouping of updates and queries',
  'The pedometer tests need log files the build does not provide; they cover a few recorded walks, one sample per query.',
  ['standalone_algorithms/pedometer/src/pedometer.cpp', 'standalone_algorithms/pedometer/src/vector3d.cpp'],
  [('Pedometer::update, calculateSteps, calculateStepLength', 'standalone_algorithms/pedometer/src/pedometer.cpp')],
  [('acceleration and magnitude windows', 'pedometer state', 'standalone_algorithms/pedometer/include/pedometer.h')])
p('P37', 'The standalone complementary filter tracks attitude',
  'The standalone filter keeps a unit orientation: gyroscope readings rotate it by rate (plus the accumulated drift correction) times elapsed time, accelerometer readings pull it towards the measured gravity by their gain, magnetometer readings pull the heading towards magnetic north only while no gyroscope has been seen, and other sensors leave it unchanged. It converges to the roll and pitch given by gravity (and, without a gyroscope, to magnetic north) for every fixed attitude outside the neighbourhood of the unstable opposite, reports the tilt-compensated magnetic azimuth in [-pi, pi), the fused azimuth as minus the yaw and the device azimuth as last given. No input corrupts memory or hangs.',
  ['inputs', 'histories'], 'every time-ordered sensor history; every fixed attitude',
  'Its one stable test checks two static tilts.',
  ['standalone_algorithms/complementary_filter/src/complementary_filter.cpp', 'standalone_algorithms/complementary_filter/src/quaternion.cpp', 'standalone_algorithms/complementary_filter/src/vector3d.cpp'],
  [('ComplementaryFilter::update and its helpers', 'standalone_algorithms/complementary_filter/src/complementary_filter.cpp')],
  [('orientation quaternion, drift, azimuths', 'filter state', 'standalone_algorithms/complementary_filter/include/complementary_filter.h')])
p('P38', 'Loss of signal resets navigation and is reported',
  'When no usable radio signal has arrived for the configured no-signal time the level is dropped, so no new indoor position is produced until signals return, and a satellite position is used instead if there is one. Before any position is known each output carries a non-OK status: "no level" while no level is known, and otherwise the estimator\'s own reason or a general error; once a position has been reported the last one is repeated while no level and no newer position is known.',
  ['histories', 'configurations'], 'every timed history of signals, gaps and satellite fixes',
  'No test checks statuses or time-outs.',
  [CORE], [('navigate: no-signal handling and status', CORE)],
  [('last signal time, last position', 'session state', CORE)])
p('P39', 'The reported heading follows the configured source',
  'The orientation reported with an indoor position is the magnetic azimuth when azimuth calculation is on, otherwise the device\'s own azimuth while it is no older than its configured lifetime (age measured up to the latest sensor message), otherwise that of a zero position heading (pi/2 clockwise from north); it is wrapped to [-pi, pi), and with east-north-up azimuths on it is pi/2 minus that angle.',
  ['histories', 'configurations'], 'every sensor history and heading setting',
  'No test checks headings in navigation outputs.',
  [CORE, 'src/sensor_fusion/sensor_fusion.cpp', 'src/sensor_fusion/complementary_filter.cpp'],
  [('navigate: azimuth selection', CORE), ('SensorFusion::calculateDisplacement', 'src/sensor_fusion/sensor_fusion.cpp'), ('ComplementaryFilter::isDeviceAzimuthOutdated', 'src/sensor_fusion/complementary_filter.cpp')])
p('P40', 'Malformed map, log or settings files never corrupt memory or hang',
  'Reading any byte sequence as a map, measurement log or settings document terminates, and either yields a result or reports failure through a C++ exception derived from the standard exception type; no byte sequence makes it access memory out of bounds, use freed memory, leak, or perform undefined operations (conversions of floating-point numbers too large for an integer field, which the JSON library leaves to the compiler, aside). Documents nested too deeply are refused.',
  ['inputs'], 'all byte sequences, in particular truncated, mutated and type-confused documents',
  'Tests read well-formed documents at best.',
  ['tools/verification/helpers.cpp'], [('ParseGeojson, GetNavMessages, CreateSettingsFromJson', 'tools/verification/helpers.cpp')])
p('P41', 'Radio-map likelihoods favour particles near the fingerprint solution',
  'Particle weights computed from a radio map are non-negative, sum to one when there are enough signals and a solution, and are inversely proportional to (0.1 m + distance to the fingerprint position); with too few signals all particles weigh the same, and without a solution all weigh nothing. With enough signals the sampling centre and single-point weights use that same position, and "enough signals" tests count exactly the signals known to the level\'s radio map. A point counts as inside the intersection of the signals\' circles exactly when no circle about a transmitter with the measured distance leaves it out.',
  ['inputs', 'configurations'], 'every radio map, signal set and particle set',
  'No test covers likelihoods.',
  ['src/likelihood/likelihood_radiomap.cpp', 'src/likelihood/likelihood.cpp'],
  [('LikelihoodRadiomap::calculateWeights, getWeight, calculateSamplingCenters', 'src/likelihood/likelihood_radiomap.cpp'), ('isParticleInIntersectionArea', 'src/likelihood/likelihood.cpp')])
p('P42', 'A session composes its stages as documented on every message',
  'For every message, in order, a session updates signals and motion, detects the level, locates the user on it, combines with the satellite position, smooths and post-processes, and reports that position in geographic coordinates with its level, radius and provider; each stage sees the results of this message\'s earlier stages and only those. The debug states report this message\'s step count and length and the latest indoor and outdoor positions.',
  ['inputs', 'histories', 'configurations'], 'every message history over every map and settings record, all stages enabled in every combination',
  'No stable test runs a whole session.',
  [CORE, 'src/position_postprocessor/position_postprocessor.cpp', 'src/sensor_fusion/sensor_fusion.cpp', 'src/level_estimator/level_estimator.cpp'],
  [('NavigationClientImpl::navigate', CORE)])
p('P43', 'Only time differences matter, not when a session takes place',
  'Adding one constant to the times of all messages of a session changes nothing it reports but the times themselves: the same positions, levels, radii, statuses and debug states come out, with headings equal to a millionth of a radian. Both histories start at least 10^9 ms (with motion sensors 2*10^11 ms) after the epoch and end before about 10^15 ms; in particular crossing midnight, an hour or a power of two of the clock makes no difference.',
  ['inputs', 'histories', 'configurations'], 'every message history, map and settings record, and every pair of starting times',
  'The recorded test logs all take place at one time; clock arithmetic fails only at particular instants.',
  [CORE, 'src/measurements/measurement_preprocessor.cpp', 'src/sensor_fusion/pedometer.cpp', 'src/position_estimator/position_estimator_outdoor.cpp', 'src/position_smoother/position_smoother_ab.cpp', 'src/position_smoother/position_smoother_lstsq.cpp', 'src/position_postprocessor/navigation_time_smoother.cpp'],
  [('timestamps kept by every stage', CORE)])
p('P44', 'Names and the order transmitters are listed in carry no meaning',
  'Giving every level, transmitter and reference point of a map (and of the messages and settings) a different non-empty name, such that the names keep their alphabetical order, and listing the transmitters of each level in another order, changes no output or debug state other than the reported level name, which is the new one. Names may hold any bytes, be of any length, look like numbers or like "unknown", and differ only at their ends.',
  ['inputs', 'histories', 'configurations'], 'every map, settings record and message history, and every order-preserving renaming',
  'Fixtures use one style of name; special treatment of particular names or truncation shows up with others only.',
  [CORE, 'src/level_collector.cpp', 'src/level_estimator/level_estimator.cpp', 'src/measurements/measurement_preprocessor.cpp', 'src/radiomap.cpp', 'include/navigine/navigation-core/identifier.h'],
  [('identifiers as map keys', 'src/measurements/measurement_preprocessor.h'), ('level lookup', 'src/level_collector.cpp')])
p('P45', 'What the settings switch off has no effect',
  'No output or debug state depends on: particle filter parameters; heights and round-trip-time offset unless altitude is used; path loss and powers of transmitters when neither altitude nor transmitter powers are used; radio map contents and level radio-map switches unless fingerprints are used; level path loss and the radio map switch with fingerprint positioning; fingerprint settings with zone positioning; closest-transmitter count, stop, smoother, graph, barrier, pressure, fusion and sigma-filter settings and data while their switch is off; GNSS settings and satellite reports without fixes; the rssi cut-off in distance modes; step settings without accelerometer; the device azimuth when calculated; transmitters never heard; and readings\' unused parts.',
  ['inputs', 'histories', 'configurations'], 'every map, settings record and message history, and every change of what these settings switch off',
  'Tests use a few fixed settings; a leak of one setting into another stage needs pairs of sessions that differ in it alone.',
  [CORE, 'src/position_postprocessor/position_postprocessor.cpp', 'src/level_estimator/level_estimator.cpp', 'src/level_estimator/level_estimator_radiomap.cpp', 'src/level_estimator/level_estimator_transmitters.cpp', 'src/position_estimator/position_estimator_outdoor.cpp', 'src/measurements/measurement_preprocessor.cpp', 'src/sensor_fusion/sensor_fusion.cpp'],
  [('settings read by every stage', CORE)])
p('P46', 'Navigating from documents equals navigating from memory',
  'Navigation over a map, a message log and settings written as documents and read by the tools yields the same outputs and debug states, message by message, as navigation over the same map, messages and settings handed over in memory (positions to 3 cm, headings to 10^-6): whatever the order of features, keys and levels, the notation of numbers and which settings are given or left to their defaults.',
  ['inputs', 'histories', 'configurations'], 'every map, log and settings record that documents can express, and every way of writing them',
  'The end-to-end test reads one set of files and compares nothing.',
  ['tools/verification/helpers.cpp', 'tools/verification/helpers.h', CORE],
  [('ParseGeojson, GetNavMessages, CreateSettingsFromJson', 'tools/verification/helpers.cpp'), ('createNavigationClient', CORE)])
p('P47', 'Graphs, models, identifiers, points and states hold what they are given',
  'A route graph numbers vertices in the order added, refuses an edge with an unknown end by a logic error and otherwise keeps each undirected edge once, and answers for exactly the vertices it has; copies are independent. A path-loss model gives A - B*ln(max(distance, 1 cm)), never growing with distance. A radio map returns each reference point it was made of, unchanged, and no other. Identifiers compare as their text and are valid exactly when not empty. A new debug state is empty and returns what was set; new points are at zero, a new level is empty and a new output is an error without a position; transmitters compare by identifier.',
  ['inputs', 'histories'], 'every sequence of graph operations, every distance, radio map, identifier text and debug state content',
  'The graph test adds a handful of fixed vertices; the others have no test.',
  ['include/navigine/navigation-core/graph.h', 'include/navigine/navigation-core/transmitter.h', 'src/radiomap.cpp', 'include/navigine/navigation-core/identifier.h', 'include/navigine/navigation-core/navigation_state.h'],
  [('Graph', 'include/navigine/navigation-core/graph.h'), ('PathlossModel', 'include/navigine/navigation-core/transmitter.h'), ('Radiomap', 'src/radiomap.cpp'), ('Identifier', 'include/navigine/navigation-core/identifier.h')])
p('P48', 'Sessions use bounded memory and give all of it back',
  'However long a session lasts, the memory it holds stays bounded by its windows and its map: fed the same walk again and again, it stops growing once its windows are full (a user standing still with stop detection on, whose signals are kept until he moves, excepted). When a session and its map are dropped, in either order, everything they allocated is freed, and nothing of one map stays behind in the process.',
  ['histories', 'configurations'], 'every length of history, every map and settings, every order of dropping a map and its sessions',
  'Tests run for seconds over one log and end with the process; growth and leftovers are invisible to them.',
  ['src/navigation_client_impl.cpp', 'src/measurements/measurement_preprocessor.cpp', 'src/sensor_fusion/pedometer.cpp', 'src/level_estimator/barometer.cpp', 'src/position_postprocessor/position_postprocessor.cpp', 'src/position_estimator/position_estimator_outdoor.cpp'],
  [('NavigationClientImpl::navigate', 'src/navigation_client_impl.cpp'), ('RadioMeasurementBuffer::extractMeasurements', 'src/measurements/measurement_preprocessor.cpp'), ('Pedometer::update', 'src/sensor_fusion/pedometer.cpp'), ('Barometer::updateBuffers', 'src/level_estimator/barometer.cpp')])
p('P49', 'Beacon and measurement records of the standalone trilateration are values',
  'A beacon, iBeacon or measurement returns exactly what was last set in it, and a copy keeps it whatever becomes of the original. Beacons and measurements are equal exactly when their identifiers are, measurements order by distance, and by name in byte order. Filtering against a map removes exactly the measurements of unknown beacons, keeps the others in their order and points each at the first beacon with its identifier.',
  ['inputs', 'histories'], 'every content of records, every order of setting and copying, every map and measurement list',
  'No test covers the standalone algorithms.',
  ['standalone_algorithms/trilateteration/src/beacon.cpp', 'standalone_algorithms/trilateteration/src/trilateration.cpp'],
  [('BeaconMeas::operator<', 'standalone_algorithms/trilateteration/src/beacon.cpp'), ('Trilateration::filterUnknownBeacons', 'standalone_algorithms/trilateteration/src/trilateration.cpp'), ('findBeaconForMeas', 'standalone_algorithms/trilateteration/src/trilateration.cpp')])
with open(OUT, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
