# One prop(...) per property; run tool/catalog.py after editing.

prop('R01', 'Rotation algebra is exact for every quaternion and vector',
     'The cross-product matrix, the left and right quaternion multiplication matrices, the conversion between '
     'quaternions and four-vectors, and the roll-pitch-yaw conversion agree with quaternion algebra for every input. '
     'The rotation Jacobian equals the partial derivative of the rotated point with respect to every quaternion component.',
     'all quaternions (unit or not), vectors and angles',
     'Tests evaluate a few fixed quaternions; a wrong sign in one entry only shows for inputs exciting that entry.',
     ['rotationlib/src/hat.cpp', 'rotationlib/src/quaternion.cpp', 'rotationlib/src/jacobian/quaternion.cpp'],
     [('closed-form matrices', 'rotationlib/src/quaternion.cpp'),
      ('rotation Jacobian', 'rotationlib/src/jacobian/quaternion.cpp')])

prop('K01', 'Kalman filter prediction and update follow the filter equations',
     'Prediction yields the propagated mean and covariance A P A^T + Q, and a measurement update applies the gain '
     'P C^T (C P C^T + R)^-1 to the innovation and to the covariance, for all conforming matrices. '
     'When the gain is not finite the update is refused with an error and the estimate is left as it was.',
     'all states, covariances, models and measurements of conforming dimensions',
     'The repository has only fixed numeric examples of the delayed variant; errors that vanish for symmetric, '
     'identity or scalar matrices pass.',
     ['kalman_filter/src/kalman_filter.cpp', 'kalman_filter/include/kalman_filter/kalman_filter.hpp'],
     [('prediction and update', 'kalman_filter/src/kalman_filter.cpp')],
     state=[('mean and covariance', 'current estimate', 'kalman_filter/include/kalman_filter/kalman_filter.hpp')])

prop('K02', 'The time-delay filter keeps an exact window of past states',
     'The extended state is the newest state followed by the previous ones: prediction shifts the window by one step, '
     'correlates the new block with every retained one, and drops the oldest. An update of any delay inside the window '
     'is the exact Kalman update of that block for the whole window; a delay beyond the window is refused and changes nothing.',
     'all window lengths, state sizes, models, measurements and delay steps',
     'Tests use one dimension/window/delay combination; block offset errors for other delays or dimensions are invisible.',
     ['kalman_filter/src/time_delay_kalman_filter.cpp',
      'kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp'],
     [('window shift', 'kalman_filter/src/time_delay_kalman_filter.cpp'),
      ('delayed update', 'kalman_filter/src/time_delay_kalman_filter.cpp')])

prop('L01', 'Conversions between messages, clouds and matrices lose and mix nothing',
     'Covariance arrays and 6x6 matrices convert row-major in both directions and round-trip exactly; stacking, row '
     'selection and point-cloud conversions place every source entry at its stated row and column for every size. '
     'Rigid transforms built from a unit quaternion and a translation map points accordingly, and transforming a point '
     'vector keeps all of its trailing entries.',
     'all sizes, index lists, clouds and transforms',
     'Tests use a couple of tiny matrices, often symmetric or square, so transposition and stride errors can pass.',
     ['lib/src/eigen.cpp', 'lib/src/pcl_utils.cpp', 'lib/include/lidar_feature_library/eigen.hpp',
      'lib/include/lidar_feature_library/pcl_utils.hpp',
      'localization/include/lidar_feature_localization/pointcloud_to_matrix.hpp',
      'localization/include/lidar_feature_localization/point_to_vector.hpp'],
     [('matrix assembly', 'lib/src/eigen.cpp'), ('cloud conversion', 'lib/src/pcl_utils.cpp')])

prop('L02', 'Selection, ordering and statistics helpers are exact for every length',
     'The median is the middle order statistic (mean of the two middle ones for even counts) and refuses an empty input; '
     'the sample standard deviation, the sorted triple, index look-ups, masks and gathers match their mathematical '
     'definition for every input. A bounded view refuses every access outside of its range.',
     'all lengths, values, masks and index lists',
     'Tests use lengths up to about five; parity, ties and boundary positions are sampled, not covered.',
     ['lib/src/stats.cpp', 'lib/src/algorithm.cpp', 'lib/include/lidar_feature_library/algorithm.hpp',
      'lib/include/lidar_feature_library/stats.hpp', 'lib/include/lidar_feature_library/span.hpp',
      'lib/include/lidar_feature_library/numeric.hpp'],
     [('order statistics', 'lib/src/stats.cpp'), ('checked views', 'lib/include/lidar_feature_library/span.hpp')])

EX = 'extraction/include/lidar_feature_extraction/'
prop('X01', 'The blocks of a ring tile it exactly',
     'A ring is divided, inside its margins, into the requested number of consecutive blocks: the first starts at the '
     'beginning, the last ends at the end, each starts where its predecessor ends and sizes differ by at most one. '
     'Too many blocks for the available points and block numbers out of range are refused with an error.',
     'all ring sizes, margins, block counts and block numbers',
     'Tests check a few divisions; rounding at other sizes and the tiling of adjacent blocks are not covered.',
     ['extraction/src/index_range.cpp', EX + 'index_range.hpp'],
     [('block boundaries', 'extraction/src/index_range.cpp')])

prop('X02', 'A label spreads only through connected points and not beyond its reach',
     'Spreading a label from a point marks exactly the points reachable through consecutively neighbouring points, '
     'at most the given number to each side, and never a point outside of the ring or beyond a gap; '
     'no other label changes. Ranges outside of the ring are refused with an error before anything is written.',
     'all ring sizes, neighbour relations, positions, reaches and label patterns',
     'Tests use rings of about ten points and single gaps; boundary, reach and gap combinations are sampled.',
     [EX + 'fill.hpp'],
     [('bounded spreading', EX + 'fill.hpp')])

prop('X03', 'Edges are taken from the sharpest, surfaces from the flattest point down',
     'In each block points are visited by descending curvature for edges, then by ascending curvature for surfaces; a '
     'point is selected if it is still unlabelled and its curvature reaches (for surfaces: does not exceed) the threshold, and '
     'its connected surroundings within the padding are then reserved. Blocks neither read nor write points of other blocks.',
     'all curvatures, label patterns, neighbour relations, thresholds, paddings and block counts',
     'The greedy choice depends on every earlier one; tests follow a few short sequences.',
     [EX + 'label.hpp', EX + 'algorithm.hpp', EX + 'fill.hpp', 'extraction/src/iterator.cpp',
      'extraction/src/index_range.cpp', 'lib/include/lidar_feature_library/span.hpp'],
     [('greedy selection', EX + 'label.hpp'), ('ordering', EX + 'algorithm.hpp')])

prop('X04', 'Curvature is the squared sum of range differences to the neighbours',
     'The curvature of a point is the square of the sum of the differences between the ranges of its neighbours on '
     'both sides and its own; it is zero where the window leaves the ring. The underlying weighted sums are exact for every odd '
     'window, and rings shorter than the window are refused.',
     'all ring lengths, range sequences and window sizes',
     'Tests evaluate one or two windows; offset and margin errors for other sizes go unnoticed.',
     ['extraction/src/convolution.cpp', 'extraction/src/curvature.cpp', EX + 'math.hpp'],
     [('weighted window sum', 'extraction/src/convolution.cpp'), ('weights', 'extraction/src/curvature.cpp')])

prop('X05', 'Points just behind an occluding boundary are never features',
     'Where two neighbouring points differ in range by more than the threshold, the farther one and the points connected '
     'to it away from the boundary, up to the padding, are marked occluded, scanning from both sides. Nothing else is changed '
     'and nothing outside of the ring is accessed.',
     'all ring sizes (above the padding), ranges, neighbour relations, paddings and thresholds',
     'The header is not exercised by any test that runs here; boundaries near the ring ends need all sizes.',
     [EX + 'occlusion.hpp', EX + 'fill.hpp', EX + 'neighbor.hpp', EX + 'range.hpp'],
     [('occlusion marking', EX + 'occlusion.hpp')])

prop('X06', 'Points outside of the range limits are never features',
     'The range of a point is its planar distance from the sensor; every point nearer than the minimum or farther than the '
     'maximum is marked out of range, whatever its previous label, and no other label changes.',
     'all rings, coordinates and limits',
     'The header is not exercised by any test that runs here.',
     [EX + 'out_of_range.hpp', EX + 'range.hpp', EX + 'mapped_points.hpp', EX + 'math.hpp'],
     [('range limits', EX + 'out_of_range.hpp'), ('range of a point', EX + 'range.hpp')])

prop('X07', 'Points on surfaces nearly parallel to the beam are never features',
     'An interior point is marked when the ranges of its predecessor and of its successor both differ from its own by '
     'more than the given fraction of its range; the first and the last point and all other labels are untouched.',
     'all rings of at least one point, ranges and ratios',
     'The header is not exercised by any test that runs here.',
     [EX + 'parallel_beam.hpp', EX + 'range.hpp'],
     [('parallel-beam marking', EX + 'parallel_beam.hpp')])

prop('X08', 'Rings are complete and ordered by azimuth',
     'The points of a scan are split by ring number without losing or duplicating any, each ring is ordered by the azimuth of '
     'its points, and exactly the rings with fewer points than the minimum are dropped. The azimuth order is a strict weak '
     'order consistent with the angle of the points, for every pair of points including those on the axes.',
     'all clouds, ring numbers and point positions',
     'The sources are not compiled by the tests that run here; an inconsistent order only misbehaves for special point sets.',
     ['extraction/src/ring.cpp', EX + 'ring.hpp', EX + 'mapped_points.hpp'],
     [('azimuth order', 'extraction/src/ring.cpp'), ('splitting and filtering', EX + 'ring.hpp')])

prop('X09', 'Every scan yields the labelled features of its rings, stamped and framed',
     'For each received cloud the node publishes, with the stamp of the cloud and the sensor frame, exactly the points labelled '
     'edge and those labelled surface of every usable ring in ring order, and the coloured scan. '
     'All labelling stages are applied with their own parameters, and a ring too short for the blocks is left out '
     'without disturbing the others. A cloud with invalid points or without rings makes the node shut down.',
     'all clouds and parameter values',
     'The node is not compiled by the tests that run here.',
     ['extraction/app/feature_extraction.cpp', EX + 'mapped_points.hpp', EX + 'range.hpp',
      EX + 'hyper_parameter.hpp', 'lib/include/lidar_feature_library/convert_point_cloud_type.hpp',
      'lib/include/lidar_feature_library/ros_msg.hpp'],
     [('scan pipeline', 'extraction/app/feature_extraction.cpp')])

prop('X10', 'Neighbour decisions depend only on the angle between the points',
     'Two consecutive points are neighbours exactly if the angle between their planar directions is below the threshold; '
     'the angle is a number for every pair of non-zero vectors, including parallel and opposite ones.',
     'all rings, coordinates and thresholds',
     'The header is covered by tests with a handful of directions; rounding just beyond the domain of the arc cosine is not.',
     [EX + 'neighbor.hpp', EX + 'math.hpp', 'extraction/src/math.cpp', 'lib/include/lidar_feature_library/degree_to_radian.hpp'],
     [('angle of two points', 'extraction/src/math.cpp'), ('neighbour decision', EX + 'neighbor.hpp')])

prop('X11', 'Coloured scans show label and value of every point',
     'Colouring keeps every point, its position and its order, and gives each label its documented colour, refusing unknown ones. '
     'Colouring by value maps the interval from minimum to maximum linearly onto 0 to 255 and clamps values outside of it.',
     'all clouds, labels and values',
     'The sources are not compiled by the tests that run here.',
     ['extraction/src/color_points.cpp', EX + 'color_points.hpp', EX + 'point_label.hpp'],
     [('label colours', EX + 'color_points.hpp'), ('value colours', 'extraction/src/color_points.cpp')])

L = 'lib/include/lidar_feature_library/'
EK = 'ekf_localizer/include/ekf_localizer/'
ES = 'ekf_localizer/src/'

prop('L03', 'Messages carry exactly the geometry, stamp and frame they are made from',
     'Poses, points, vectors, twists and covariances keep every component when they are turned into messages and back, stamped '
     'messages carry exactly the given stamp and frames, and a marker line consists of its two end points in order.',
     'all poses, points, covariances, stamps and frame names',
     'The sources are not compiled by the tests that run here.',
     ['lib/src/ros_msg.cpp', L + 'ros_msg.hpp', 'lib/src/eigen.cpp'],
     [('message conversions', 'lib/src/ros_msg.cpp'), ('clouds', L + 'ros_msg.hpp')])

prop('E01', 'The motion model and its Jacobian agree',
     'Over an interval the state moves along the heading (yaw plus yaw bias) with its velocity and turns with its yaw rate; '
     'yaw stays wrapped, bias and velocities persist. The transition matrix is the exact derivative of that motion for every state and interval.',
     'all states and intervals',
     'The tests compare the matrix with a few numbers; the derivative has to hold everywhere.',
     [ES + 'state_transition.cpp', EK + 'state_transition.hpp', EK + 'normalize_yaw.hpp'],
     [('motion model', ES + 'state_transition.cpp'), ('yaw wrapping', EK + 'normalize_yaw.hpp')])

prop('E02', 'Process noise and published covariances address the right states',
     'Process noise acts on yaw, bias and the two velocities only, each on its own diagonal entry. The published pose covariance holds '
     'the x, y, yaw block and the twist covariance the two velocity entries in the rows and columns of the message layout, all else being zero.',
     'all covariance matrices and variances',
     'The tests check single entries; a misplaced entry elsewhere is silent.',
     [ES + 'covariance.cpp', ES + 'state_transition.cpp', EK + 'state_index.hpp'],
     [('process noise', ES + 'state_transition.cpp'), ('message covariances', ES + 'covariance.cpp')])

prop('E03', 'Measurements are compared with the states they measure',
     'A pose measures x, y and the wrapped yaw, a twist the forward velocity and the yaw rate; measurement vector, measurement matrix, '
     'predicted measurement and state covariance block all select these same states. The measurement noise is the corresponding part '
     'of the message covariance times the number of times a message is used.',
     'all states, messages, covariances and step counts',
     'The sources are not compiled by the tests that run here.',
     [ES + 'pose_measurement.cpp', ES + 'twist_measurement.cpp'],
     [('pose measurement model', ES + 'pose_measurement.cpp'), ('twist measurement model', ES + 'twist_measurement.cpp')])

prop('E04', 'Implausible measurements are recognised',
     'A measurement is recognised as not finite if any entry is infinite or not a number, as too old from the length of the filter history on, '
     'and as implausible beyond the gate in Mahalanobis distance with respect to the covariance; frame and negative delay are reported.',
     'all matrices, delays, frames and gates',
     'Most of the sources are not compiled by the tests that run here; the sampled matrices do not cover every entry.',
     [ES + 'check.cpp', ES + 'mahalanobis.cpp', EK + 'check.hpp', L + 'numeric.hpp'],
     [('measurement checks', ES + 'check.cpp'), ('Mahalanobis distance', ES + 'mahalanobis.cpp')])

prop('E05', 'A queued measurement is used exactly as often as configured',
     'Messages leave the queue in order of waiting; each is handed out the configured number of times (at least once), '
     'waiting again behind the others in between, and none is lost or duplicated. Clearing removes everything.',
     'all queue contents and ages',
     'Histories of arbitrary length; the test uses one.',
     [EK + 'aged_message_queue.hpp'],
     [('aged queue', EK + 'aged_message_queue.hpp')])

prop('E06', 'Intervals, delays and delay steps follow the clock',
     'The interval of a cycle is the time since the previous one, at most ten seconds, the configured one for the first cycle; a clock that '
     'jumps back is refused without forgetting the last time. A delay is turned into the nearest number of steps, zero for future '
     'stamps, and saturates instead of overflowing.',
     'all clocks, stamps, frequencies and delays',
     'Needs a zero or huge ratio of delay to interval, or a clock jump between cycles.',
     [EK + 'update_interval.hpp', ES + 'update_interval.cpp', EK + 'delay.hpp'],
     [('update interval', ES + 'update_interval.cpp'), ('delay steps', EK + 'delay.hpp')])

prop('E07', 'Every waiting measurement takes part in a cycle or is dropped for a reason',
     'Each message waiting at the start of a cycle is taken once and in order. It is used unless it is older than the filter history, '
     'not finite, implausibly far from the delayed state or refused by the filter, and one that is not used does not affect the others. '
     'A yaw is compared with the state modulo full turns.',
     'all queues, messages, filter states, clocks and parameters',
     'The sources are not compiled by the tests that run here; needs several queued messages or a yaw near half a turn.',
     [ES + 'pose_measurement.cpp', ES + 'twist_measurement.cpp', EK + 'aged_message_queue.hpp'],
     [('pose updates', ES + 'pose_measurement.cpp'), ('twist updates', ES + 'twist_measurement.cpp')],
     state=[('queue', 'waiting messages', ES + 'pose_measurement.cpp')])

prop('E08', 'After an initial pose every cycle predicts, corrects and publishes',
     'Without an initial pose nothing is published; an initial pose in the map frame restarts the filter there, clears waiting measurements and is '
     'ignored when its transform is unavailable. Every cycle predicts over the elapsed time, uses pose then twist measurements, and '
     'publishes the bias-corrected pose, twist and covariances; z, roll and pitch are filtered from the poses.',
     'all states of the node, messages, clocks and parameters',
     'The node is not compiled by the tests that run here.',
     [ES + 'ekf_localizer.cpp', EK + 'ekf_localizer.hpp', ES + 'tf.cpp', ES + 'string.cpp'],
     [('localizer node', ES + 'ekf_localizer.cpp'), ('one-dimensional filters', EK + 'ekf_localizer.hpp'), ('transform lookup', ES + 'tf.cpp')],
     state=[('localizer', 'filter, queues and one-dimensional filters', EK + 'ekf_localizer.hpp')])

LI = 'localization/include/lidar_feature_localization/'
LS = 'localization/src/'

prop('O01', 'The edge residual is the point-line distance and its Jacobian its derivative',
     'The residual of a scan point vanishes exactly on the line through two given points and grows with the distance from it. The Jacobian is the '
     'exact derivative of the residual by quaternion and translation of the pose. Mean and covariance of '
     'neighbours, the line reliability decision and the used coordinates are exact.',
     'all poses, points, lines and neighbour sets',
     'A test compares the Jacobian at sampled poses; an error in one entry that vanishes there is silent.',
     [LS + 'edge.cpp', LI + 'edge.hpp', 'rotationlib/src/jacobian/quaternion.cpp'],
     [('edge residual and Jacobian', LS + 'edge.cpp'), ('derivative of a rotated point', 'rotationlib/src/jacobian/quaternion.cpp')])

prop('O02', 'The surface residual is the point-plane distance and its Jacobian its derivative',
     'The residual of a scan point is its signed distance from the plane, and the Jacobian is the exact derivative of that distance by quaternion '
     'and translation of the pose. The plane of a neighbourhood is the least-squares plane, and it counts as a plane if every point lies '
     'within the tolerance.',
     'all planes, poses and points',
     'The header has no test in the build.',
     [LI + 'surface.hpp', LI + 'math.hpp'],
     [('surface residual and Jacobian', LI + 'surface.hpp'), ('least squares', LI + 'math.hpp')])

prop('O03', 'Point-to-point alignment residuals and Jacobians agree',
     'The residual of a pair is the transformed point minus its target and the Jacobian is its exact derivative by quaternion and translation. '
     'Stacked problems keep one block per pair, in order.',
     'all poses and point sets',
     'Sampled pairs; errors in single entries are silent.',
     [LS + 'alignment.cpp', LS + 'jacobian.cpp'],
     [('alignment problem', LS + 'alignment.cpp'), ('coefficient rows', LS + 'jacobian.cpp')])

prop('O04', 'Outlying residuals are weighted down robustly',
     'The scale of a set of errors is its scaled median absolute deviation. Each error is the squared length of its residual, is divided by '
     'that scale and weighted with the derivative of the Huber loss, which is one for inliers, decreases beyond the threshold and never '
     'becomes negative.',
     'all residual sets and thresholds',
     'Needs a particular mix of inliers and outliers or a degenerate scale.',
     [LS + 'robust.cpp', LS + 'optimizer.cpp', 'lib/src/stats.cpp'],
     [('robust scale and loss', LS + 'robust.cpp'), ('errors and weights', LS + 'optimizer.cpp')])

prop('O05', 'Scan matching stops for a stated reason and reports it truthfully',
     'The optimisation evaluates the problem at the current pose and stops when there is no input, the error or the scale grows, the step is small, or the '
     'iteration limit is reached, with the pose, iteration, error, scale and success flag of that moment. No step is '
     'applied after an increase was seen, and the number of iterations never exceeds the limit.',
     'all problems, start poses and iteration limits',
     'Needs histories of iterations with particular sequences of errors and scales.',
     [LI + 'optimizer.hpp', LI + 'optimization_result.hpp'],
     [('iteration', LI + 'optimizer.hpp'), ('results', LI + 'optimization_result.hpp')],
     state=[('iterate', 'pose, last error and last scale', LI + 'optimizer.hpp')])

prop('O06', 'A step solves the weighted normal equations in the tangent space',
     'A step is the solution of the weighted Gauss-Newton equations in the six directions of small motion, and no motion at all where the '
     'problem is degenerate in any direction. Tangent directions, exponential map, pose composition, degeneracy and convergence decisions are exact.',
     'all poses, weights, Jacobians and residuals',
     'Sampled problems; a wrong sign or missing weight still converges on easy ones.',
     [LS + 'optimizer.cpp', LS + 'posevec.cpp', LS + 'degenerate.cpp'],
     [('normal equations', LS + 'optimizer.cpp'), ('exponential map', LS + 'posevec.cpp'), ('degeneracy', LS + 'degenerate.cpp')])

prop('O07', 'Every feature point contributes against its nearest map points',
     'Each edge point contributes a residual against the principal line, each downsampled surface point one against the least-squares plane, of its nearest '
     'points in the respective map, searched where the pose puts the point. Edge contributions precede surface contributions, one Jacobian per '
     'residual.',
     'all maps of enough points, scans and poses',
     'The k-d tree and the headers are not compiled in the tests that run here.',
     [LI + 'edge.hpp', LI + 'surface.hpp', LI + 'loam_optimization_problem.hpp', LI + 'kdtree.hpp', LS + 'kdtree.cpp',
      LI + 'pointcloud_to_matrix.hpp'],
     [('edge problem', LI + 'edge.hpp'), ('surface problem', LI + 'surface.hpp'), ('joint problem', LI + 'loam_optimization_problem.hpp'),
      ('neighbour search', LS + 'kdtree.cpp')],
     note='Which map points are nearest is left to the search library.')

prop('O08', 'Each scan is localised from the prior pose closest in time and published once',
     'Without a prior pose a scan is ignored. Otherwise matching starts at the prior closest to the stamp of the scan, priors more than one '
     'second newer are dropped, and the matched pose is published and broadcast once, with the stamp of the scan and the map frame. Both '
     'kinds of prior message are stored under their own stamps.',
     'all messages, stores of priors and matching results',
     'The node is not compiled by the tests that run here.',
     [LI + 'subscriber.hpp', LI + 'localizer.hpp'],
     [('localization node', LI + 'subscriber.hpp'), ('matcher', LI + 'localizer.hpp')],
     state=[('priors', 'prior poses by stamp', LI + 'subscriber.hpp')])

prop('O09', 'The store of stamped objects finds the closest and drops the newer ones',
     'An inserted object replaces one of the same stamp. The object closest in time is returned, the later one if two are equally close. '
     'Trimming removes exactly the objects newer than the given stamp, each operation holding the lock of the store throughout.',
     'all contents and stamps',
     'The tests use one store of four entries and cannot see a missing lock.',
     [LI + 'stamp_sorted_objects.hpp'],
     [('store', LI + 'stamp_sorted_objects.hpp')],
     state=[('objects', 'objects by stamp', LI + 'stamp_sorted_objects.hpp')])

prop('O10', 'Local maps hold the latest scans and odometry advances from them',
     'Scans enter a local map transformed to their pose, and the given number of latest scans is merged in order, all if fewer. The first scan '
     'is placed at the origin, later ones at the pose matched from the previous pose against the recent scans. Filtering keeps exactly the '
     'flagged values, and only maps with points are saved.',
     'all scans, poses, counts and flags',
     'Odometry and map saving are not compiled in the tests that run here; sampled clouds.',
     [LI + 'recent_scans.hpp', LI + 'point_cloud_map.hpp', LI + 'odometry.hpp', LI + 'filter.hpp', LI + 'rad2deg.hpp', LI + 'map_io.hpp'],
     [('recent scans', LI + 'recent_scans.hpp'), ('local map', LI + 'point_cloud_map.hpp'), ('odometry', LI + 'odometry.hpp'),
      ('map saving', LI + 'map_io.hpp')],
     state=[('recent scans', 'transformed scans in order of arrival', LI + 'recent_scans.hpp')])

prop('M01', 'The map grows by every scan from a sufficiently new pose, at that pose',
     'A scan with points is added to the map, transformed to its pose, if the map is empty or the pose differs from that of the last added '
     'scan by one metre or more or turns by the set amount. Other scans leave map and last pose as they were, and only a map with points is saved.',
     'all sequences of scans and poses',
     'The package is not part of the build of the tests that run here.',
     ['mapping/include/lidar_feature_mapping/map.hpp', 'mapping/src/mapping.cpp'],
     [('map and builder', 'mapping/include/lidar_feature_mapping/map.hpp')],
     state=[('map', 'points added so far and last added pose', 'mapping/include/lidar_feature_mapping/map.hpp')])

prop('M02', 'The published path is the sequence of received poses',
     'Every received pose is appended to the path with its own header, and the whole path is published under the header of the newest one, for '
     'both kinds of pose messages. No pose is lost, repeated or reordered.',
     'all sequences of pose messages',
     'The package is not part of the build of the tests that run here.',
     ['path_generator/include/path_generator/path_generator.hpp'],
     [('path nodes', 'path_generator/include/path_generator/path_generator.hpp')],
     state=[('path', 'poses received so far', 'path_generator/include/path_generator/path_generator.hpp')])

prop('M03', 'The map loader publishes the configured file once, latched',
     'The loader reads the file named by its parameter, puts it into the map frame and publishes it once to late subscribers too. Without a '
     'file name it refuses to start.',
     'all parameter values and files',
     'The package has no tests.',
     ['map_loader/src/map_loader.cpp', 'lib/include/lidar_feature_library/qos.hpp'],
     [('map loader', 'map_loader/src/map_loader.cpp')],
     note='Reading the file format is left to the point cloud library.')

prop('M04', 'The viewer frame lies at the centre of the received map',
     'For every received map with points the transform from the map frame to the viewer frame is broadcast, its translation the mean of all '
     'points and its rotation none. A map without points moves nothing.',
     'all maps and frame names',
     'The package has no tests; an empty map is an unusual input.',
     ['map_tf_generator/src/map_tf_generator_node.cpp'],
     [('centre of the map', 'map_tf_generator/src/map_tf_generator_node.cpp')])

prop('N01', 'The extraction node works with its declared parameters and topics',
     'Every setting of the feature extraction is the declared parameter of its own name, with a positive value, and reaches the stage it '
     'belongs to. Scans arrive from and features leave for the documented topics with their qualities of service, in the program as shipped.',
     'all parameter values and messages',
     'The node is not compiled by the tests that run here.',
     ['extraction/app/feature_extraction.cpp', EX + 'hyper_parameter.hpp', 'lib/include/lidar_feature_library/qos.hpp'],
     [('node construction', 'extraction/app/feature_extraction.cpp'), ('parameters', EX + 'hyper_parameter.hpp')])

prop('N02', 'The localization node pairs scans exactly and takes priors in parallel',
     'Edge and surface scans are handled together only with equal stamps and none is dropped in the transport queue. Prior poses '
     'arrive on topics and callback groups of their own, so matching does not hold them up. The program starts only with both map files '
     'and matches against them with the set iteration limit.',
     'all messages and map files',
     'The node is not compiled by the tests that run here.',
     [LI + 'subscriber.hpp', 'localization/app/localization.cpp'],
     [('subscriptions', LI + 'subscriber.hpp'), ('program', 'localization/app/localization.cpp')])

prop('N03', 'The EKF node works with its declared parameters, timer and topics',
     'Every setting of the filter is the declared parameter of its own name and reaches the component it belongs to, and the '
     'cycle runs at the configured rate. Each message kind reaches its own handler and nothing is estimated before an initial pose.',
     'all parameter values and messages',
     'The node is not compiled by the tests that run here.',
     [EK + 'ekf_localizer.hpp', ES + 'ekf_localizer.cpp', ES + 'ekf_localizer_node.cpp'],
     [('node construction', ES + 'ekf_localizer.cpp'), ('parameters', EK + 'ekf_localizer.hpp')])

prop('N04', 'The mapping and path programs run their nodes and leave their results',
     'The mapping program pairs each scan with the pose of exactly its stamp, runs until it is stopped and then saves the map once under its '
     'documented name. The path program runs the node for poses with covariance on its documented topics.',
     'all messages and histories',
     'The programs are not part of the build of the tests that run here.',
     ['mapping/src/mapping.cpp', 'path_generator/src/node.cpp'],
     [('mapping program', 'mapping/src/mapping.cpp'), ('path program', 'path_generator/src/node.cpp')])

prop('P01', 'Raw clouds are converted to the extraction layout without loss',
     'Each scan is republished once with its header, x, y, z, intensity and ring in little-endian 32-byte records: points at the origin are '
     'left out, the others keep order and values, and counts and row size match the data. Byte order, padding and size of '
     'every input field are respected, for inputs starting with x, y, z as 32-bit floats, bytes 12 to 15 unused and '
     'intensity before ring. It listens best-effort and publishes reliably, keeping all messages.',
     'all scans with such fields, any other fields, byte orders, record sizes and point counts',
     'The tests of the package need ROS and do not run here; padding, byte order and field selection vary with the sensor.',
     ['point_type_converter/point_type_converter/convert.py'],
     [('conversion', 'point_type_converter/point_type_converter/convert.py')],
     note='What the struct module makes of a format string is taken from its documentation; the module is translated from Python.')
