#!/usr/bin/env python3
"""The properties and what is said about them; writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
META = []
NOT = []
SE = 'symbolic execution of LLVM IR compiled from the current sources; SMT (z3) decides every assertion'


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, note='', technique=SE, claim=True, reason=None):
    META.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                  **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                                  **({'observe_at': observe} if observe else {}))))
    if claim:
        CHECKS.append(dict(property=id, quick_cmd='python3 check.py %s --tier quick' % id, thorough_cmd='python3 check.py %s --tier thorough' % id,
                           technique=technique, level='model_checking', level_note=note))
    else:
        NOT.append(dict(property=id, reason=reason))


CHECKS = []
PL = 'planner_cspace/include/planner_cspace/'
TT = 'trajectory_tracker/include/trajectory_tracker/'
TRUST = ' Trusts clang, z3, the executor in engine/ (completed paths are replayed natively as a translation check) and the models in rt/models.cpp.'

P('C01', 'Grid positions: cyclic reduction, bounds test, equality and hash',
  'Reducing the cyclic components of a grid position gives the one congruent value in the target interval ([0, n) unsigned; [floor(n/2)-n, floor(n/2)) signed) and leaves the other components alone, whatever the component values. '
  'The bounds test on a position is exact for the non-cyclic components, including negative ones. '
  'Positions are equal exactly when all components are, equal positions hash equally, and building a position from integers keeps them exactly.',
  ['inputs'], 'every 32-bit value of every component; every cyclic resolution within the bound',
  'the tests check a dozen small positions; wrap-around, negative and huge components are a space of 2^96 values',
  [PL + 'cyclic_vec.h'], [('cycleElement / cycleUnsignedElement', PL + 'cyclic_vec.h'), ('isExceeded', PL + 'cyclic_vec.h'), ('operator() hash', PL + 'cyclic_vec.h')],
  observe=['component values after cycle/cycleUnsigned', 'results of ==, != and the hash'],
  note='All component values; cyclic resolutions 1..64 (quick), 1..512 (thorough).' + TRUST)
P('C02', 'Grid storage: every cell has its own storage inside the allocation',
  'In a block-organised grid of any size, every in-range position maps to storage inside the grid\'s own allocation, and two positions share storage only if they are the same. '
  'Resizing gives a grid of the requested size in which each cell can be written without disturbing another. '
  'Checked access with an out-of-range position never touches storage outside the grid, and the range test (with or without margin) is exact.',
  ['inputs', 'configurations'], 'every size up to the bound (not multiples of the block width in particular), every position or pair of positions',
  'the tests use a few fixed sizes and walk them; aliasing between two cells of an odd-sized grid is a pairwise property',
  [PL + 'blockmem_gridmap.h'], [('block_addr / addr', PL + 'blockmem_gridmap.h'), ('reset', PL + 'blockmem_gridmap.h'), ('validate / operator[]', PL + 'blockmem_gridmap.h')],
  state=[('c_', 'cell storage', PL + 'blockmem_gridmap.h'), ('size_, block_size_', 'size in cells and in blocks', PL + 'blockmem_gridmap.h')],
  note='Sizes: see the evidence (per-job parameters); positions symbolic.' + TRUST)
P('C03', 'Grid bulk operations touch exactly the cells they name',
  'Clearing sets every cell; clearing the non-negative part keeps negative cells; clearing or copying a box changes exactly the cells of that box; copying with an offset takes each cell from the corresponding source cell. '
  'Assigning a grid copies its size and every cell, and the copy is independent of the original.',
  ['inputs', 'configurations'], 'every cell value, every box and offset inside the grid, grid sizes up to the bound',
  'the tests check one box in one grid; an off-by-one at a block edge depends on size, box and offset together',
  [PL + 'blockmem_gridmap.h'], [('clear, clear_positive, clear_partially', PL + 'blockmem_gridmap.h'), ('copy_partially, operator=', PL + 'blockmem_gridmap.h')],
  note='Grids up to 5x3x4 (see evidence); cell values, boxes and offsets symbolic.' + TRUST)
P('C04', 'Path search finds a cheapest path whenever one exists',
  'With an admissible estimate and one node expanded per round, the search succeeds exactly when the goal can be reached from a start over passable motions, and the returned path (start to goal, every step a passable motion) has the least possible total cost, including the initial costs of several starts. '
  'The same holds on grids with a cyclic heading. '
  'A search without starts, or with a start on the goal, reports no path.',
  ['inputs', 'configurations'], 'every assignment of costs (or impassability) to the motions or cells of the grid, every admissible estimate, every start cost, within the bounds',
  'the tests plan on a handful of fixed maps and look at one resulting path; optimality is a statement about all other paths',
  [PL + 'grid_astar.h', PL + 'reservable_priority_queue.h'], [('GridAstar::searchImpl', PL + 'grid_astar.h'), ('findPath', PL + 'grid_astar.h')],
  state=[('g_', 'cost to come', PL + 'grid_astar.h'), ('parents_', 'predecessor of each node', PL + 'grid_astar.h'), ('open_', 'nodes to expand', PL + 'grid_astar.h')],
  note='Grids of 4 to 9 cells (12 in thorough) with integer costs 0..K; one search task, one thread.' + TRUST)
P('C05', 'Path search stays sound with parallel rounds, limits, early stops and reuse',
  'With any number of nodes expanded per round, any admissible or inadmissible estimate, any tie-breaking, and after any earlier search with the same object, the search ends, succeeds exactly when the goal is reachable, and returns a path of passable motions from a start to the goal without repeating a node; a failing search reports no path unless a best-effort path was asked for, which then ends at the reachable node closest to the goal. '
  'A bounded queue or a cost at which to stop may end the search early but never yields an invalid path. '
  'Progress callbacks see paths that begin at the start and never get worse, and a callback that asks to stop is obeyed at once.',
  ['inputs', 'histories', 'configurations'], 'every cost assignment, estimate, stop decision and previous search within the bounds',
  'the tests compare one parallel run with one serial run; the queue limit, stopping and reuse are hardly exercised',
  [PL + 'grid_astar.h', PL + 'reservable_priority_queue.h'], [('GridAstar::searchImpl', PL + 'grid_astar.h'), ('setQueueSizeLimit, setSearchTaskNum', PL + 'grid_astar.h')],
  note='Grids up to 3x3, 2-3 tasks per round executed by one worker (real thread interleavings are outside the claim).' + TRUST)
P('C06', 'Remembered obstacles: evidence, range and cost',
  'The occupancy memory of a cell stays within its limits, moves up on evidence for and down on evidence against an obstacle, and keeps the order of two states under equal evidence. '
  'Remembering an observation changes exactly the observed cells within range (obstacles closer than the minimum range excepted), and the remembered cost of a cell is between 0 and 100, zero for cells never observed, independent of heading and monotone in the evidence. '
  'Clearing forgets everything, moving the centre keeps nothing that was not observed, and a memory that is switched off remembers nothing.',
  ['inputs', 'histories'], 'every evidence value, every state, every cell cost, range and centre, and every sequence of operations within the bounds',
  'the tests run one filter sequence and one 3-cell map',
  [PL + 'bbf.h', PL + 'planner_3d/costmap_bbf.h', 'planner_cspace/src/costmap_bbf.cpp'],
  [('BinaryBayesFilter::update', PL + 'bbf.h'), ('CostmapBBFImpl::remember / updateCostmap / getCost', 'planner_cspace/src/costmap_bbf.cpp')],
  note='Floats bit-precise; maps up to 3x3 cells; up to 3 (thorough 4) operations.' + TRUST)
P('C07', 'Motion commands respect the speed, acceleration and braking limits',
  'The command issued by the rate limiter is finite, never exceeds the speed limit once it is inside it, and changes per step by no more than the acceleration limit allows; a command within both limits is executed exactly and a command that is not a number stops the robot. '
  'The error-reducing speed never points away from the target and is the fastest from which braking at the given deceleration does not overshoot. '
  'Angle normalisation returns the same direction within one turn.',
  ['inputs', 'histories'], 'every float command (including NaN and infinities), limit, previous command and time step within the bounds',
  'no test exercises the controllers without a running node; the limits must hold for every float',
  [TT + 'basic_control.h'], [('VelAccLimitter', TT + 'basic_control.h'), ('timeOptimalControl', TT + 'basic_control.h'), ('clip, angleNormalized', TT + 'basic_control.h')],
  note='Single precision is bit-precise; sqrt exact; limits 0..10 or similar (see harness).' + TRUST)
P('C08', 'Signal filters: bounded, consistent and right time constant',
  'The output of the low-pass filter stays between the extremes of its inputs and initial value, passes a constant unchanged and approaches a step with its time constant; low-pass and high-pass outputs of the same input add up to that input. '
  'Filtering an angle follows the shorter way around. '
  'The running average of values lies between their extremes and equals their sum over their count.',
  ['inputs', 'histories'], 'every sequence of float inputs within range for the time constants of the bound',
  'the tests feed a single step into one filter',
  [TT + 'filter.h', TT + 'average.h'], [('Filter::in, set', TT + 'filter.h'), ('Average', TT + 'average.h')],
  note='Inputs in +-100 (see harness); sequences of 3 steps; rounding error bounded by the relaxation.' + TRUST)
P('C09', 'Line geometry of path following: distance, projection, curvature',
  'Signed distance, distance and projection of a point with respect to a line or segment are those of plane geometry: sign positive on the left (or ahead of the segment), beyond an end the distance to that end, the foot of the perpendicular on the line. '
  'Curvature through three points has the sign of the turn, is zero on a straight line, flips when the path is reversed, and is the inverse radius on a circle.',
  ['inputs'], 'every point (one coordinate symbolic over its range, the other enumerated) for a set of segment directions',
  'no test covers these functions directly; errors appear only in particular regions around a segment',
  [TT + 'eigen_line.h'], [('lineDistance, lineStripDistance, lineStripDistanceSigned', TT + 'eigen_line.h'), ('projection2d', TT + 'eigen_line.h'), ('curv3p', TT + 'eigen_line.h')],
  note='Double precision with stated tolerances; 6 segment directions; points on a grid of spacing given in the harness.' + TRUST)
P('C10', 'Slip estimation filter: predictions and measurements',
  'A measurement never increases the uncertainty and moves the estimate towards the measured value without passing it, weighted by the two uncertainties; a measurement without information changes nothing and an unknown state adopts the first measurement. '
  'A prediction shifts the estimate and adds its uncertainty.',
  ['inputs'], 'every state, measurement and uncertainty (including infinite ones) within the bounds',
  'there is no test of the filter; it only runs inside the odometry node',
  ['track_odometry/include/track_odometry/kalman_filter1.h'], [('measure, predict, set', 'track_odometry/include/track_odometry/kalman_filter1.h')],
  note='Double precision; uncertainties not both zero.' + TRUST)
P('C11', 'Two-joint planner: motions avoid occupied cells, costs and estimates agree',
  'A motion of the two joints is refused exactly when it leaves the joint range or sweeps an occupied cell of the (periodic) collision map; otherwise it costs the weighted joint distance plus the weighted cost of the swept cells. '
  'The remaining-cost estimate is zero exactly at the goal and never exceeds the cost of a motion plus the estimate after it, so planned joint paths never enter occupied cells. '
  'Every joint step within the search range is tried exactly once.',
  ['inputs', 'configurations'], 'every collision map, joint position, motion and weight within the bounds',
  'no test covers the two-joint model',
  [PL + 'planner_2dof_serial_joints/grid_astar_model.h', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp'],
  [('cost', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp'), ('costEstim', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp'), ('searchGrids', 'planner_cspace/src/grid_astar_model_2dof_joints.cpp')],
  note='Resolution 6, motions up to 2 cells, cell costs 0..100; estimate for resolution 180 on motions that do not wrap.' + TRUST)
P('C12', 'Grid geometry and the table of motions per heading',
  'Sums, products, lengths, rotations and distances to a line or segment of grid vectors are those of plane geometry, with float positions rounded to the nearest cell. '
  'The motion table gives every displacement as seen from the start heading, and the two turning radii stored for a displacement describe the same turning centre seen from its start and from its end.',
  ['inputs', 'configurations'], 'every vector within range; every table entry, start heading and linear resolution within the bounds',
  'the tests check three rotations and one table entry',
  [PL + 'cyclic_vec.h', PL + 'planner_3d/rotation_cache.h', 'planner_cspace/src/rotation_cache.cpp'],
  [('distLine2d, distLinestrip2d, rotate, len, norm', PL + 'cyclic_vec.h'), ('RotationCache::reset', 'planner_cspace/src/rotation_cache.cpp')],
  note='4 or 8 (thorough 16) headings; any linear resolution 0.01..2 for the motions, four resolutions for the radii.' + TRUST)


ROSN = ' The ROS interface is replaced by the stand-ins in stubs/ros (messages, time, transforms, parameters, timers driven by the harness).'
P('C13', 'Joystick override and selection of velocity commands',
  'While the interrupt button of joystick_interrupt is held, the robot gets exactly the commanded stick motion (scaled by the configured speeds, faster with the high-speed button; of two sticks for one axis the one pushed further counts; missing axes count as zero) and the normal input is held back; without the button no command is sent. '
  'Control goes back to the input when the button is released (the latest input command is sent at once) or the joystick has been silent longer than the timeout; the interrupt status tells who is in control. '
  'joystick_mux forwards messages of exactly the selected input unchanged, and falls back to the default input when the joystick is silent for longer than the timeout.',
  ['inputs', 'histories', 'configurations'], 'every axis value and button, every assignment of axes, every sequence of joystick and command messages and every time between them within the bounds',
  'the integration test runs one scripted sequence and needs a ROS system; the number of axes and buttons and the timing are not varied',
  ['joystick_interrupt/src/joystick_interrupt.cpp', 'joystick_interrupt/src/joystick_mux.cpp'],
  [('JoystickInterrupt::cbJoy, cbTwist', 'joystick_interrupt/src/joystick_interrupt.cpp'), ('JoystickMux::cbJoy, cbTopic, cbTimer', 'joystick_interrupt/src/joystick_mux.cpp')],
  state=[('last_joy_msg_', 'when the override was last commanded', 'joystick_interrupt/src/joystick_interrupt.cpp'), ('selected_', 'input being forwarded', 'joystick_interrupt/src/joystick_mux.cpp')],
  observe=['cmd_vel and interrupt_status', 'mux_output'],
  note='Up to 3 axes and buttons, sequences of 4 events (5 in thorough).' + ROSN + TRUST)
P('C14', 'Safety limiter: the robot can always stop in front of known obstacles',
  'safety_limiter lets a commanded motion through only at a speed from which the robot, braking as configured, comes to rest before its footprint reaches any known obstacle (margin included), translation and rotation alike; a motion that already touches an obstacle is stopped; obstacles outside the height range or off the way do not limit, and an additional obstacle never raises the limit. '
  'The same obstacles give the same limit however often they are evaluated and wherever the robot is in the fixed frame. '
  'Without obstacle data, with data older than the timeout, and after the watchdog expired only zero commands reach the robot; limits stay in force for the hold time; the disable command passes commands for its timeout only. '
  'Configured maximum speeds are never exceeded and limiting never changes the direction of motion or raises a speed.',
  ['inputs', 'histories'], 'every obstacle position on the enumerated lines, every speed command, every sequence of clouds, commands, predictions, watchdog and disable messages and every time between them within the bounds',
  'the integration tests drive a few fixed scenes and need a ROS system',
  ['safety_limiter/src/safety_limiter.cpp'], [('SafetyLimiterNode::predict', 'safety_limiter/src/safety_limiter.cpp'), ('limit, limitMaxVelocities', 'safety_limiter/src/safety_limiter.cpp'), ('cbPredictTimer, cbTwist, cbCloud, cbWatchdogTimer, cbDisable', 'safety_limiter/src/safety_limiter.cpp')],
  state=[('r_lim_', 'current limit', 'safety_limiter/src/safety_limiter.cpp'), ('cloud_accum_', 'obstacles since the last prediction', 'safety_limiter/src/safety_limiter.cpp'), ('hold_off_', 'end of the hold time', 'safety_limiter/src/safety_limiter.cpp')],
  observe=['cmd_vel'],
  note='A rectangular footprint, one parameter set, one or two obstacles (one coordinate symbolic, the other enumerated), seven motions; histories of 5 events with any timing. The PCL containers and searches are plain stand-ins (no downsampling).' + ROSN + TRUST)

PS = 'planner_cspace/src/'
P('C15', 'Planner motions: every swept cell is checked, and a motion costs what it should',
  'The planner refuses a motion (straight, curve or turn on the spot) exactly when a cell the robot passes on it, with the heading it has there, is occupied; it looks up only cells inside the map. '
  'A motion costs at least its length plus turning angle (the lower bound the search relies on), more when driven backward or when a narrow curve forces the robot to slow down, and cell costs on the way add in proportion to cost, length and weight; a dearer cell never makes a motion cheaper. '
  'The motions offered near a start are drivable: within range, along the heading, bending to the side they turn to, not narrower than the smallest radius, plus turns to every other heading, and the same from every quarter turn. '
  'The estimate of the remaining cost adds the shortest turn to the distance map; the coarse model obeys the same rules without headings and its estimate is consistent. The path sent out starts and ends at its nodes and follows its motions without gaps.',
  ['inputs', 'configurations'], 'every obstacle position and cost around a motion, every motion offered from every heading, every start position relative to the border, every distance and pair of headings, every radius and aspect limit within the bounds',
  'tests compare the cost of a few motions in a few maps; whether a swept cell is missing shows only with an obstacle on exactly that cell and heading',
  [PS + 'grid_astar_model_3dof.cpp', PS + 'motion_cache.cpp', PS + 'motion_primitive_builder.cpp', PS + 'rotation_cache.cpp'],
  [('GridAstarModel3D::cost, costEstim, euclidCost, searchGrids, interpolatePath', PS + 'grid_astar_model_3dof.cpp'), ('GridAstarModel2D::cost, costEstim', PS + 'grid_astar_model_3dof.cpp'), ('MotionCache::reset, find, interpolatePath', PS + 'motion_cache.cpp'), ('MotionPrimitiveBuilder::build', PS + 'motion_primitive_builder.cpp')],
  observe=['value returned by cost, costEstim', 'list returned by searchGrids', 'points of the interpolated path'],
  note='8 headings with range 3 and 16 headings with range 4 (thorough 5), resolution 0.1 m; at most one cell differs from the rest of the map; a band of 0.1 cell around cell borders is left open in the geometry oracle.' + ROSN + TRUST)
P('C16', 'Map of remaining distances: cheapest ways, also after partial updates',
  'The distance map holds for every cell the cost of the cheapest way to the goal over the coarse map (moves of up to four cells, cell costs and remembered obstacles included), never more than it, zero at the goal, and marks exactly the cells without a way as unreachable; only cells well beyond the start may be left out. '
  'After cells inside a box changed and that box was updated, the map is as if it had been computed anew, also after several updates and when the start moved. A start or goal outside the map leaves everything usable, and a new goal gets a new map.',
  ['inputs', 'histories'], 'every placement of obstacles before and after each change, every cell cost, every new start, within the bounds',
  'tests update three obstacle layouts and accept almost a cell of error; which cells a partial update must reset depends on the map before and after together',
  [PS + 'distance_map.cpp', PL + 'planner_3d/distance_map.h'], [('DistanceMap::create, fillCostmap', PS + 'distance_map.cpp'), ('DistanceMap::update', PS + 'distance_map.cpp')],
  state=[('g_', 'distance of every cell', PL + 'planner_3d/distance_map.h'), ('edges_buf_', 'cells where the fill stopped', PL + 'planner_3d/distance_map.h'), ('goal_', 'goal of the current map', PL + 'planner_3d/distance_map.h')],
  note='Maps up to 21 cells with up to 8 cells that change; distances within 0.5 cell below and 0.05 cell above the exact value (the code offsets the goal by half a cell); one thread.' + ROSN + TRUST)

CC = 'costmap_cspace/include/costmap_cspace/'
P('C17', 'Costmap: poses near obstacles cost what footprint, margin and spread say',
  'For every heading, the cost an obstacle puts on a robot position is full when the obstacle is on the footprint or within the expansion, falls linearly to the minimum cost over the spread, and is zero beyond it, for any convex footprint. '
  'A base map gives every known position and heading the cost of the obstacle cell that weighs most on it (in proportion to that cell\'s own cost), and never less; unknown cells stay unknown at every heading.',
  ['inputs', 'configurations'], 'every expansion, spread and minimum cost that give a template of the sizes below; every cost value of several cells in walls, columns, blocks and diagonals',
  'tests use one footprint and obstacles that stand alone; that walls shadow each other correctly depends on the footprint, the heading and the neighbouring costs together',
  [CC + 'costmap_3d_layer/footprint.h', CC + 'polygon.h', CC + 'cspace3_cache.h'],
  [('Costmap3dLayerFootprint::setMapMetaData', CC + 'costmap_3d_layer/footprint.h'), ('Costmap3dLayerFootprint::generateSpecifiedCSpace', CC + 'costmap_3d_layer/footprint.h'), ('Polygon::inside, dist', CC + 'polygon.h'), ('Costmap3dLayerBase::setBaseMap', CC + 'costmap_3d_layer/base.h')],
  state=[('cs_template_', 'cost of an obstacle relative to the robot, per heading', CC + 'costmap_3d_layer/footprint.h'), ('map_', 'the costmap of the base map', CC + 'costmap_3d_layer/base.h')],
  observe=['template costs', 'costs of the map published for a base map'],
  note='Five footprints, up to 16 headings, templates up to 11 cells wide, maps of 7x6 cells.' + ROSN + TRUST)
P('C18', 'Costmap: published updates hold the base map and the latest overlays only',
  'After any sequence of base maps and overlays, a published update equals that of a costmap which only got the base map and the latest overlay of each layer: it covers the new overlay and the part that the overlay before had changed, holds for each cell the base cost and the inflated overlay combined as the layer says (highest, or overwriting known cells well inside it), and keeps never-seen cells unknown where asked. '
  'Layers that stop earlier layers let none of their costs through, layers for unknown cells change only those, a base map is published as a whole, and overlays that lie partly or wholly beside the map change nothing beside it. '
  'Point clouds are accumulated for exactly the configured time.',
  ['inputs', 'histories'], 'every position of an overlay on and beside the map, every order of messages on two layers, every cost value of several cells, every time of a cloud',
  'tests move one overlay once; what is left over from an older overlay depends on the positions and layers of several messages in order',
  [CC + 'costmap_3d_layer/base.h', CC + 'costmap_3d_layer/footprint.h', CC + 'costmap_3d_layer/output.h', CC + 'pointcloud_accumulator.h'],
  [('Costmap3dLayerBase::processMapOverlay, updateChainEntry', CC + 'costmap_3d_layer/base.h'), ('UpdatedRegion::merge, normalize, bitblt', CC + 'costmap_3d_layer/base.h'), ('Costmap3dUpdateLayerOutput::generateUpdateMsg', CC + 'costmap_3d_layer/output.h'),
   ('updateChain of the stop and unknown layers', CC + 'costmap_3d_layer/unknown_handle.h'), ('PointcloudAccumulator::push', CC + 'pointcloud_accumulator.h')],
  state=[('region_, region_prev_', 'what changes now and what changed last', CC + 'costmap_3d_layer/base.h'), ('map_overlay_', 'costs of a layer on those before', CC + 'costmap_3d_layer/base.h')],
  observe=['published CSpace3DUpdate messages', 'published static map'],
  note='Maps up to 10x4 cells, overlays 5x4 at every offset, up to 4 messages on two layers; overlays of the resolution of the map.' + ROSN + TRUST)

P('C19', 'Path geometry: parts, nearest point, remaining length, curvature, arrival',
  'A path read from a message keeps its poses in order, drops only repeated ones and gives turns on the spot their own headings. The local goal is the first pose where the direction of travel turns over or a turn on the spot begins, else the end. '
  'The nearest segment is that of least distance to the target among those within the search range, earlier ones first when equally near. The remaining distance is the length along the path to its end, negative past it; '
  'the curvature of an arc is the inverse of its radius with the sign of its side and zero on a straight line; arrival times grow along the path by length over speed and angle over angular speed.',
  ['inputs'], 'every position of the target and every length, angle and radius of a range, one at a time; every sequence of kinds of moves',
  'a wrong tie, sign or boundary only shows for targets between or past the poses of particular paths',
  [TT + 'path2d.h', TT + 'eigen_line.h'],
  [('Path2D::fromMsg, findLocalGoal, findNearestWithDistance', TT + 'path2d.h'), ('Path2D::remainedDistance, getCurvature, getEstimatedTimeOfArrivals', TT + 'path2d.h'), ('lineDistance, lineStripDistanceSigned, projection2d', TT + 'eigen_line.h')],
  observe=['results of the path functions'],
  note='Paths of up to 7 poses; one number symbolic per query, the others by shards.' + ROSN + TRUST)

P('C20', 'Trajectory tracker: bounded commands along the path, goal only at the goal',
  'Every command is within the configured (or requested) speed, angular speed and accelerations; the robot stands without a path, transform or odometry and when it is too far from the path, and starts again from standstill. On the path it drives in the direction of the path, backwards where the headings ask for it, '
  'turns towards the path and towards its heading, turns on the spot first if the heading is far off, and brakes so that it stops where the path ends or turns over. Parts of a path are followed in order, also when settings change on the way. '
  'The goal is reported exactly when the robot is within the tolerances of the end of the whole path where it was measured, not while moving faster than allowed, and not at the end of a part.',
  ['inputs', 'histories'], 'every position along or beside the path and every speed of a range, several headings, paths with turns and reversals, delays, reconfiguration',
  'the tests drive a simulated robot along a few paths; wrong signs, limits and goals appear for positions and headings it never gets to',
  ['trajectory_tracker/src/trajectory_tracker.cpp', TT + 'path2d.h', TT + 'basic_control.h'],
  [('TrackerNode::control', 'trajectory_tracker/src/trajectory_tracker.cpp'), ('TrackerNode::getTrackingResult', 'trajectory_tracker/src/trajectory_tracker.cpp'), ('TrackerNode::cbOdometry, cbPath, cbOdomTimeout, cbParameter', 'trajectory_tracker/src/trajectory_tracker.cpp'), ('Path2D::findLocalGoal, findNearest', TT + 'path2d.h')],
  state=[('path_step_done_', 'how far the path is done', 'trajectory_tracker/src/trajectory_tracker.cpp'), ('v_lim_, w_lim_', 'commands so far', 'trajectory_tracker/src/trajectory_tracker.cpp')],
  observe=['cmd_vel', 'status'],
  note='Paths of up to 9 poses, up to 12 odometry messages; one coordinate or speed symbolic per query. Transforms and odometry come from stand-ins.' + ROSN + TRUST)

OD = 'track_odometry/src/track_odometry.cpp'
SP = 'planner_cspace/src/start_pose_predictor.cpp'
P('C21', 'Odometry with IMU: heading of the IMU, way and slip of wheels; projection',
  'The odometry published has the attitude and rates of turning of the IMU as seen on the robot, however the IMU is mounted, and moves by the way the raw odometry tells, turned to that attitude, and shortened by the slip that the difference of the rates of turning shows: none when they agree or when the turn is within the noise, and forgotten bit by bit while driving straight. '
  'Pauses of any length do not reverse the slip or carry the height past zero; without the IMU nothing is published and no way is lost; positions stay finite. The transform sent agrees with the odometry. '
  'A projected frame lies on the surface at the foot of its source, with the attitude asked for.',
  ['inputs', 'histories'], 'every way, rate, heading, pause and height of a range; five mountings and several attitudes',
  'the tests run the node on a few fixed messages; loss of the IMU, pauses, mountings and the limits of the noise are never reached',
  [OD, 'track_odometry/src/tf_projection_node.cpp', 'track_odometry/src/tf_projection.cpp'],
  [('TrackOdometryNode::cbOdom, cbImu, cbOdomImu, cbTimer, cbResetZ', OD), ('KalmanFilter1', 'track_odometry/include/track_odometry/kalman_filter1.h'), ('TfProjectionNode::process, projectTranslation', 'track_odometry/src/tf_projection_node.cpp')],
  state=[('odom_prev_, odomraw_prev_', 'odometry published and received last', OD), ('slip_', 'estimate of the slip', OD)],
  observe=['odom', 'tf'],
  note='Up to 9 messages; one number symbolic per query. IMU, odometry and transforms come from stand-ins; synchronising the messages is not covered.' + ROSN + TRUST)

P('C22', 'Where the next plan starts on the path being followed; grid and metric positions',
  'While the robot follows a path, the next plan starts in the first cell of that path that the robot reaches later than planning takes, or where the path turns over if it gets there in time, or at its end. The path from the robot to there is kept unchanged, and only if it is free and on the map; nothing is kept when the robot is far from the path. '
  'Grid positions are converted to the middle of their cell and back to the same cell, and paths to poses with the same positions and headings.',
  ['inputs', 'configurations'], 'every position of the robot along the path, every cost of a cell on or beside it, every cell index and position of a range',
  'the tests try a few positions on two paths; positions behind the path, near a turn or on a map that changed are not among them',
  [SP, PL + 'planner_3d/start_pose_predictor.h', PL + 'planner_3d/grid_metric_converter.h'],
  [('StartPosePredictor::process, removeAlreadyPassed, getSwitchBack, getExpectedPose, buildResults, isPathColliding', SP), ('grid2Metric, metric2Grid, appendGridPath2MetricPath', PL + 'planner_3d/grid_metric_converter.h')],
  observe=['start of the next plan', 'path kept', 'positions'],
  note='Paths of up to 13 poses along the axes, maps up to 10x8 with 4 headings. Where the planner node uses these is not covered.' + TRUST)

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for m in META:
            f.write(json.dumps(m) + '\n')
    man = dict(version=1, setup_cmd='make -s -C engine -j8', checks=CHECKS, not_applicable=NOT,
               notes='No hooks in /repo. Known findings and repaired defects: known-findings.txt.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for m in META:
            jsonschema.validate(m, S)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('valid')
    except ImportError:
        pass
    import props
    for c in CHECKS:
        assert c['property'] in props.PROPS, c['property']
    import glob
    t = open(os.path.join(ROOT, 'design.tmpl')).read()
    pr = ''
    for m in META:
        n = [c['level_note'] for c in CHECKS if c['property'] == m['id']]
        ents = []
        if m['id'] in props.PROPS:
            for u in props.PROPS[m['id']]['units']:
                ents.append('`harness/%s`: %s' % (u['src'], ', '.join(sorted({j['entry'] for j in u['jobs']}))))
        pr += '### %s %s\n\n%s\n\nRange: %s. Why not tests: %s.\n\nDecided by %s.%s\n\n' % (
            m['id'], m['title'], m['statement'], m['quantifier']['text'], m['why_tests_cant'], '; '.join(ents) or 'nothing (see below)', (' Bounds: ' + n[0].replace(TRUST, '')) if n else '')
    nt = ''.join('- %s: %s\n' % (n['property'], n['reason']) for n in NOT) or 'Nothing.\n'
    sd = ''
    caught = {}
    cf = os.path.join(ROOT, 'tools', 'caught.json')
    if os.path.exists(cf):
        caught = json.load(open(cf))
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        k = os.path.basename(os.path.dirname(f))
        x = json.load(open(f))
        sd += '| %s | %s | %s | %s |\n' % (k, x['property'], x['needs'], caught.get(k, '?'))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(t.replace('@@PROPS@@', pr.strip()).replace('@@NOT@@', nt.strip()).replace('@@SEEDS@@', sd.strip()))


if __name__ == '__main__':
    main()
