# What each property's check consists of.  Bounds are stated per entry; see DESIGN.md.
PROPS = {}


def ranges(lo, hi, n, a='r0', b='res'):
    step = (hi - lo + n) // n
    return [{a: x, b: min(hi, x + step - 1)} for x in range(lo, hi + 1, step)]


PROPS['C01'] = dict(
    explanation='all 32-bit component values symbolic; every cyclic resolution up to the bound enumerated',
    bounds='components: all 2^32 values each; cyclic resolution 1..64 (quick) / 1..512 (thorough); 3-D vectors with one cyclic axis and 4-D vectors with two',
    units=[dict(src='cyclic.cpp', inc='planner', jobs=[
        dict(entry='h_cycle', shards=lambda t: ranges(1, 64 if t == 'quick' else 512, 8), reach=['cycle']),
        dict(entry='h_exceed', reach=['exceed']),
        dict(entry='h_eq', reach=['eq']),
    ])],
)

PROPS['C02'] = dict(
    explanation='grid sizes enumerated, positions and cell values symbolic',
    bounds='per job parameters below; see DESIGN.md', units=[dict(src='grid.cpp', inc='planner', jobs=[
        dict(entry='h_addr32', reach=['addr32'], thorough={'angles': 16}),
        dict(entry='h_addr4', reach=['distinct'], thorough={'max': 17}),
        dict(entry='h_addr_2d', reach=['addr2d'], thorough={'max': 40}),
        dict(entry='h_resize', reach=['resize'], params={'max': 4}, thorough={'max': 7}),
        dict(entry='h_validated', reach=['validated'], thorough={'max': 12}),
        dict(entry='h_validate', reach=['validate']),
    ])])
PROPS['C03'] = dict(
    explanation='grid sizes enumerated, positions and cell values symbolic',
    bounds='per job parameters below; see DESIGN.md', units=[dict(src='grid.cpp', inc='planner', jobs=[
        dict(entry='h_clear', reach=['clear', 'clear_positive']),
        dict(entry='h_clear_part', reach=['clear_part'], thorough={'max': 4}),
        dict(entry='h_copy_part', reach=['copy_part']),
        dict(entry='h_copy_off', reach=['copy_off']),
        dict(entry='h_assign', reach=['assign']),
    ])])
def fix(n):
    return [dict(fixn=n, fix=i) for i in range(1 << n)]


PROPS['C04'] = dict(
    explanation='every edge or cell cost (and estimate, start cost) symbolic; the oracle is the set of all simple paths of the grid',
    bounds='grids up to 3x2 with one symbolic cost per motion, 3x3 with one per cell, 2x1x2/1x1x3 with cyclic headings; costs -1 (impassable) or 0..K with K given per job; 1-2 (thorough 3) starts; one task per round',
    units=[dict(src='astar.cpp', inc='planner', jobs=[
        dict(entry='h_degenerate', reach=['degenerate']),
        dict(entry='h_optimal', tag='edges22', params=dict(w=2, h=2, K=100), reach=['found', 'none']),
        dict(entry='h_optimal', tag='edges22d', params=dict(w=2, h=2, K=7, diag=1), reach=['found', 'none']),
        dict(entry='h_optimal', tag='heur22', params=dict(w=2, h=2, K=7, heur=1), reach=['found', 'none']),
        dict(entry='h_optimal', tag='edges32', params=dict(w=3, h=2, K=3), thorough=dict(K=15), reach=['found', 'none'], cost=40),
        dict(entry='h_optimal', tag='cells32', params=dict(w=3, h=2, mode=1, K=15), thorough=dict(heur=1, K=7), reach=['found', 'none']),
        dict(entry='h_optimal', tag='cells33', params=dict(w=3, h=3, mode=1, K=2), thorough=dict(K=31), shards=lambda t: fix(4), reach=[], cost=40),
        dict(entry='h_optimal', tag='maze', params=dict(w=3, h=3, mode=2, heur=2), thorough=dict(w=4), reach=['found', 'none']),
        dict(entry='h_optimal', tag='maze3', params=dict(w=3, h=2, r=2, mode=2), shards=lambda t: fix(2), reach=[], thorough_only=True),
        dict(entry='h_large', tag='large', params=dict(tasks=1), thorough=dict(w=40), reach=['found', 'none']),
        dict(entry='h_large', tag='large3', params=dict(w=5, h=33, r=4, heur=1, tasks=1), thorough=dict(w=33), reach=['found', 'none']),
        dict(entry='h_cyclic', tag='cyc1', params=dict(w=1, h=1, r=3, K=7), reach=['found']),
        dict(entry='h_cyclic', tag='cyc2', params=dict(w=2, h=1, r=2, K=7), reach=['found']),
        dict(entry='h_multi', tag='multi22', params=dict(w=2, h=2, K=7), reach=['found', 'none'], cost=20),
        dict(entry='h_multi', tag='multi32', params=dict(w=3, h=2, mode=1, K=7), reach=[], shards=lambda t: fix(2), cost=30),
        dict(entry='h_multi', tag='multi22h', params=dict(w=2, h=2, heur=1, K=7), reach=['found', 'none'], thorough_only=True),
        dict(entry='h_multi', tag='multi32_3', params=dict(w=3, h=2, mode=1, ns=3, K=3), reach=[], shards=lambda t: fix(2), thorough_only=True),
    ])])
PROPS['C05'] = dict(
    explanation='every cost, estimate and stop decision symbolic; several cells expanded per round',
    bounds='grids up to 3x3; costs -1 or 0..K; 2-3 tasks per round; 1-2 starts; queue limits 1-2; one thread (the parallel section is executed by one worker)',
    units=[dict(src='astar.cpp', inc='planner', jobs=[
        dict(entry='h_tasks', tag='t22', params=dict(w=2, h=2, tasks=2, ns=2, heur=3, K=3), thorough=dict(K=7), reach=['found', 'none']),
        dict(entry='h_tasks', tag='t33', params=dict(w=3, h=3, mode=1, tasks=3, K=3), reach=['found', 'none'], cost=12),
        dict(entry='h_tasks', tag='reuse', params=dict(w=3, h=2, mode=1, tasks=2, heur=3, reuse=1, K=3), reach=['found', 'none'], cost=12),
        dict(entry='h_tasks', tag='t32', params=dict(w=3, h=2, tasks=2, ns=1, heur=0, K=2), shards=lambda t: [{}], thorough_only=True),
        dict(entry='h_tasks', tag='t33h', params=dict(w=3, h=3, mode=1, tasks=2, heur=3, K=3), shards=lambda t: fix(4), reach=[], thorough_only=True),
        dict(entry='h_large', tag='large', params=dict(tasks=4), reach=['found', 'none']),
        dict(entry='h_large', tag='default', params=dict(h=8), reach=['found', 'none']),
        dict(entry='h_leave', tag='limit1', params=dict(limit=1, K=3), reach=['found', 'none']),
        dict(entry='h_leave', tag='limit2', params=dict(w=3, h=2, mode=1, limit=2, K=3, tasks=2), thorough=dict(K=7), reach=['found', 'none']),
        dict(entry='h_leave', tag='leave22', params=dict(leave=1, K=3), reach=['found', 'goal', 'none']),
        dict(entry='h_leave', tag='leave32', params=dict(w=3, h=2, mode=1, leave=1, K=3), reach=['found', 'goal', 'none'], cost=20),
        dict(entry='h_leave', tag='best22', params=dict(best=1, K=2), reach=['found', 'best']),
        dict(entry='h_leave', tag='best32', params=dict(w=3, h=2, mode=1, best=1, tasks=2, K=3), reach=['found', 'best'], cost=20),
        dict(entry='h_progress', tag='p33', params=dict(w=3, h=3), thorough=dict(w=4), reach=['found', 'stopped']),
        dict(entry='h_progress', tag='p32t', params=dict(w=3, h=2, tasks=2), reach=['found', 'stopped']),
    ])])
PROPS['C06'] = dict(
    explanation='every filter state, odds, cell value symbolic; observation centre, ranges and operation sequence enumerated symbolically',
    bounds='per job parameters below; see DESIGN.md', units=[dict(src='bbf.cpp', inc='planner', repo=['planner_cspace/src/costmap_bbf.cpp'], jobs=[
        dict(entry='h_filter', reach=['filter']),
        dict(entry='h_filter_order', reach=['order']),
        dict(entry='h_probability', reach=['probability']),
        dict(entry='h_cost', reach=['cost'], shards=lambda t: [dict(k0=i, k1=i) for i in range(7)], cost=30),
        dict(entry='h_remember', reach=[], shards=lambda t: [dict(r0=i, r1=i) for i in range(4)]),
        dict(entry='h_history', tag='wide', params=dict(steps=2), reach=['history', 'update'], thorough=dict(steps=4), cost=9),
        dict(entry='h_history', tag='tall', params=dict(w=2, h=3, steps=2), reach=['history', 'update'], thorough=dict(steps=3), cost=9),
        dict(entry='h_history', tag='long', params=dict(w=1, h=2, steps=3), reach=['history', 'update'], thorough=dict(steps=5), cost=9),
        dict(entry='h_noop', reach=['noop']),
    ])])


def ks(n, name='k'):
    return lambda t: [{name: i} for i in range(n)]


PROPS['C07'] = dict(
    explanation='every float of the command, limits and time step symbolic, including NaN and infinities for the command',
    bounds='per job parameters below; see DESIGN.md', units=[dict(src='tracker.cpp', inc='all', std=14, jobs=[
        dict(entry='h_clip', reach=['clip', 'nan']),
        dict(entry='h_limit', reach=['nan', 'inside', 'above', 'below']),
        dict(entry='h_increment', reach=['increment']),
        dict(entry='h_limit_seq', reach=['seq']),
        dict(entry='h_time_optimal', reach=['time_optimal'], shards=lambda t: [dict(k=k, e0=e, e1=e + 100) for k in range(4) for e in (-100, 0)]),
        dict(entry='h_angle', reach=['angle'], shards=lambda t: [dict(lo=i, hi=i + 4) for i in range(-16, 16, 4)]),
    ])])
PROPS['C08'] = dict(
    explanation='inputs symbolic, sizes enumerated; see DESIGN.md', bounds='per job parameters below; see DESIGN.md', units=[dict(src='tracker.cpp', inc='all', std=14, jobs=[
        dict(entry='h_average', reach=['average']),
        dict(entry='h_average_int', reach=['average']),
        dict(entry='h_lpf', reach=['lpf'], shards=ks(6, 'tc')),
        dict(entry='h_lpf_response', reach=['response'], shards=lambda t: [dict(tc=i) for i in ((3, 10) if t == 'quick' else (3, 5, 10, 20, 50))]),
        dict(entry='h_complementary', reach=['complementary'], shards=ks(6, 'tc')),
        dict(entry='h_lpf_angle', reach=['angle'], shards=lambda t: [dict(tc=c, turns=n) for c in range(6) for n in ((0,) if c else (0, 1, -1, 2, -3))]),
    ])])
PROPS['C09'] = dict(
    explanation='inputs symbolic, sizes enumerated; see DESIGN.md', bounds='per job parameters below; see DESIGN.md', units=[dict(src='tracker.cpp', inc='all', std=14, jobs=[
        dict(entry='h_line', reach=[], shards=lambda t: [dict(k=k, swap=s) for k in range(6) for s in (0, 1)]),
        dict(entry='h_projection', reach=['projection'], shards=lambda t: [dict(k=k, swap=s) for k in range(6) for s in (0, 1)]),
        dict(entry='h_curvature', reach=['curvature'], shards=ks(6)),
        dict(entry='h_circle', reach=['circle'], shards=ks(3)),
    ])])
PROPS['C10'] = dict(
    explanation='inputs symbolic, sizes enumerated; see DESIGN.md', bounds='per job parameters below; see DESIGN.md', units=[dict(src='tracker.cpp', inc='all', std=14, jobs=[
        dict(entry='h_kalman', reach=['kalman']),
        dict(entry='h_kalman_gain', reach=['gain']),
        dict(entry='h_kalman_inf', reach=['inf']),
    ])])
PROPS['C11'] = dict(
    explanation='inputs symbolic, sizes enumerated; see DESIGN.md', bounds='per job parameters below; see DESIGN.md', units=[dict(src='joints.cpp', inc='planner', repo=['planner_cspace/src/grid_astar_model_2dof_joints.cpp'], jobs=[
        dict(entry='h_cost', reach=[], shards=lambda t: [dict(a=i, b=i, y0=j, y1=j + 3) for i in range(-2, 3) for j in (0, 4, 8)]),
        dict(entry='h_exact', reach=['exact']),
        dict(entry='h_estimate', reach=['estimate']),
        dict(entry='h_range', reach=['out', 'list']),
        dict(entry='h_plan', reach=['found', 'none']),
    ])])
PROPS['C12'] = dict(
    explanation='inputs symbolic, sizes enumerated; see DESIGN.md', bounds='per job parameters below; see DESIGN.md', units=[dict(src='rotation.cpp', inc='planner', repo=['planner_cspace/src/rotation_cache.cpp'], jobs=[
        dict(entry='h_arith', reach=['arith']),
        dict(entry='h_round', reach=['round']),
        dict(entry='h_product', reach=['product']),
        dict(entry='h_len', reach=['len'], shards=lambda t: [dict(y=i) for i in (-7, 0, 3, 20)]),
        dict(entry='h_norm', reach=['norm'], shards=lambda t: [dict(y=i) for i in (-7, 0, 3)]),
        dict(entry='h_line', reach=[], params=dict(range=7), thorough=dict(range=16), shards=lambda t: [dict(k=k, fx=f) for k in range(6) for f in (0, 1)]),
        dict(entry='h_rotate', reach=['rotate'], shards=lambda t: [dict(k=k) for k in range(0, 33, 3 if t == 'quick' else 1)]),
        dict(entry='h_table', reach=['table'], shards=lambda t: [dict(n=n, start=s) for n in (4, 8) for s in range(n)]),
        dict(entry='h_radius', reach=['radius'], shards=lambda t: [dict(n=n, start=s) for n in ((4, 8) if t == 'quick' else (4, 8, 16)) for s in range(0, n, n // 4)]),
    ])])


def ros(**kw):
    """a unit that includes node sources from the repository root, on top of the ROS stand-ins"""
    kw.setdefault('inc', 'all')
    kw.setdefault('stubs', ['stubs/ros'])
    kw.setdefault('inc_extra', ['.'])
    return kw


PROPS['C13'] = dict(
    explanation='every axis value, button and elapsed time symbolic; message shapes, axis assignment and event order enumerated by the solver',
    bounds='up to 3 axes and buttons; sequences of 4 (thorough 5) events',
    units=[ros(src='joystick.cpp', jobs=[
        dict(entry='h_command', reach=['idle', 'command'], shards=lambda t: [dict(la=a) for a in range(3)]),
        dict(entry='h_override', reach=['held back', 'passed', 'released', 'done'], thorough=dict(steps=5)),
        dict(entry='h_mux', reach=['forwarded', 'dropped', 'timeout'], thorough=dict(steps=5)),
    ])])

PROPS['C14'] = dict(
    explanation='obstacle position along one axis symbolic, the other enumerated; every command, time step and event order symbolic or enumerated by the solver',
    bounds='per job parameters below; see DESIGN.md',
    units=[ros(src='limiter.cpp', jobs=[
        dict(entry='h_straight', reach=[], shards=lambda t: [dict(dir=d, y=y, tf=f) for d in range(4) for y in (0, 4, 6) for f in (0, 1)]),
        dict(entry='h_repeat', reach=['height', 'repeat'], shards=lambda t: [dict(tf=f) for f in range(3)]),
        dict(entry='h_motion', reach=[], shards=lambda t: [dict(m=m, y=y) for m in range(7) for y in (-4, -1, 2, 5)]),
        dict(entry='h_more', reach=['more'], shards=lambda t: [dict(escape=e, split=s) for e in (0, 1) for s in (0, 1)]),
        dict(entry='h_max', reach=['inside', 'above'], shards=lambda t: [dict(vy=y) for y in (0, 3, -6)]),
        dict(entry='h_max_speed', reach=['speed'], shards=lambda t: [dict(vy=y) for y in range(4)]),
        dict(entry='h_history', reach=['disabled', 'no cloud', 'blocked', 'passed', 'timeout'], shards=lambda t: [dict(dog=d) for d in (0, 1)]),
    ])])

MOT = ['planner_cspace/src/%s.cpp' % f for f in ('grid_astar_model_3dof', 'motion_cache', 'motion_primitive_builder', 'rotation_cache')]
PROPS['C15'] = dict(
    explanation='the motion, start position, obstacle position and cell costs are symbolic; headings enumerated',
    bounds='8 headings with range 3 (thorough: 16 headings, range 4); resolution 0.1 m; motions offered around a start; one cell of the map differs from the others',
    units=[dict(src='motions.cpp', inc='planner', stubs=['stubs/ros'], repo=MOT, jobs=[
        dict(entry='h_swept', tag='8', reach=['refused', 'allowed'], shards=lambda t: [dict(yaw=y) for y in range(8)]),
        dict(entry='h_swept', tag='16', opts=['--max-steps', '2000000000'], params=dict(n=16, range=4), reach=['refused', 'allowed'], cost=20, thorough=dict(range=5),
             shards=lambda t: [dict(yaw=y) for y in ((1, 4, 6, 11) if t == 'quick' else range(16))]),
        dict(entry='h_border', tag='8', reach=['refused', 'allowed'], shards=lambda t: [dict(yaw=y) for y in range(8)]),
        dict(entry='h_border', tag='16', opts=['--max-steps', '2000000000'], params=dict(n=16, range=4), reach=['refused', 'allowed'], cost=20, thorough=dict(range=5),
             shards=lambda t: [dict(yaw=y) for y in ((0, 3, 10, 13) if t == 'quick' else range(16))]),
        dict(entry='h_price', tag='8', reach=['price'], shards=lambda t: [dict(yaw=y, kind=k) for y in (0, 1) for k in range(3)]),
        dict(entry='h_price', tag='16', opts=['--max-steps', '2000000000'], params=dict(n=16, range=4), reach=['price'], cost=20,
             shards=lambda t: [dict(yaw=y, kind=k) for y in ((1, 6) if t == 'quick' else range(16)) for k in (0, 2)]),
        dict(entry='h_monotone', tag='8', reach=['monotone'], shards=lambda t: [dict(yaw=y, hyst=k, threshold=h) for y in (0, 1) for k, h in ((0, 0), (0, 20), (1, 0))]),
        dict(entry='h_monotone', tag='16', opts=['--max-steps', '2000000000'], params=dict(n=16, range=4), reach=['monotone'], cost=20,
             shards=lambda t: [dict(yaw=y, hyst=k) for y in ((2,) if t == 'quick' else range(16)) for k in range(2)]),
        dict(entry='h_offered', reach=['offered'], shards=lambda t: [dict(yaw=y, sym=k) for y in (0, 1, 2, 5) for k in range(3)]),
        dict(entry='h_grids', reach=['grids']),
        dict(entry='h_estimate', reach=['estimate'], shards=lambda t: [dict(inf=k) for k in (0, 1)]),
        dict(entry='h_bound', reach=['bound']),
        dict(entry='h_rough', reach=['refused', 'allowed']),
        dict(entry='h_consistent', reach=['consistent'], shards=lambda t: [dict(gy=k) for k in (30, 27, 36, 55)]),
        dict(entry='h_find', reach=['found', 'not found']),
        dict(entry='h_path', tag='8', reach=['path'], shards=lambda t: [dict(yaw=y) for y in range(8)]),
        dict(entry='h_path', tag='16', opts=['--max-steps', '2000000000'], params=dict(n=16, range=4), reach=['path'], cost=20, shards=lambda t: [dict(yaw=y) for y in ((1, 8) if t == 'quick' else range(16))]),
        dict(entry='h_path', tag='two', opts=['--max-steps', '2000000000'], params=dict(steps=2), thorough=dict(n=16, range=4), reach=['path'], cost=9, shards=lambda t: [dict(yaw=y, ox=-4, oy=11) for y in ((1, 4) if t == 'quick' else range(16))]),
    ])])
U5 = [dict(w=5, h=3, fixed=2), dict(w=7, h=3, cx=2, cw=3, fixed=3, where=1), dict(w=8, h=1, cx=1, cw=6, cy=0, fixed=0, goal=1, start=1),
      dict(w=6, h=2, cx=2, cw=2, cy=0, fixed=2, where=1, move=1), dict(w=12, h=1, cx=5, cw=2, cy=0, fixed=2, where=1, move=1, rounds=2, over=2, start=5),
      dict(w=6, h=3, cx=3, cy=1, cw=2, ch=2, fixed=1, goal=2), dict(w=16, h=1, cx=12, cw=2, cy=0, fixed=1, where=5, move=1, over=1, start=13), dict(w=5, h=3, fixed=2, tasks=3, goal=3, rounds=2)]
UT = U5 + [dict(w=6, h=4, cx=2, cw=2, ch=2, cy=1, fixed=4, where=1), dict(w=6, h=4, cx=2, cw=1, ch=2, cy=1, fixed=6, where=1, rounds=2),
           dict(w=9, h=2, cx=4, cw=2, ch=2, cy=0, fixed=4, where=2), dict(w=4, h=3, cx=0, cw=4, ch=2, cy=1, fixed=1, goal=3), dict(w=6, h=2, cx=2, cw=2, cy=0, fixed=2, where=1, move=1, rounds=2),
           dict(w=14, h=1, cx=2, cw=2, cy=0, fixed=2, where=1, move=1, rounds=2, over=1), dict(w=9, h=2, cx=5, cw=2, cy=0, fixed=2, where=1, move=1, rounds=2, over=1, start=9)]
PROPS['C16'] = dict(
    explanation='obstacles before and after each change chosen by the solver, one cell cost symbolic; the oracle is an independent relaxation over the same moves',
    bounds='maps up to 8x3 / 16x1 (thorough 6x4); up to 8 cells that may hold obstacles; up to 2 updates; 1 or 3 tasks per round, one thread',
    units=[dict(src='distmap.cpp', inc='planner', stubs=['stubs/ros'], repo=MOT + ['planner_cspace/src/distance_map.cpp'], jobs=[
        dict(entry='h_create', reach=['all', 'some'], thorough=dict(w=5, cells=8), shards=lambda t: [dict(goal=g, tasks=k) for g in (0, 4, 7) for k in (1, 3)]),
        dict(entry='h_costs', reach=['costs'], shards=lambda t: [dict(cell=k, remembered=r) for k in range(3) for r in (0, 1)]),
        dict(entry='h_overshoot', reach=['overshoot'], params=dict(w=12), thorough=dict(w=18), shards=lambda t: [dict(over=o) for o in (1, 3)]),
        dict(entry='h_update', reach=['reachable'], opts=['--max-steps', '2000000000'], shards=lambda t: U5 if t == 'quick' else UT),
        dict(entry='h_outside', reach=['outside']),
    ])])


def _c17(t):
    feet = [(0, 0, 8), (1, 0, 8), (2, 0, 16), (3, 0, 8), (0, 24, 4), (4, 24, 1)]
    s = []
    for f, sp, a in feet:
        for p in range(5):
            s.append(dict(foot=f, pattern=p, angles=a, spread16=sp, n=2 if sp == 0 or f == 4 else 1))
    if t == 'thorough':
        s = [dict(d, n=3 if d['spread16'] == 0 else d['n'] + 1, angles=2 if d['spread16'] else d['angles']) for d in s] + [dict(d, expand16=12, n=3) for d in s if d['spread16'] == 0] + [dict(d, n=4) for d in s if d['spread16'] == 0 and d['foot'] in (0, 1)]
    return s


PROPS['C17'] = dict(
    explanation='margins, spread and minimum cost symbolic for the templates; the cost values of up to 4 cells of a map symbolic for the inflation',
    bounds='five footprints (triangle, long and asymmetric rectangles, pentagon, point), up to 16 headings; maps of 7x6 cells',
    units=[ros(src='costmap.cpp', jobs=[
        dict(entry='h_template', reach=['template'], shards=lambda t: [dict(foot=f, free=k, perm=p, range=r) for f, rs in enumerate(([4, 5], [4, 5], [4, 5], [4, 5], [2, 3])) for k in range(3) for r in (rs if k < 2 else rs[:1]) for p in ([1] if t == 'quick' else [1, 10, 20])]),
        dict(entry='h_inflate', reach=['inflated'], shards=_c17),
    ])])

PROPS['C18'] = dict(
    explanation='positions of overlays, the order of messages, and the cost values of cells chosen by the solver; oracles: an independent composition of base map and overlay, and a costmap that got the latest messages only',
    bounds='maps up to 10x4, overlays up to 5x4 at every offset, up to 4 messages on two overlay layers',
    units=[ros(src='costmap.cpp', jobs=[
        dict(entry='h_overlay', reach=['overlaid', 'off the map'], shards=lambda t: [dict(overwrite=o, foot=f, keep=k, first=i) for o in (0, 1) for f, k, i in ((0, 0, 1), (0, 1, 1), (4, 0, 1), (3, 0, 0))] + [dict(overwrite=o, keep=k, perm=p, at=-7 - o, n=0, foot=2 * o) for o in (0, 1) for k, p in ((0, 20), (1, 10), (0, 3))]),
        dict(entry='h_history', reach=['same'], shards=lambda t: [dict(oa=a, ob=b, lead=l, stop=s, unknown=s, keep=s) for a in (0, 1) for b in (0, 1) for l in range(4) for s in (0, 1) if t != 'quick' or (a + b + l + s) % 2 == 0]),
        dict(entry='h_rebase', reach=['rebased'], shards=lambda t: [dict(who=k, oa=a, ob=a) for k in (0, 1) for a in (0, 1)]),
        dict(entry='h_special', reach=['special'], shards=lambda t: [dict(stop=s) for s in (0, 1)]),
        dict(entry='h_region', reach=['regions']),
        dict(entry='h_accum', reach=['clouds'], params=dict(n=4), thorough=dict(n=6)),
    ])])

PROPS['C19'] = dict(
    explanation='kinds of moves chosen by the solver, one length, angle or coordinate of the target any number of its range',
    bounds='paths of up to 7 poses; five shapes for the nearest segment and remaining distance',
    units=[ros(src='path.cpp', jobs=[
        dict(entry='h_read', reach=['read', 'turn'], thorough=dict(n=6), shards=lambda t: [dict(vel=v, free=f) for v in (0, 1) for f in (1, 3, 4)]),
        dict(entry='h_local', reach=['local goals'], thorough=dict(n=6), shards=lambda t: [dict(heading=h, turn=k, back=b, spot=s) for h, k in ((0, 0), (1, 1), (2, -1), (3, 2)) for b in (0, 1) for s in (0, 1)]),
        dict(entry='h_nearest', reach=['nearest'], shards=lambda t: [dict(k=k, v=v, swap=s, begin=b, range4=r) for k in range(5) for v, s in ((0, 0), (1, 1), (2, 0), (3, 1)) for b, r in ((0, 0), (1, 10))]),
        dict(entry='h_remain', reach=['last', 'before'], shards=lambda t: [dict(k=k, i=i, end=e) for k in range(4) for i, e in ((1, 6), (3, 4), (3, 6), (5, 6))]),
        dict(entry='h_remain_one', reach=['one']),
        dict(entry='h_curv', reach=['circle'], shards=lambda t: [dict(few=f, side=s, back=b, range=r) for f in (0, 1) for s in (0, 1) for b in (0, 1) for r in (1, 40)]),
        dict(entry='h_straight', reach=['straight'], shards=lambda t: [dict(n=n, yaw=y) for n in (2, 4) for y in (0, 1)]),
        dict(entry='h_eta', reach=['eta'], shards=lambda t: [dict(spin=s, free=f, start=s) for s, f in ((0, 3), (0, 4), (1, 1), (1, 3))]),
    ])])

PROPS['C20'] = dict(
    explanation='the position of the robot along or beside the path, the speed of the path: any number of its range; the rest by shards',
    bounds='paths of up to 9 poses, up to 12 control steps, nine headings',
    units=[ros(src='tracking.cpp', jobs=[
        dict(entry='h_limits', reach=['limits'], shards=lambda t: [dict(tf=(p + y) % 2, path=p, vel=y % 2, yaw=y, y=(y - 1) * 2, steps=s, free=s - 1 - s // 4) for p in range(4) for y in range(4) for s in (3, 4) if s == 3 or p != 2]),
        dict(entry='h_side', reach=['far', 'near'], shards=lambda t: [dict(tf=k, back=b) for k in (0, 1) for b in (0, 1)]),
        dict(entry='h_heading', reach=['turn first', 'along'], shards=lambda t: [dict(tf=(y + b) % 2, back=b, yaw=y) for b in (0, 1) for y in range(9)]),
        dict(entry='h_goal', reach=['elsewhere', 'there'], shards=lambda t: [dict(tf=y % 2, yaw=y) for y in range(6)] + [dict(v=3, delay=d, yaw=1) for d in (1, 2)] + [dict(w=w, delay=d, yaw=y) for w in (2, -4) for d in (1, 2) for y in (1, 2, 3)] + [dict(lim=1, v=v, w=w) for v in (0, 1) for w in (0, 1)] + [dict(step=s, yaw=s - 2, tf=s % 2) for s in (2, 3, 4)] + [dict(back=1, v=v, delay=d, tf=d % 2, yaw=y) for v, d in ((0, 0), (2, 1), (3, 2)) for y in (0, 1)]),
        dict(entry='h_brake', reach=['brake'], shards=lambda t: [dict(part=p, tf=p % 2) for p in range(3)]),
        dict(entry='h_parts', reach=['first part', 'way back'], shards=lambda t: [dict(kind=k, where=w, tf=w) for k in (0, 1) for w in (0, 1)]),
        dict(entry='h_nopath', reach=['nothing'], shards=lambda t: [dict(why=w, y=w % 3) for w in range(6)]),
        dict(entry='h_speed', reach=['speed'], shards=lambda t: [dict(vel=v, cmd=c) for v in (0, 1) for c in (0, 1)]),
        dict(entry='h_reconfigure', reach=['reconfigured']),
        dict(entry='h_newpath', reach=['new path'], shards=lambda t: [dict(tf=(n + s) % 2, n=n, same=s) for n in (7, 9) for s in (0, 1)]),
        dict(entry='h_curve', reach=['curve'], shards=lambda t: [dict(side=s, back=b, lim=l, i=3 + s + b) for s in (0, 1) for b in (0, 1) for l in (0, 1)]),
    ])])

PROPS['C21'] = dict(
    explanation='the way driven, the rates of turning, the heading, the pause, the height: any number of its range, one per query; attitudes, mountings and settings by shards',
    bounds='up to 9 odometry messages; five mountings of the IMU; four attitudes of the source and of the surface',
    units=[ros(src='odometry.cpp', jobs=[
        dict(entry='h_pose', reach=['pose'], shards=lambda t: [dict(mount=m, tf=m % 2, z=m // 2 % 2, iyaw=y, turn=m % 3 - 1, oyaw=(y + m) % 4, roll=m - 1, pitch=y - 1) for m in range(5) for y in range(4)]),
        dict(entry='h_attitude', reach=['attitude'], shards=lambda t: [dict(mount=m, part=p) for m in range(5) for p in range(3)]),
        dict(entry='h_slip', reach=['slip'], shards=lambda t: [dict(kf=k, neg=n, left=l) for k in (0, 1) for n in (0, 1) for l in (0, 1)] + [dict(kf=k, which=1, left=l) for k in (0, 1) for l in (0, 1)] + [dict(kf=0, which=w, left=l, n=2) for w in (2, 3) for l in (0, 1)]),
        dict(entry='h_straight', reach=['straight'], shards=lambda t: [dict(wi=w) for w in (0, 3, -3)]),
        dict(entry='h_gap', reach=['gap'], shards=lambda t: [dict(which=w) for w in (0, 1)]),
        dict(entry='h_lost', reach=['lost'], shards=lambda t: [dict(when=w) for w in (0, 1)]),
        dict(entry='h_other', reach=['height'], shards=lambda t: [dict(which=0)] + [dict(which=1, mount=m) for m in (0, 2, 3)]),
    ]), ros(src='projection.cpp', jobs=[
        dict(entry='h_project', reach=['projected'], shards=lambda t: [dict(posture=p, align=a, flat=f, k=k, l=(k + p + f) % 4, free=(k + a) % 3, old=k % 2, static=(k + f) % 2) for p, a in ((0, 0), (1, 0), (1, 1)) for f in (0, 1) for k in range(4)]),
        dict(entry='h_noproject', reach=['nothing'], shards=lambda t: [dict(half=h) for h in (0, 1)]),
    ])])

PROPS['C22'] = dict(
    explanation='the position of the robot, a cost, a cell or a position: any value of its range, one per query; paths, maps, obstacles and times by shards',
    bounds='paths of up to 13 poses, maps up to 10x4, 4 headings; cells up to 2000 from the origin, four resolutions and origins',
    units=[dict(src='predictor.cpp', inc='planner', stubs=['stubs/ros'], inc_extra=['trajectory_tracker/include'], repo=MOT + ['planner_cspace/src/start_pose_predictor.cpp'], jobs=[
        dict(entry='h_ahead', reach=['ahead', 'end'], shards=lambda t: [dict(T=k, off=o, yaw=(k * 3 + o) % 4) for k in (0, 1, 2, 3, 5) for o in (0, 1, -2)] + [dict(T=2, off=4), dict(T=2, off=0, yaw=6)]),
        dict(entry='h_free', reach=['kept'], shards=lambda t: [dict(T=k, cell=c, row=r, ang=a) for k in (1, 3) for c in range(1, 6) for r, a in ((1, 0), (2, 0), (1, 1)) if r == 1 and a == 0 or c == 3] + [dict(T=3, dir=d, ang=d, cell=c, row=r) for d, c, r in ((1, 3, 3), (1, 3, 5), (2, 5, 1), (2, 3, 1), (3, 3, 5), (3, 3, 2))]),
        dict(entry='h_switch', reach=['done'], shards=lambda t: [dict(m=m, grid=g, late=l) for m in (3, 4, 5) for g in (0, 1) for l in (0, 1)]),
        dict(entry='h_map', reach=['map'], shards=lambda t: [dict(k=k, w=w, h=h) for k in range(5) for w, h in ((3, 2), (6, 1), (8, 4))]),
        dict(entry='h_convert', reach=['convert'], shards=lambda t: [dict(k=k, o=(k + a) % 4, axis=a) for k in range(4) for a in range(3)] + [dict(k=0, o=3, axis=0), dict(k=3, o=3, axis=0)]),
        dict(entry='h_cell', reach=['cell'], shards=lambda t: [dict(axis=a) for a in range(3)]),
        dict(entry='h_append', reach=['append'], shards=lambda t: [dict(axis=a) for a in range(3)]),
    ])])
