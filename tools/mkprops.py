"""Writes /verif/properties.jsonl (one place where the property texts live)."""
import json, os
E='nonasymptotic/envs.py'; U='nonasymptotic/util.py'; B='nonasymptotic/bound.py'; P='nonasymptotic/prm.py'
A='nonasymptotic/ann.py'; S='nonasymptotic/sampler.py'
TS='exps/tamp_environment/turtlebot_move/separating_axis.py'; TST='exps/tamp_environment/turtlebot_move/streams.py'
KS='exps/tamp_environment/kuka_carry/separating_axis.py'
NT='exps/run_narrow_passage_clearance_trial.py'; KT='exps/run_knn_radius_trial.py'; LT='exps/run_straight_line_optimality_trial.py'
ps=[]
def p(id,title,stmt,over,q,why,files,mech):
    ps.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Straight-line environment: a motion is valid iff it stays in the box',
 'In the straight-line environment of any dimension, clearance and length, the motion checker accepts a straight motion exactly when every point of the segment from start to goal lies in the closed box of half-width delta around the unit line, [-delta, length+delta] x [-delta, delta]^(d-1). Checking one motion and checking a batch of motions give the same verdict for the same motion, one verdict per motion.',
 ['inputs','configurations'],'every dimension >= 2, clearance >= 0, length >= 0, every start and goal, every batch size',
 'No stable test touches the straight-line environment at all; dimension, batch size and endpoints range over infinite sets.',
 [E],[('box containment of both endpoints',E+':StraightLine.is_motion_valid'),('box bounds',E+':StraightLine.__init__')])
p('C02','Straight-line environment: curve, distance, sampling and volume agree',
 'The solution curve of the straight-line environment starts at the origin, ends at distance `length` along the first axis, is traversed proportionally to its parameter (clamped to [0,1]) and stays in the box. The reported distance of a point to the path is the exact Euclidean distance to that curve (never larger than the distance to any point of the curve, and attained). Samples are drawn uniformly from exactly the box that the motion checker accepts, whose reported volume is (length + 2 delta)(2 delta)^(d-1).',
 ['inputs','configurations'],'every dimension >= 2, clearance, length, curve parameter, query point and random draw',
 'No stable test exercises it; the claims range over all points, parameters and dimensions.',
 [E],[('curve, projection, box',E+':StraightLine'),])
p('C03','Planar segment intersection test is exact',
 'For two planar segments the vectorised intersection test reports an intersection exactly when the two closed segments have a point in common, including touching endpoints, parallel, collinear (overlapping or disjoint) and single-point segments. The verdict of each pair in a batch depends on that pair only, and single segments broadcast against batches.',
 ['inputs'],'all pairs of segments with real coordinates, all batch sizes and broadcasting forms',
 'The stable tests never call it directly; they reach it through five hand-picked planar motions, with no parallel, collinear or touching cases.',
 [U],[('cross-product parametrisation with collinear casework',U+':detect_intersect')])
p('C04','Narrow-passage environment: a motion is valid iff it never enters a wall',
 'In the narrow-passage environment of any dimension and clearance, for endpoints in free space, an accepted motion has its whole segment in free space (the two end rooms joined by the hallway), and a rejected motion has a segment that touches a wall (the closed complement of the open free space inside the hallway slab). Each motion in a batch is judged on its own.',
 ['inputs','configurations'],'every dimension >= 2, clearance in (0, 1/2), every start and goal in free space, every batch size',
 'Five stable tests check single planar motions; no test uses dimension > 2, mixed batches, or a wall that is only hit in a later coordinate.',
 [E,U],[('per-coordinate-plane wall intersection',E+':NarrowPassage.is_motion_valid'),('wall segments',E+':NarrowPassage.__init__')])
p('C05','Narrow-passage environment: sampling, volume and curve describe free space',
 'The narrow-passage sampler picks a room or the hallway with probability equal to its share of the volume and then a uniform point of it, so it is uniform on free space and never outside it. The reported volume is 2 + (2 clearance)^(d-1). The solution curve lies in the hallway, starts at its left opening, ends at its right opening with unit length, and the reported distance of points to the path is the exact Euclidean distance to that curve.',
 ['inputs','configurations'],'every dimension >= 2, clearance in (0,1/2), curve parameter, query points and random draw',
 'No stable test samples this environment or asks for its volume, curve or distance.',
 [E],[('pmf and boxes',E+':NarrowPassage.__init__'),('sampling',E+':NarrowPassage.sample_from_env'),('curve',E+':NarrowPassage.arclength_to_curve_point'),('distance',E+':NarrowPassage.distance_to_path')])
p('C06','Gray-code maze is one corridor through every cell exactly once',
 'The maze of any dimension and length is a single corridor: its cell ordering lists every cell of the grid [0,length) x {0,1}^(d-1) exactly once, consecutive cells differ by exactly one step in exactly one coordinate, and the passage graph contains exactly the links between consecutive cells.',
 ['configurations'],'every dimension >= 2 and every length >= 1',
 'Stable tests look at one 3-D maze of length 2; the claim is an induction over length for every dimension.',
 [E],[('forward/backward Gray-code sweep per slab',E+':GrayCodeWalls.__init__')])
p('C07','Gray-code maze sampler is uniform on the free space',
 'Every sample of the maze lies in free space (non-negative distance to the walls of its cell), in the region that was drawn: the cell core, or one of the passages to its predecessor/successor, on the correct face. The region probabilities sum to one and are proportional to the region volumes, so the sampler is uniform on the union of the regions.',
 ['inputs','configurations'],'every dimension, length, wall thickness in [0, 1/2), cell, region and random draw',
 'Stable tests push three fixed unit-cube points through the transform in two 3-D mazes and draw 100 samples.',
 [E],[('region transform',E+':GrayCodeWalls._transform_sample_to_global_frame'),('pmf vectors',E+':GrayCodeWalls.__init__'),('distance to walls',E+':GrayCodeWalls._distance_to_wall_in_cube')])
p('C08','Gray-code maze: accepted motions are collision free, free motions accepted',
 'In the maze an accepted motion never leaves free space: every point of the segment keeps the wall thickness away from every wall of the cell it is in, and the segment passes from cell to cell only through open passages. A motion whose segment keeps a positive margin from all walls is accepted. (Motions between points strictly inside cells of the maze.)',
 ['inputs','configurations'],'every dimension, length, wall thickness and every pair of points of the maze that are not on a boundary between cells',
 'Stable tests try a dozen hand-picked 3-D motions, none backwards along the corridor through a clipped corner and none in a 2-D maze.',
 [E],[('walk along the corridor, checking each passage',E+':GrayCodeWalls.is_motion_valid'),('wall distance',E+':GrayCodeWalls._distance_to_wall_in_cube')])
p('C09','Gray-code maze solution curve follows the corridor at unit speed',
 'The maze solution curve, parametrised by normalised arclength (clamped to [0,1]), starts at the centre of the first cell, ends at the centre of the last cell, is continuous and moves at unit speed along the segments between the centres of consecutive cells in corridor order. Every point of it keeps distance at least 1/2 minus the wall thickness from all walls.',
 ['inputs','configurations'],'every dimension, length and curve parameter',
 'Stable tests check a handful of parameters in 3-D mazes of length 2 and 3; in other mazes the last leg points in another direction.',
 [E],[('half-edge legs',E+':GrayCodeWalls.arclength_to_curve_point')])
p('C10','Random points of a polygon lie inside it, uniformly over its triangles',
 'For a polygon or multipolygon, the drawn point lies inside one of the triangles of the constrained triangulation, each triangle is drawn with probability equal to its share of the total area, and the point is uniform in the chosen triangle. The boundary handed to the triangulator consists exactly of the polygon rings, each closed once, every vertex given once, with a marker inside each enclosed region that does not belong to the polygon and no marker inside the polygon.',
 ['inputs'],'every triangulation, every random draw, every number of rings and ring lengths',
 'No stable test calls the polygon sampler (its dependencies are only exercised by a manual test).',
 [S],[('barycentric folding and affine map',S+':random_point_in_mpolygon')])
p('C11','Sample-count search returns a certified, locally minimal count',
 'For a failure-probability bound as a function of the sample count, the sample-count search returns m such that the bound at m meets the requested failure probability and does not increase from m to m+1, while m-1 does not satisfy both conditions (unless m is the smallest count tried). The search terminates whenever the doubling phase reaches such a count below its overflow limit, for arbitrarily large counts, and otherwise raises an overflow error.',
 ['inputs'],'every real-valued bound function, success probability in (0,1) and magnitude of the answer',
 'No stable test runs the bound code; large answers (beyond 2^53) and non-monotone bound functions are never sampled.',
 [B],[('doubling then bisection',B+':doubling_sample_search_over_log2_prob_bound')])
p('C12','Certified sample bounds and radii match the theory',
 'The numerical bound returns a sample count whose net-formation failure bound, 2 * sum_{i<=d+1} C(2m,i) * 2^(-rho m / 2) with rho the normalised volume of a ball of radius alpha*clearance, is at most the requested failure probability, together with the connection radius 2(alpha + sqrt(1-alpha^2)) * clearance, alpha = tol/sqrt(1+tol^2) (alpha = 1 when only existence is asked for), and it rejects success probabilities outside (0,1). The stand-alone connection-radius and net-radius formulas agree with it, and the net radius computed from a sample count and failure probability is the one for which the failure bound of that sample count equals that probability.',
 ['inputs'],'all clearances, tolerances, dimensions, volumes and probabilities',
 'No stable test evaluates the bounds; correctness is an identity between formulas over all real parameters.',
 [B],[('rho, alpha, connection radius',B+':compute_numerical_bound'),('Sauer-Shelah bound',B+':compute_sauer_shelah_bound_log2'),('inverse',B+':compute_net_radius_from_prob')])
p('C13','k-NN tail bounds are the stated concentration bounds',
 'Each bound on the log-probability that a radius is not an effective connection radius of a k-NN roadmap equals log m (where the union bound is enabled) plus the stated Hoeffding, Chernoff or Chernoff-KL exponent of the ball mass p = min(V_d r^d / volume, 1) or its unclipped form, and the two forms of the Hoeffding bound agree. Where the mean is below the k-th count the exponents are non-positive, so no bound exceeds log m, and the Hoeffding bounds are non-decreasing in the radius.',
 ['inputs'],'all sample counts >= 2, neighbour counts, radii, dimensions and volumes',
 'No stable test evaluates them; agreement and monotonicity are universally quantified real-arithmetic facts.',
 [B],[('tail bounds',B+':compute_tail_knn_radius_log_prob_*')])
p('C14','Effective-radius search and closed form never over-promise',
 'The radius search returns a radius between the given bounds, at which the failure bound was found to meet the requested probability (or the lower bound itself), with a rejected radius less than the tolerance above it (or the upper bound itself), and terminates for every tolerance above the floating-point spacing of the radii. Whenever the closed-form effective radius r is defined, the expected number of neighbours (m-1) V_d r^d / volume equals k - sqrt(2 k log(m/delta)), and the generic Chernoff failure bound at r meets the requested failure probability delta.',
 ['inputs'],'every bound function, radius interval, tolerance; all sample and neighbour counts, dimensions, volumes and failure probabilities',
 'No stable test runs either; the loop must be right for every bound function and the closed form for every parameter.',
 [B],[('bisection',B+':halving_radius_search_over_log_prob_bound'),('closed form',B+':compute_eff_conn_rad_bound')])
p('C15','Radius roadmap connects exactly the close, mutually visible samples',
 'After any sequence of growing, changing the connection radius and resetting, the fully enumerated radius roadmap has one vertex per sample and joins two distinct samples exactly when their Euclidean distance is at most the current connection radius and the motion checker accepts the motion between them, with that distance as edge weight. The distances it returns are those of the accepted in-range pairs.',
 ['inputs','histories'],'every sample set, radius, motion checker that is symmetric, and call history',
 'No stable test builds a roadmap (networkit is not even installed); histories and sample sets are unbounded.',
 [P],[('all-pairs filter',P+':SimpleFullConnRadiusPRM.grow_to_n_samples'),('rebuild on radius change',P+':SimpleFullConnRadiusPRM.set_connection_radius')])
p('C16','k-NN roadmap is the k-nearest-neighbour graph for the current settings',
 'After growing and any later sequence of neighbour-count and radius settings (up to the neighbour count it was built with), the k-NN roadmap has one vertex per sample and an edge between two samples exactly when one is among the other one\'s k nearest reported neighbours for the current k, the edge is not longer than the current radius if one is set, and the checker accepts the motion; its weight is the reported distance. The certified radius is the smallest k-th neighbour distance, and asking for more neighbours than the maximum raises an error.',
 ['inputs','histories'],'every neighbour table, sequence of setting changes (shrinking, growing, mixing radius and k), and motion checker',
 'No stable test builds a k-NN roadmap; the defect classes here only show after a sequence of at least two setting changes.',
 [P],[('graph assembly',P+':SimplePRM._nn_edge_list_and_dist_list_to_nk_prm_graph'),('truncation',P+':SimpleNearestNeighborRadiusPRM.set_nearest_neighbors'),('radius truncation',P+':SimpleNearestNeighborRadiusPRM.set_connection_radius')])
p('C17','Threshold roadmap built from k-NN tables equals the radius graph',
 'The roadmap that doubles its neighbour count has, after the first build and after every later growth, only edges no longer than its connection radius between samples whose motion the checker accepts, weighted by their distance; and unless the neighbour cap stopped the doubling it contains every such pair strictly within the radius. It has exactly one vertex per sample.',
 ['inputs','histories'],'every sample set, exact neighbour tables, radius, growth history with queries in between',
 'No stable test builds it; growth with reuse and doubling only misbehave in multi-step histories.',
 [P],[('doubling',P+':SimpleRadiusPRM.grow_to_n_samples')])
p('C18','Queries attach endpoints correctly and leave the roadmap unchanged',
 'A path query temporarily joins start and goal to exactly those roadmap samples within the connection radius whose motion from the query point the checker accepts, weighted by Euclidean distance, asks for the shortest path between the two added vertices, returns its length and the samples along it, and leaves vertices, edges and weights of the roadmap as they were. The all-connections query returns every (entry, exit) pair of such samples exactly once, with matching coordinates and roadmap distances.',
 ['inputs','histories'],'every roadmap, query, motion checker and sequence of queries',
 'No stable test runs a query.',
 [P],[('temporary vertices',P+':SimplePRM.query_best_solution'),('cross product',P+':SimplePRM.query_all_graph_connections'),('range filter',P+':*_query_samples')])
p('C19','Growing a roadmap keeps earlier samples and reaches the requested size',
 'Growing any roadmap to n samples yields exactly n samples, keeps all earlier samples unchanged in the same positions, draws each new one from the environment\'s sampler exactly once, and refuses to shrink with an error that leaves the roadmap and its settings unchanged. Resetting forgets all samples so the next growth starts afresh.',
 ['histories','inputs'],'every sampler and every sequence of grow / reset calls',
 'No stable test grows a roadmap.',
 [P],[('sample bookkeeping',P+':*.grow_to_n_samples'),('reset',P+':*.reset')])
p('C20','Nearest-neighbour adapters return the backend\'s table unchanged',
 'The neighbour adapters hand the backend the given points (zero-padded to a multiple of four coordinates where the backend needs it), and return for each point, in row order, the identifiers and Euclidean distances of its k neighbours as the backend reported them. Updating with fresh points extends the same point set in order and keeps k; updating before building raises an error; an unknown adapter name raises an error and a missing optional backend falls back to the default one.',
 ['inputs','histories'],'every point set, dimension, k, and backend answer',
 'The back ends are not installed, so no test runs the adapters.',
 [A],[('text parsing and embedding',A+':KGraphANN'),('delegation',A+':PyNNDescentANN'),('factory',A+':get_ann')])
p('C21','Planar polygon collision test never misses a collision',
 'For two convex planar polygons given by their vertices in order, the separating-axis test reports a collision whenever the polygons have a point in common, and reports none whenever some edge normal strictly separates them. The batch version gives for each pair the same verdict as the single-pair version.',
 ['inputs'],'all polygons with non-degenerate edges, all batch sizes',
 'The TAMP code has no tests; the claim quantifies over all polygon pairs.',
 [TS],[('edge-normal projections',TS+':separating_axis_theorem'),('batched form',TS+':vec_separating_axis_theorem')])
p('C22','Oriented-box collision test never misses a collision',
 'For two oriented boxes given by centre, half extents and rotation, the vectorised box test reports a collision whenever the boxes have a point in common, and none whenever one of their face normals strictly separates them; the corners it computes are centre plus/minus half extent along each box axis. Each pair of a batch is judged on its own.',
 ['inputs'],'all centres, half extents >= 0, rotations, batch sizes',
 'The TAMP code has no tests; rotated non-cubic boxes are never sampled.',
 [KS],[('corner computation',KS+':compute_vertices_vectorized'),('15-axis test',KS+':separating_axis_theorem')])
p('C23','Path refinement keeps waypoints and bounds the step length',
 'Interpolating a path keeps every waypoint in order, adds points only on the straight segments between consecutive waypoints in order along them, and leaves no two consecutive points farther apart than the threshold.',
 ['inputs'],'every path with at least one waypoint, every dimension and threshold > 0',
 'The TAMP code has no tests.',
 [TST],[('interpolation',TST+':interpolate_vectors')])
p('C24','Sharded experiments cover every parameter combination exactly once',
 'For any number of worker tasks, the combinations run by all tasks together are the full cross product of the configuration, each exactly once, in every experiment driver, and every trial is given its own combination and the next seed of its task. Re-running a task whose output is present skips exactly the finished trials and continues with the remaining ones, so an interrupted and resumed task ends with the same trials, seeds included, as an uninterrupted one.',
 ['configurations','crash_points','histories'],'every configuration, number of tasks, and interruption point between trials',
 'The drivers are scripts that no stable test runs; resume is never exercised.',
 [NT,KT,LT],[('strided slice',NT),('resume by skipping',NT)])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in ps: f.write(json.dumps(x)+'\n')
for x in ps:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(ps))
