"""Per property: which binary decides it, how many simulated runs a tier makes, and how the evidence describes it."""
GRID_REAL = ["SearchAlgorithm / AStar, TaxiAStar, InfAStar, Dijkstra searches", "GridMapManager, node managers, node types",
             "DirectNeighborhood<4|8,...>", "Heuristics", "Intermission callbacks", "SimpleGridMap2d, GridMap2d, Pose2d, Point2d, Bresenham2d"]
GRID_STUBS = ["DynamicPriorityQueue (external package, absent here): stand-in with seeded order of ties",
              "map object: SimpleGridMap2d subclass that yields to the simulator and may fail",
              "clocks, boost interruption, malloc/new: link-time wraps", "caller: goal tests, callbacks, interrupting threads"]
GRID_ASSUME = ["the open list is a correct priority queue with decrease-key (its order among equal keys is arbitrary)",
               "grid maps mostly up to about 20x20 cells (now and then up to about 80x80); bugs that need larger ones are not reached",
               "preemption happens at accesses to the environment (map, open list, clock, callbacks, allocation), not between any two instructions"]
LEVEL_NOTE = "Seeded search over generated histories, schedules and faults; no exhaustive coverage is claimed."
STATES = "hash of (planner kind, kind of call, outcome, number of expansions, path, kinds of the faults that fired) after each search"
# how many times as many runs a shard without sanitizers makes
FAST = dict(P01=4.5, P02=2.5, P03=5, P04=5, P05=5, P06=1.9, P07=10, P08=2.2, P09=2.7, P10=5, P11=5, P12=3.3, P13=4, P14=2.9, P15=1.7, P16=2, P17=2.8, P18=5, P19=5.5)
PROPS = {}
def P(id, bin, quick, thorough, rule, real=GRID_REAL, stubs=GRID_STUBS, assume=GRID_ASSUME, states=STATES,
      technique="deterministic simulation with fault injection", level_note=LEVEL_NOTE):
    PROPS[id] = dict(bin=bin, fast=FAST[id], quick=quick, thorough=thorough, rule=rule, real=real, stubs=stubs, assumptions=assume,
                     states=states, level="exploration", technique=technique, level_note=level_note)

P("P01", "h_grid", 9000, 160000, "Non-trivial: a search that followed at least one other search of the same planner was compared with a fresh planner in a pristine process.",
  technique="deterministic simulation: histories with faults on one planner against a pristine planner on the same simulated map")
P("P02", "h_grid", 11000, 220000, "Non-trivial: a search with a time limit ran against the simulated clock with at least one stall, wall clock jump or expiry.",
  technique="deterministic simulation: simulated clocks with stalls and clock adjustments, deadline checked against every expansion")
P("P03", "h_grid", 30000, 600000, "Non-trivial: an interruption, an error or an accepted candidate hit a running search.",
  technique="deterministic simulation: interruptions and errors injected at seeded steps, every later access monitored")
P("P04", "h_grid", 24000, 450000, "Non-trivial: a non-empty path was returned and checked cell by cell.",
  technique="deterministic simulation: map edits interleaved with the search, path checked against the recorded map history")
P("P05", "h_grid", 27000, 500000, "Non-trivial: a search with a reachable goal was compared with the reference search.",
  technique="deterministic simulation: searches under seeded tie orders and histories against a reference shortest path search")
P("P07", "h_grid", 7500, 130000, "Non-trivial: a memory request failed inside a search or while a map was set.",
  technique="deterministic simulation: failing allocations at seeded points, leak accounting, pristine planner as reference")
P("P09", "h_grid", 9000, 160000, "Non-trivial: a search with a progress callback made at least one expansion.",
  technique="deterministic simulation: callback times checked against the recorded expansions over histories with failures")
P("P10", "h_grid", 22000, 420000, "Non-trivial: a search collected at least one goal candidate.",
  technique="deterministic simulation: oversearch under seeded ties, timeouts and errors against a reference model of the candidate rule")

STEER_REAL = ["SearchAlgorithm / AStarDynamic and hybrid heuristic searches", "DynamicDirectionalStateSpaceManager (node chunks, line checks)",
              "SteeringNeighborhood, DynamicSteeringNeighborhood, SteeringNode", "Heuristics", "SimpleGridMap2d, GridMap2d, Bresenham2d"]
RS_REAL = STEER_REAL + ["ReedsSheppExpansion, CurveGenerator, Curve, CircleSegment, LineSegment, GeometryHelper"]
STEER_ASSUME = GRID_ASSUME + ["searches are cut off after at most about 500 expansions (1500 in the thorough tier)",
                              "the settings of a car change only between searches"]
P("P15", "h_steer", 3600, 90000, "Non-trivial: a memory request failed in a search, a path of more than one node was checked, or a later search was compared with a new planner.",
  real=STEER_REAL, assume=STEER_ASSUME,
  technique="deterministic simulation: histories with faults on car-like planners, motion model check of every path, pristine planner as reference")
P("P16", "h_steer", 2700, 60000, "Non-trivial: a memory request failed in a search, or a path that ends with a curve was checked.",
  real=RS_REAL, assume=STEER_ASSUME, states="(length of the search part, length of the curve) of each path that ends with a curve, and the search states of P15",
  technique="deterministic simulation: histories with faults on planners with analytic expansion, each curve checked against map, start and goal, leak accounting")

MULTI_REAL = sorted(set(GRID_REAL + RS_REAL))
P("P06", "h_multi", 4500, 110000, "Non-trivial: a planner was preempted inside a search, or another planner's search ran inside one of its callbacks.",
  real=MULTI_REAL, assume=STEER_ASSUME + ["planners of one kind use the same car settings and map resolution"], states="hash of (planner, answer) after each search",
  technique="deterministic simulation: seeded preemption and re-entrance of independent planners, each compared with a run of its own")
LEGACY_REAL = ["AStar, OpenList, Node (classic planner)", "SimpleGridMap2d, GridMap2d"]
LEGACY_STUBS = ["map object: SimpleGridMap2d subclass that yields to the simulator and may fail", "malloc/new: link-time wraps with seeded failures and contents"]
LEGACY_ASSUME = ["maps up to about 40x40 cells", "the planner sees a map of another size only through setNewMap()"]
P("P08", "h_legacy", 14000, 300000, "Non-trivial: a memory request failed, a map access failed, or a path was returned after an earlier query.",
  real=LEGACY_REAL, stubs=LEGACY_STUBS, assume=LEGACY_ASSUME, states="hash of (answer, map) after each query",
  technique="deterministic simulation: histories with failing allocations, failing map accesses and poisoned memory against reachability and a new planner")
CURVE_REAL = ["CurveGenerator, Curve, CircleSegment, LineSegment, CurveRenderer, GeometryHelper", "SimpleGridMap2d, GridMap2d, MapMath, Pose2d"]
CURVE_STUBS = LEGACY_STUBS + ["rand, srand, time: seeded"]
CURVE_ASSUME = ["maps up to about 90x90 cells", "points of a curve may be up to three cells from the cells its arcs are rasterised to",
                "sequences of three or four segments that begin and end with an arc; others never give a curve or are programming errors"]
P("P11", "h_curve", 26000, 500000, "Non-trivial: the best of several poses was compared, a memory request failed, or a call followed an aborted one.",
  real=["SamplingPlanner, RingGoalRegion, CentroidRadiusGoalRegion"] + CURVE_REAL, stubs=CURVE_STUBS + ["goal region: a recorder around the real region"],
  assume=CURVE_ASSUME, states="hash of (answer, map) after each call",
  technique="deterministic simulation: histories with failing map accesses and allocations and seeded random numbers against a search over all poses")
P("P12", "h_curve", 16000, 330000, "Non-trivial: a memory request failed, or a search was compared with a new generator after an earlier one.",
  real=CURVE_REAL, stubs=LEGACY_STUBS, assume=CURVE_ASSUME, states="hash of (answer, map) after each search",
  technique="deterministic simulation: histories with faults and poisoned memory on one generator against a new generator, each pattern alone, and the map")

MAP_ASSUME = ["maps up to 40x40 cells, footprints up to about 22 cells", "map values do not change while a query runs",
              "which cells the border of a footprint or circle touches is a matter of rasterisation: cells within one and a half cells of it are not judged"]
P("P13", "h_map", 5500, 90000, "Non-trivial: a query was suspended in favour of another reader, or a memory request failed while a map was made or assigned.",
  real=["CollisionGridMap2d, RobotArea", "RotatedGridMap2d, SimpleGridMap2d, GridMap2d"],
  stubs=["map access: an overridden getValue that yields to the simulator and may fail", "malloc/new: link-time wraps with seeded failures and contents"],
  assume=MAP_ASSUME, states="hash of (answer, kind of query, map, cell, heading) of each query",
  technique="deterministic simulation: readers preempted at seeded cell reads, with failing reads, against the same queries alone in a pristine process and a geometric model")
P("P14", "h_map", 21000, 400000, "Non-trivial: a map access failed in the middle of a write, a restore followed such a failure, a memory request failed, or a task was preempted in an operation.",
  real=["CircleArea, CircleBuffer, LineArea", "SimpleGridMap2d, GridMap2d"], stubs=LEGACY_STUBS, assume=["maps up to 30x30 cells", "an area is used on maps with the resolution and origin of the one it was made for"],
  states="hash of (kind of area, number of cells, numbers of cells read and written, answer) of each operation",
  technique="deterministic simulation: histories of area operations with failing map accesses and allocations against a model of map and buffers")
P("P17", "h_maze", 28000, 450000, "Non-trivial: a maze was checked that came from a biased random sequence, after an earlier or an aborted run, or while another generator ran.",
  real=["MapGenerators.hpp Maze", "OpenCV (drawing)"], stubs=["rand: seeded, with bias and constant stretches", "malloc/new: link-time wraps with seeded failures and contents"],
  assume=["maps up to 80x80 cells", "the user gives each run a map of walls", "random sequences in which no number stays away for ever"],
  states="hash of each finished maze",
  technique="deterministic simulation: biased and stuck random sources, failing allocations and interleaved generators over histories of runs; each maze judged by flood fill")
P("P18", "h_cells", 40000, 900000, "Non-trivial: a walk went on after a failing map access, a line was given up half way and set anew, or a task was preempted.",
  real=["Bresenham2d", "SimpleGridMap2d, GridMap2d"], stubs=LEGACY_STUBS, assume=["maps up to 300 cells long, lines up to 140000 cells without a map", "points exactly on the edge between two cells are not asked for"],
  states="hash of (line, cell reached, number of failed accesses) of each walk",
  technique="deterministic simulation: walks over several lines interleaved, broken off by failing map accesses, copied and restarted at seeded steps, against the ideal line and the map")
P("P19", "h_cells", 26000, 500000, "Non-trivial: a change, copy or assignment ran out of memory, or a task was preempted.",
  real=["SimpleGridMap2d, RotatedGridMap2d, CollisionGridMap2d, GridMap2d"], stubs=["malloc/new: link-time wraps with seeded failures and contents"],
  assume=["maps up to 300 cells long and 3000 cells in all", "points exactly on the edge between two cells are asked for only where they are exact in floating point", "the origin of a rotated map is set after its rotation (until then only the way from cell to position and back is judged)"],
  states="hash of (kind of map, outcome, cells, settings) after each operation",
  technique="deterministic simulation: histories of changes, copies and assignments with failing allocations and preemption against a model of every map")
