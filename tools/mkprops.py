#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
G = "include/cslibs_path_planning/generic/"
C = "include/cslibs_path_planning/common/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
NOTEST = "The repository has one unit test, of a rounding helper; no test runs this code at all. "

prop("P01", "A planner recovers fully from any earlier search, however it ended",
 "Whatever searches a grid planner ran before (successful, without a path, interrupted, timed out, or aborted by an error from the map, from a goal test or from a callback, at any point), once it is given a map again its next search returns exactly what a newly built planner with the same settings returns on that map: the same path and the same number of expansions, or the same error. This holds when the map was replaced, resized, moved or edited in between, for every way of asking for a path (goal pose, goal test, start configuration, with or without a progress callback, with or without oversearch). Nothing of an abandoned search stays behind.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of searches on one planner object, every kind of failure at every point of each of them, every map change between two searches, every order of equally good nodes",
 NOTEST + "A bug needs the right earlier search, cut off at the right point, followed by the right second search.",
 [G+"SearchAlgorithm.hpp", G+"MapManager.hpp", G+"NodeManager.hpp", G+"Common.hpp", G+"DirectNeighborhood.hpp", G+"Heuristics.hpp"],
 [("per-search reset of open list, start, goal, candidates and result", G+"SearchAlgorithm.hpp init()"),
  ("node map re-initialisation when a map is set", G+"MapManager.hpp GridMapManager::initMap")],
 [("open list, start and goal sets, goal candidates, result, heuristic goal", "state of one search that must not outlive it", G+"SearchAlgorithm.hpp"),
  ("node marks, distances, predecessors", "per-cell search state", G+"Common.hpp Node")],
 ["return value of findPath / findPathWithStartConfiguration", "getExpansions", "exceptions"])

prop("P02", "The search time limit counts elapsed time, promptly and never early",
 "With a time limit set, a search stops within one further node expansion once that much time has really elapsed since it began, and is never cut off before that (to the millisecond); only elapsed time counts, so setting the system's clock forward or back during the search changes nothing. Without a positive limit a search is never cut off. A search that was cut off returns either no path or, if goal candidates had been collected, a valid path to one of them, and the next search starts with a fresh allowance.",
 ["schedules", "fault_sequences", "inputs"],
 "every limit, every distribution of delays over the steps of a search (stalls in map reads, goal tests, callbacks, preemption), every sequence of clock adjustments",
 NOTEST + "A test on the real clock can neither place a stall inside a search nor change the system's clock, and would be flaky.",
 [G+"SearchAlgorithm.hpp"],
 [("deadline computed at the start and compared before each expansion", G+"SearchAlgorithm.hpp findPathImp()")],
 [("deadline", "point in time at which the running search must stop", G+"SearchAlgorithm.hpp stamp_abort_")],
 ["return value of findPath", "number of expansions after the deadline", "clock reads"])

prop("P03", "Interruptions and environment errors end a search at once and unchanged",
 "A search notices a pending interruption request before it expands another node, also when the request arrives in the middle of an expansion or from inside a callback, and ends by throwing the interruption. An error thrown by the map, by the goal test, by the progress callback or by the candidate callback ends the search immediately and reaches the caller as the very same error; after it no further callback is made and the map is not touched again. A candidate callback that accepts a path ends the search immediately with that path.",
 ["schedules", "fault_sequences", "inputs"],
 "every point of a search at which an interruption request or an error can arrive, every kind of query, every map",
 NOTEST + "Tests cannot place an interruption between two given steps of a search.",
 [G+"SearchAlgorithm.hpp", G+"Intermission.hpp", G+"DirectNeighborhood.hpp"],
 [("interruption point at the head of the search loop", G+"SearchAlgorithm.hpp findPathImp()"),
  ("no handlers around map, goal test and callbacks in the search loop", G+"SearchAlgorithm.hpp")],
 [], ["exceptions leaving findPath", "callbacks and map reads after the fault"])

prop("P04", "A returned grid path is connected and was free when the planner looked",
 "Every path a grid planner returns begins at the cell of the start pose, ends in the goal (within the neighbourhood's reach of the goal cell, or at a node the goal test accepted), goes from each cell to one of its direct neighbours without repeating a cell, and stays inside the map. Every cell of it except the first was free at some moment during that very search, even if the map changes while the search runs or changed since earlier searches; a cell that was blocked throughout is never on the path, and neither is a path returned when the start cell is occupied. On an unchanging map the reported distance of every path node equals the length of the path up to it.",
 ["schedules", "inputs", "histories"],
 "every interleaving of map edits with the steps of a search, every map, every history of searches on the same planner, every order of equally good nodes",
 NOTEST + "The map is read one cell at a time during the search; which edits fall between which reads cannot be sampled by a sequential test.",
 [G+"SearchAlgorithm.hpp", G+"DirectNeighborhood.hpp", G+"MapManager.hpp", C+"GridMap2d.h", C+"SimpleGridMap2d.h"],
 [("free check of each neighbour", G+"DirectNeighborhood.hpp iterateFreeNeighbors"), ("backtracking along predecessors", G+"SearchAlgorithm.hpp backtrack()")],
 [("predecessor links", "the search tree", G+"Common.hpp Node::prev")], ["return value of findPath", "getPathCandidates"])

prop("P05", "Grid planners find a path whenever there is one, and a shortest one",
 "If the goal can be reached from the start over free cells, a grid planner that is not interrupted or cut off returns a path, and that path is a shortest one under its neighbourhood's step costs (ending at the goal region cell with the least estimated total cost, or the least cost if no heuristic is used); otherwise it returns an empty path. This does not depend on the order in which equally good nodes are taken from the open list, on earlier searches with the same planner, or on where the map's origin and resolution lie. A start or goal outside of the map is reported as such and never produces a path.",
 ["schedules", "inputs", "histories"],
 "every map, start, goal and neighbourhood, every order of equally good nodes, every heuristic that never overestimates, every history of searches",
 NOTEST + "Which of the equally good nodes is expanded first is up to the open list; wrong re-opening or goal handling shows only for some orders on some maps.",
 [G+"SearchAlgorithm.hpp", G+"Algorithms.hpp", G+"Heuristics.hpp", G+"DirectNeighborhood.hpp", G+"NodeManager.hpp", G+"Common.hpp"],
 [("best-first expansion with re-opening", G+"SearchAlgorithm.hpp processNeighbor()"), ("admissible distance estimates", G+"Heuristics.hpp")],
 [("node distance and estimate", "known cost to a node, estimated rest", G+"Common.hpp, "+G+"Heuristics.hpp")], ["return value of findPath", "distance of the last path node"])

prop("P06", "Independent planners do not influence each other, however they interleave",
 "Two or more planners that share no object (each with a map of its own, grid or car-like, or curve generators with parameters of their own; car-like planners of one kind share the car's settings) and that run at the same time in different threads, or inside each other's callbacks, each return exactly what they return when they run alone: the same path, the same number of expansions, the same errors. This holds at every interleaving of their steps and when one of them fails, is interrupted or runs out of memory; afterwards each releases all its memory.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of the steps (map reads, open list operations, callbacks, allocations) of two or three independent planners, faults in any one of them",
 NOTEST + "Interference through shared static state needs one particular interleaving and different maps in the two threads.",
 [G+"SearchAlgorithm.hpp", G+"SteeringNeighborhood.hpp", G+"DynamicSteeringNeighborhood.h", G+"ReedsSheppExpansion.hpp", G+"Heuristics.hpp", "src/ReedsShepp/CurveGenerator.cpp", "src/a_star/AStar.cpp"],
 [("all search state lives in the planner object", G+"SearchAlgorithm.hpp")],
 [("static members of neighbourhoods, expansions and heuristics", "the only state shared between planners", G+"SteeringNeighborhood.hpp, "+G+"ReedsSheppExpansion.hpp, "+G+"Heuristics.hpp")],
 ["results of each planner, alone and interleaved"])

prop("P07", "Running out of memory is reported, leaks nothing and leaves a usable planner",
 "If any single memory request fails while a map is given to a grid planner or while it searches, the caller gets an out-of-memory error and nothing else: no crash, no access to released memory, no wrong path. Afterwards the same planner, given the map again, returns what a new planner returns, and once the planner is destroyed all memory it ever requested has been released.",
 ["fault_sequences", "histories", "inputs"],
 "every single failing memory request of a history of map changes and searches (all of them in turn for the sampled histories), including several failures in a row",
 NOTEST + "Memory requests do not fail in tests.",
 [G+"MapManager.hpp", G+"SearchAlgorithm.hpp", G+"NodeManager.hpp", C+"SimpleGridMap2d.h"],
 [("node map released and allocated anew when the map's size changes", G+"MapManager.hpp GridMapManager::initMap"), ("standard containers for all search state", G+"SearchAlgorithm.hpp")],
 [("node array", "per-cell nodes, owned by the map manager", G+"MapManager.hpp GridMapManager::data")], ["exceptions", "outstanding memory after destruction", "results of later searches"])

prop("P08", "The classic A* planner is reusable, complete and survives failing memory",
 "The classic A* planner returns a path exactly if the goal cell can be reached from the start cell over free cells of the map set last; the path runs in cell coordinates from the start cell to the goal cell over adjacent free cells, none of them twice, and is longer than a shortest one by at most one cell's width per step. Each query's answer depends only on that query and the current map: not on earlier queries (whatever their outcome), not on maps of other sizes set before (also if the same map object changed its size and was set again), not on the initial content of memory. A failing memory request surfaces as an out-of-memory error, after which the planner still works and everything is released with it.",
 ["histories", "fault_sequences", "inputs"],
 "every history of map changes (same object edited or resized in place, other objects) and queries, every failing memory request, every initial memory content",
 NOTEST + "Stale node lists and uninitialised cells show only after particular histories and with particular memory contents.",
 ["include/cslibs_path_planning/a_star/AStar.h", "src/a_star/AStar.cpp", "src/a_star/OpenList.cpp", "src/a_star/Node.cpp", "include/cslibs_path_planning/a_star/OpenList.h"],
 [("node list re-initialised for each query", "src/a_star/AStar.cpp planPath()"), ("binary heap with node positions", "src/a_star/OpenList.cpp")],
 [("node list, open list", "state of one query that must not outlive it", "src/a_star/AStar.cpp mNodesList, mOpenList")], ["planPath, getLastPath"])

prop("P09", "The progress callback comes regularly and never more often than asked",
 "A search started with a progress callback makes it exactly once after every N-th node expansion (N being the planner's configured interval; after a start-up phase with one call per expansion if one is configured), counted over the searches of that planner type, and never between other steps; an interval of zero means no call at all. The search goes on with the same result as without a callback. After a search that ended early for whatever reason the next callback is never more than N expansions away.",
 ["schedules", "histories", "fault_sequences"],
 "every history of searches of one planner type, ended in every possible way at every point, every interval and start-up phase",
 NOTEST + "The counter survives searches, so its phase depends on the whole history including aborted searches.",
 [G+"Intermission.hpp", G+"SearchAlgorithm.hpp", G+"Algorithms.hpp"],
 [("static step counter", G+"Intermission.hpp CallbackIntermission::call"), ("one call per finished expansion", G+"SearchAlgorithm.hpp findPathImp()")],
 [("steps until the next call", "counter shared by all searches of a planner type", G+"Intermission.hpp")], ["callback invocations relative to expansions"])

prop("P10", "Oversearch collects goal candidates and returns the nearest, within its bound",
 "With an oversearch distance set, a search that reaches the goal region keeps going until it takes up a node whose total cost exceeds the first candidate's by more than that distance, then returns the path to the candidate nearest to the goal; every candidate it collected is available afterwards, each a valid path, and an accepting candidate callback ends the search with that candidate. The outcome is the same whether the search ends by exhausting the map, by the bound or by the time limit: if there is a candidate, its path is returned. No candidate of an earlier search is ever returned or listed.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every map, goal, oversearch distance and order of equally good nodes, every way to end a search, every history of searches on the planner",
 NOTEST + "Which candidates exist when a search is cut off depends on the schedule.",
 [G+"SearchAlgorithm.hpp"],
 [("candidate queue ordered by distance to the goal", G+"SearchAlgorithm.hpp addGoalCandidate(), findPathImp()"), ("cutoff relative to the first candidate", G+"SearchAlgorithm.hpp findPathImp()")],
 [("goal candidates, first candidate's cost", "what oversearch collects", G+"SearchAlgorithm.hpp")], ["return value of findPath", "getPathCandidates", "candidate callback"])

prop("P11", "Sampling planner returns the best curve to its goal region",
 "The sampling planner returns the curve of the least weight (times the pose's weight factor) among those from the start to every pose inside the map that its goal region offers, if there is any, and none if there is none or the start is outside of the map; it returns the same after any earlier calls, successful, failed or aborted by an error from the map, and releases every curve it does not return. A ring region offers n poses at evenly spread angles, each within half the ring's width of its radius and heading along the ring (counterclockwise for a positive radius, clockwise for a negative one); a centroid region offers n poses spread evenly over its angle around the direct approach, all facing the centre, with weight factors from 1 (direct) to 2 (widest).",
 ["histories", "fault_sequences", "inputs"],
 "every goal region, start, map and curve settings, every history of earlier calls and traversals, every failing map access or memory request",
 NOTEST + "Leaks and leftovers appear only after aborted calls; the best pose depends on which poses are reachable.",
 ["src/sampling/SamplingPlanner.cpp", "src/sampling/RingGoalRegion.cpp", "src/sampling/CentroidRadiusGoalRegion.cpp", "src/sampling/GoalRegion.cpp"],
 [("minimum over all offered poses", "src/sampling/SamplingPlanner.cpp"), ("iteration state of a goal region", "src/sampling/*GoalRegion.cpp")],
 [("iteration position of a region", "which pose comes next", "src/sampling")], ["returned curve and its weight", "poses offered"])

prop("P12", "A curve found is the best feasible one, whatever the generator did before",
 "A curve generator's answer depends only on its configured curve patterns, its settings, the two poses and the map: not on earlier searches, aborted searches, refused patterns, or the initial content of memory. The curve returned for a set of patterns weighs as much as the best one any single pattern gives alone, follows its pattern's arcs (of the set radius) and straight stretches in their order and directions, weighs what these weigh with the set costs, starts at the requested pose, ends within one waypoint distance of the other, and keeps to free cells all along (up to the rasterisation of its arcs); if no pattern gives a feasible curve there is none. A map error or failing memory request during a search reaches the caller and leaves the generator usable, and a malformed pattern is refused without any effect.",
 ["histories", "fault_sequences", "inputs"],
 "every pair of poses, every pattern set, every map, every history of earlier calls (also aborted ones), every initial memory content, every failing map access",
 NOTEST + "Uninitialised or leftover settings change the answer only for some memory contents and histories.",
 ["src/ReedsShepp/CurveGenerator.cpp", "include/cslibs_path_planning/ReedsShepp/CurveGenerator.h", "src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp"],
 [("minimum over all patterns", "src/ReedsShepp/CurveGenerator.cpp find_path()"), ("feasibility along each segment", "src/ReedsShepp/Curve.cpp, CircleSegment.cpp, LineSegment.cpp")],
 [("settings and pattern list", "the only inputs besides poses and map", "include/cslibs_path_planning/ReedsShepp/CurveGenerator.h")], ["returned curve: weight, poses"])

prop("P13", "A collision map answers concurrent readers as if each were alone",
 "A collision map's answers (free, occupied, unknown, for a footprint at a cell and heading) depend only on the cell values, the cell and the heading: any number of readers that interleave their queries, each query at any step, get what they would get one after the other, also when a query of one of them is aborted by an error. A footprint with an occupied cell inside (its rasterised border aside) is always occupied and never free, one with nothing but free cells inside and around is always free, one on nothing but unknown cells is always unknown, and a cell outside of the map is none of these. That holds for copies and assigned maps too, and a map that cannot be made for lack of memory leaves nothing behind.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of the cell reads of two or more queries on one map, every map, footprint, position and heading, every aborted query",
 NOTEST + "Queries are declared read-only; that they disturb each other shows only when one is suspended within the other.",
 [C+"CollisionGridMap2d.h", "src/common/CollisionGridMap2d.cpp", C+"GridMap2d.h"],
 [("precomputed footprint per heading", "src/common/CollisionGridMap2d.cpp"), ("area iteration", "src/common/CollisionGridMap2d.cpp isAreaFree etc.")],
 [("footprint position", "mutable state of a read-only query", C+"CollisionGridMap2d.h")], ["isFreeRotated, isOccupiedRotated, isNoInformationRotated"])

prop("P14", "Map areas read, stamp and restore exactly their own cells",
 "An area of a map (circle or line) visits every one of its cells exactly once per traversal, reads and writes only these, and gives the same traversal after every restart. Buffering an area, overwriting the map there and writing the buffer back restores the map bit for bit, also if the overwriting was aborted part-way by a failing map access, and changes no cell outside of the area. Asking whether an area is free, occupied or unknown gives what its cells say, and an area that runs out of memory while it is made or changed can be used or made again without harm.",
 ["histories", "fault_sequences", "inputs"],
 "every area and map position, every order of operations on it, every map access that fails",
 NOTEST + "Restoring after a partial write needs a fault in the middle of a stamp.",
 ["src/common/GridMap2d.cpp", C+"GridMap2d.h", C+"SimpleGridMap2d.h", "src/common/SimpleGridMap2d.cpp"],
 [("cell list of an area with a position", "src/common/GridMap2d.cpp CircleArea, LineArea, CircleBuffer"), ("area writes", C+"GridMap2d.h setAreaValue")],
 [("traversal position", "which cell is current", C+"GridMap2d.h")], ["cells visited", "map contents before and after"])

prop("P15", "Car-like planners return feasible paths and clean up, whatever happened before",
 "A path a car-like planner returns begins at the start pose, and ends at the goal within its stated tolerance in position and heading; consecutive nodes are one allowed steering step apart (up to the grid cell and heading slot a node stands for), their costs add up with the penalties set for turning and driving backward, no node is in an occupied cell, and the straight stretches between them cross no obstacle wider than half a metre, also at the map's border, for every history of earlier searches. After any failed, interrupted, timed-out or aborted search, or a failing memory request, the planner given the map again returns what a new planner returns, and once destroyed it has released everything.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every map, pair of poses and steering configuration, every history of searches ended at any point in any way, every failing memory request, every order of equally good nodes",
 NOTEST + "Nodes are allocated lazily and reused; stale ones matter only after particular histories.",
 [G+"SteeringNeighborhood.hpp", G+"DynamicSteeringNeighborhood.h", G+"MapManager.hpp", G+"SteeringNode.hpp", G+"SearchAlgorithm.hpp", "src/generic/DynamicSteeringNeighborhood.cpp"],
 [("lazily allocated node chunks, dropped when a map is set", G+"MapManager.hpp DynamicDirectionalStateSpaceManager"), ("line checks between steering poses", G+"SteeringNeighborhood.hpp, "+G+"MapManager.hpp isFreeOrUnknown")],
 [("chunks", "nodes touched so far", G+"MapManager.hpp"), ("steering parameters", "configuration of the motion", G+"DynamicSteeringNeighborhood.h")], ["return value of findPath", "outstanding memory"])

prop("P16", "Analytic goal expansion gives sound paths in every search of a planner",
 "A planner with analytic goal expansion returns paths whose last part is a drivable curve that starts where the search part ends, ends within one waypoint distance of the goal pose and stays on free cells (up to the rasterisation of its arcs). That holds for the first and every later search, also when the curve starts right at the start pose, when the previous search was aborted by an error, an interruption or missing memory inside the expansion, and when map or resolution changed in between; nothing is left over when the planner is gone.",
 ["histories", "fault_sequences", "inputs"],
 "every history of searches with one planner type, every map, every fault inside or outside of the expansion",
 NOTEST + "The expansion keeps its counter, generator and found curve in static variables across searches.",
 [G+"ReedsSheppExpansion.hpp", G+"SearchAlgorithm.hpp", "src/ReedsShepp/CurveGenerator.cpp"],
 [("expansion counter and stored curve", G+"ReedsSheppExpansion.hpp"), ("joining search part and curve", G+"SearchAlgorithm.hpp hasPoseBeenReached()")],
 [("static curve, generator and countdown", "survive from search to search", G+"ReedsSheppExpansion.hpp")], ["return value of findPath"])

prop("P17", "The maze generator ends and connects every room, for every random sequence",
 "For every size and every fair sequence of random numbers the maze generator ends, and the maze it leaves is perfect: every room can be reached from every other one, over exactly one way, and nothing but rooms and openings between them is cleared. Nothing outside of the map is written, wherever the start lies, and generating again on the same object (the map filled with walls again), or after a run that ran out of memory, gives a maze again.",
 ["schedules", "inputs"],
 "every map size and room width, every sequence of random numbers that is not constant for ever (also heavily biased ones)",
 NOTEST + "The loop ends by luck of the random numbers; tests see one sequence.",
 ["include/cslibs_path_planning/evaluation/MapGenerators.hpp"],
 [("random removal of walls between sets of rooms", "include/cslibs_path_planning/evaluation/MapGenerators.hpp")],
 [("set of each room", "union-find of rooms", "include/cslibs_path_planning/evaluation/MapGenerators.hpp")], ["the generated map", "steps until the end"])

prop("P18", "A line over the grid visits exactly its cells, however its walk breaks up",
 "A line iterator set from one cell to another visits a gapless row of cells from the first to the last, as few as possible and none more than half a cell off the straight line, and then stays at its end; a line with an end outside of the map visits nothing. This holds when the walk is interleaved with others on the same or other maps, broken off by a failing map access and continued, copied half way (both go on from there), or given up and set anew, and does not depend on the initial content of memory. What it tells about the current cell (value, free, occupied, unknown, position) is what the map holds there.",
 ["schedules", "histories", "inputs"],
 "every pair of cells or points, every order in which several lines are walked, every failing map access between two cells",
 NOTEST + "The iterator keeps its position, error term and map between calls.",
 [C+"Bresenham2d.h", "src/common/Bresenham2d.cpp"],
 [("line rasterisation", "src/common/Bresenham2d.cpp")], [("current cell, error term, map", "between set() and next()", C+"Bresenham2d.h")], ["coordinates(), value(), isFree() etc. of the iterator"])

prop("P19", "Maps hold what was put in, stay apart, and survive failed changes",
 "After any sequence of changes (contents, size, single cells, thresholds, unknown value, resolution, origin, rotation) a plain, rotated or collision map holds exactly the cells and settings set last and sorts every cell into free, occupied and unknown by them; copies and assigned maps equal their original at that moment and share nothing with it, also across threads. The position of every point of a cell is where resolution, origin and rotation put it, converting it back gives the same cell, and a point or cell counts as on the map exactly if it lies within its width and height. A change, copy or assignment that runs out of memory says so, loses no memory, and leaves every map exactly as it was.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of changes to several maps, every failing memory request in them, every origin, rotation and resolution",
 NOTEST + "Size and cells of a map are kept in separate members that a failure can separate.",
 [C+"SimpleGridMap2d.h", C+"RotatedGridMap2d.h", C+"CollisionGridMap2d.h", "src/common/SimpleGridMap2d.cpp", "src/common/RotatedGridMap2d.cpp", "src/common/CollisionGridMap2d.cpp"],
 [("replacing the contents", C+"SimpleGridMap2d.h set(), "+C+"RotatedGridMap2d.h set()"), ("coordinate transformation", C+"SimpleGridMap2d.h, "+C+"RotatedGridMap2d.h")],
 [("cells, size, settings", "per map", C+"SimpleGridMap2d.h")], ["getValue(), isFree() etc., point2cell(), cell2point(), isInMap()"])

# ---- stated, but not decidable with this technique
prop("N01", "Tangents, intersections and shapes are geometrically correct",
 "Intersections, tangents and distances of lines, circles and arcs are correct for every position, also for degenerate and touching ones.",
 ["inputs"], "all positions and sizes", NOTEST, ["src/geometry/tangentor.cpp", "src/geometry/intersector.cpp", "src/geometry/circle.cpp", "src/geometry/line.cpp"],
 [("closed-form geometry", "src/geometry")])
prop("N05", "Incremental replanning keeps its answer equal to planning anew",
 "After map changes the incremental planner's path costs as much as one planned from nothing.",
 ["histories"], "all sequences of map changes", NOTEST, [G+"SearchAlgorithm.hpp", G+"DistanceTransformation.hpp"], [("incremental search", G+"SearchAlgorithm.hpp GenericDynSearchAlgorithm")])
prop("N06", "State space planners with a fixed motion table find feasible paths",
 "The planner over position and heading with a fixed motion table returns feasible paths.",
 ["inputs"], "all maps and poses", NOTEST, [G+"NonHolonomicNeighborhood.hpp", G+"MapManager.hpp"], [("motion table", G+"NonHolonomicNeighborhood.hpp")])
prop("N07", "The precomputed cost table never overestimates",
 "The precomputed table of obstacle-free costs never exceeds the cost of the best curve for that displacement.",
 ["inputs", "configurations"], "all table entries", NOTEST, [G+"Heuristics.hpp", "src/ReedsShepp/CostPrecomputation.cpp"], [("table lookup", G+"Heuristics.hpp")])

NOT_APPLICABLE = {
 "N01": "pure functions of their arguments: no schedule, clock, fault or history can change their result, so simulation has nothing to decide",
 "N05": "the incremental searches (DStar and relatives) do not compile in this tree: there is no code to run",
 "N06": "NonHolonomicNeighborhood and the state space manager it needs do not compile in this tree: there is no code to run",
 "N07": "the table is an external data file that is not in the tree, and its content is a pure function of the displacement",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write():
  with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
  print(len(P))
import re
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, p["id"]
if __name__ == "__main__":
  write()
