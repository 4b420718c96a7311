"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EX = "The tests only run the example scripts to completion on fixed data and assert almost nothing about values; "

p("S01", "Spline arithmetic equals pointwise arithmetic of the curves",
  "Adding, subtracting, negating, multiplying, raising to a positive integer power and scaling B-splines yields a spline whose value at every point of the domain is that same combination of the operands' values. The basis functions underneath are non-negative, sum to one over the domain, vanish outside their local support and agree with the textbook B-spline definition. Bases built from the same knots and degree compare equal, and caching never returns the basis or evaluation of different arguments.",
  ["inputs", "histories"], "every knot vector (uniform, non-uniform, repeated interior knots; products, powers and the other algebra on clamped ones, evaluation and sums also on vectors whose end knots do not all coincide), degree, coefficient vector, scalar, evaluation point, and order in which bases are created and evaluated",
  EX + "they use one cubic equidistant basis per problem.",
  ["omgtools/basics/spline.py"],
  [("Cox-de Boor evaluation with memoisation", "omgtools/basics/spline.py:BSplineBasis.eval_basis"),
   ("basis combination for sums and products", "omgtools/basics/spline.py:Basis._combine"),
   ("change of basis", "omgtools/basics/spline.py:BSplineBasis.transform"),
   ("instance cache", "omgtools/basics/spline.py:cached_class")],
  ["BSpline(...)(x)"])

p("S02", "Spline derivatives and integrals agree with calculus",
  "The derivative of any admissible order of a spline evaluates to the true derivative of its curve, and the integral over its support, the running integral and the definite integral between any two points of the domain equal the true integrals of its curve. Evaluating or integrating with symbolic coefficients or a symbolic evaluation point gives the same numbers as the numeric computation, also at knots and at both ends of the domain.",
  ["inputs"], "every clamped basis, coefficient vector (numeric or symbolic), derivative order, and interval or point in the domain",
  EX + "derivatives and integrals are only used inside cost and constraints whose values are never checked.",
  ["omgtools/basics/spline.py", "omgtools/basics/spline_extra.py"],
  [("derivative matrix", "omgtools/basics/spline.py:BSplineBasis.derivative"),
   ("support integral", "omgtools/basics/spline.py:BSpline.integral"),
   ("running and definite integral", "omgtools/basics/spline_extra.py:running_integral, definite_integral"),
   ("symbolic evaluation", "omgtools/basics/spline_extra.py:evalspline")],
  ["spline values and CasADi function values"])

p("S03", "Re-expressing a motion in another basis never changes the motion",
  "Inserting knots, cropping to a sub-interval, moving the first knots forward or backward in time, shifting the horizon over one knot interval, extrapolating the last piece and rescaling time each return a spline that coincides with the original curve wherever both are defined, and continues the last polynomial piece where the new domain extends beyond the old one. Moving the first knots forward and back again restores the original coefficients, and numeric and symbolic forms of these operations agree.",
  ["inputs", "histories"], "every clamped basis with at least two knot intervals, interior knot multiplicity, coefficient vector, shift amount, interval, and sequence of such operations",
  EX + "the warm start hides a wrong shift: the solver merely needs more iterations, so every example still finishes.",
  ["omgtools/basics/spline_extra.py", "omgtools/basics/spline.py"],
  [("horizon shift", "omgtools/basics/spline_extra.py:shiftoverknot_T"),
   ("extrapolation", "omgtools/basics/spline_extra.py:extrapolate_T"),
   ("first-knot shift and inverse", "omgtools/basics/spline_extra.py:shiftfirstknot_T"),
   ("knot insertion and cropping", "omgtools/basics/spline_extra.py:knot_insertion_T, get_interval_T, crop_spline")],
  ["spline values before and after"])

p("S04", "Concatenated splines reproduce every segment on its own time slot",
  "Concatenating any number of spline segments with given durations yields, per component, one spline whose domain is the total duration and which coincides with each segment, stretched to its duration, on that segment's own time slot. This holds whether consecutive segments join discontinuously, continuously or smoothly, and whatever the durations, signs and number of components.",
  ["inputs"], "every number of segments and components, durations, coefficient signs, and degree of continuity at each junction",
  EX + "only the multi-room and machining examples concatenate, always with segments from one well-behaved solve.",
  ["omgtools/basics/spline_extra.py"],
  [("continuity detection and coefficient re-computation", "omgtools/basics/spline_extra.py:concat_splines"),
   ("sampling", "omgtools/basics/spline_extra.py:sample_splines")],
  ["values of the concatenated spline"])

p("M01", "A composed optimisation model means what its parts declared",
  "For any set of components declaring variables, spline variables, parameters, symbols, constraints and objective terms, the assembled program evaluates to exactly the declared objective and constraints with each component's own values, also across shared symbols and substitutions. Values written for a variable or parameter are the values read back and used, no component's data reach another's slot, removing or bounding a constraint affects exactly that constraint, and a missing definition is reported instead of being solved around.",
  ["programs", "histories", "configurations"], "every tree of components, shape and kind of declaration, and sequence of set, get, update and reset operations",
  EX + "examples exercise one fixed composition each and never compare the assembled program with its declaration.",
  ["omgtools/basics/optilayer.py"],
  [("composition and translation", "omgtools/basics/optilayer.py:OptiFather.compose_dictionary, translate_symbols, construct_problem"),
   ("parameter/variable vectors", "omgtools/basics/optilayer.py:OptiFather.set_parameters, get_variables, set_variables"),
   ("spline constraint to coefficient constraint", "omgtools/basics/optilayer.py:OptiChild.define_constraint")],
  ["evaluation of the assembled problem's functions; values read back"])

p("G01", "Shapes and geometric queries describe the true figure",
  "Every shape's vertices, checkpoints with radii, bounding limits and half-planes describe the figure its dimensions and orientation define: checkpoints inflated by their radii cover it and stay within it up to the documented margin, limits are its exact extent, and half-planes contain exactly its points. Distance, intersection, containment and overlap queries agree with the exact geometric answer away from ties and never modify the figures they are asked about.",
  ["inputs"], "every shape type, dimensions, orientation, position and query point, segment or circle",
  EX + "examples use a handful of axis-aligned rectangles and circles.",
  ["omgtools/basics/geometry.py", "omgtools/basics/shape.py"],
  [("shapes", "omgtools/basics/shape.py"), ("predicates", "omgtools/basics/geometry.py")],
  ["return values of shapes and geometric helpers"])

p("O01", "Obstacles move, bounce and are predicted by their stated motion law",
  "A simulated obstacle follows its initial position, velocity and acceleration and any programmed changes of position, velocity or acceleration exactly (its orientation turns at the given constant rate), however the simulated time is divided into chunks and whatever the sampling. A bouncing obstacle reflects off a room border or off the face of the obstacle it hits, and overlap between obstacles is reported exactly when their figures overlap. Parameters handed to the planner describe its true current state, and the motion the planner predicts from them is the constant-acceleration extrapolation of that state, turning on an exact circle at the constant rate up to the rational quarter-turn arcs it is built from. Environments keep obstacles' recorded signals equally long and time-aligned.",
  ["inputs", "histories"], "every initial state, programmed trajectory, division of simulated time and sample time, 2D and 3D, translating and rotating",
  EX + "obstacle signals are only plotted, never compared with a motion law.",
  ["omgtools/environment/obstacle.py", "omgtools/environment/environment.py"],
  [("simulation of piecewise trajectories", "omgtools/environment/obstacle.py:ObstaclexD.simulate"),
   ("prediction splines", "omgtools/environment/obstacle.py:define_parameters, get position/checkpoint splines"),
   ("room and bounce", "omgtools/environment/environment.py")],
  ["recorded obstacle signals; predicted position splines"])

p("V01", "Signals computed for a vehicle satisfy that vehicle's motion equations",
  "For every vehicle type, the position, orientation, state and input signals computed from a planned trajectory are mutually consistent with that vehicle's differential equations and with the reported speeds and derivatives. Applying the computed inputs through the vehicle's own simulation reproduces the computed states, and requested initial and terminal poses are exactly the boundary conditions put on the trajectory.",
  ["inputs"], "every vehicle type and option set, admissible trajectory spline, sample time and boundary pose",
  EX + "a wrong formula for one state or input still lets each example converge and plot.",
  ["omgtools/vehicles/"],
  [("flat output to signals", "omgtools/vehicles/*.py:splines2signals"),
   ("dynamics", "omgtools/vehicles/*.py:ode, state2pose"),
   ("boundary conditions", "omgtools/vehicles/*.py:get_initial_constraints, get_terminal_constraints, set_parameters")],
  ["signals of planned trajectories; integrated states; boundary constraint values"])

p("V02", "Limits enforced on trajectory coefficients hold at every instant",
  "Whenever a trajectory's coefficients satisfy the constraints a vehicle, room or obstacle adds to the planning problem, the corresponding physical limit - speed, acceleration, input, angle, staying inside the room, keeping clear of a still or predicted moving obstacle (up to the part of the safety distance the plan gives up), keeping clear of the other vehicles when avoidance between vehicles is on - holds at every instant of the motion and not only at sampled ones. Conversely, a motion at rest well inside every limit is accepted. (Exceptions by design: the simplified 3D quadrotor bounds its roll rate as if it did not accelerate along x, and a vehicle pulling a trailer plans the clearance of the trailer only.)",
  ["inputs", "configurations"], "every vehicle type, limit and limit type, room, obstacle shape and motion, motion time and trajectory coefficients",
  EX + "a missing or weakened limit changes no example's outcome as long as a solution is found.",
  ["omgtools/vehicles/", "omgtools/environment/environment.py", "omgtools/environment/obstacle.py", "omgtools/basics/optilayer.py"],
  [("vehicle limits", "omgtools/vehicles/*.py:define_trajectory_constraints"),
   ("separating hyperplanes and room limits", "omgtools/environment/environment.py, omgtools/vehicles/vehicle.py:define_collision_constraints_2d/3d"),
   ("coefficient-wise relaxation", "omgtools/basics/optilayer.py:define_constraint")],
  ["constraint values versus densely sampled physical quantities"])

p("P01", "A solved motion plan starts, ends, obeys limits and avoids collision",
  "Whenever the planner reports success for a point-to-point problem, the planned motion starts in the requested initial condition, for a free-end-time plan ends in the requested terminal condition, respects every vehicle limit and stays inside the room and clear of every obstacle's true predicted motion at every instant. The reported motion time, objective and sampled signals are those of that motion.",
  ["inputs", "configurations"], "every vehicle type, start and goal, room, static or moving obstacle layout, horizon and problem option for which a plan is found",
  EX + "no example verifies the trajectory it obtained.",
  ["omgtools/problems/point2point.py", "omgtools/problems/problem.py", "omgtools/vehicles/vehicle.py", "omgtools/environment/environment.py"],
  [("fixed- and free-end-time problems", "omgtools/problems/point2point.py"),
   ("solve and store", "omgtools/problems/problem.py:Problem.solve, Vehicle.store")],
  ["planned trajectory signals"])

p("P02", "Receding-horizon execution applies plans seamlessly",
  "Over any sequence of updates, motions and pauses the executed record of states, inputs and time is continuous and time-ordered: each executed stretch is the plan current at that moment, each new plan starts from the predicted state at the moment it takes effect, and the recorded signals of vehicles, obstacles and simulator agree in length and time. Update periods (multiples of the sample time), delays and prediction never skip, repeat or shift part of a plan, also when the update period is not a multiple of the knot period, when an update comes late, or when several knots are passed at once; the solver's starting guess is the previous plan moved in time (exactly so with a fixed horizon or for a plan that the new knots can represent).",
  ["histories", "schedules", "configurations"], "every update time, sample time, horizon, knot count, delay and number of updates, with and without model disturbances",
  EX + "examples use one update period and never inspect the joins.",
  ["omgtools/problems/point2point.py", "omgtools/execution/simulator.py", "omgtools/execution/deployer.py", "omgtools/vehicles/vehicle.py"],
  [("horizon bookkeeping", "omgtools/problems/point2point.py:FixedTPoint2point.init_step, FreeTPoint2point.init_step, store, simulate"),
   ("simulation and deployment", "omgtools/execution/simulator.py, omgtools/execution/deployer.py"),
   ("prediction and signal bookkeeping", "omgtools/vehicles/vehicle.py:predict, simulate")],
  ["recorded signals and trajectories"],
  state=[("signals, trajectories", "executed and planned signals per vehicle", "omgtools/vehicles/vehicle.py")])

p("A01", "The grid planner returns a legal path exactly when one exists",
  "The grid path planner finds a way-point path precisely when the start and goal cells are connected by legal moves, and the path then starts and ends in the cells of the requested positions (the closest free neighbour when such a cell is occupied), steps only between adjacent cells, never enters an occupied cell, never cuts an occupied corner, is a cheapest path on a free map and never costs more than its Manhattan heuristic guarantees otherwise. Conversions between positions and cells are mutually inverse, a cell is marked occupied whenever a stationary obstacle, with the required clearance, covers its centre, and no legal move between free cells passes through a stationary obstacle.",
  ["inputs"], "every grid size, offset, cell shape, obstacle layout and start/goal pair",
  EX + "two fixed warehouse layouts are planned.",
  ["omgtools/problems/globalplanner.py"],
  [("search", "omgtools/problems/globalplanner.py:AStarPlanner.get_path"),
   ("rasterisation and moves", "omgtools/problems/globalplanner.py:Grid")],
  ["returned way points; occupied cells"])

p("F01", "Corridors cut from the map are free, inside the room and connected",
  "Every corridor constructed along a global path the vehicle can follow lies inside the room, contains no part of a stationary obstacle (circles counted as their bounding square), cannot be widened on any side, contains its start and its way points and leaves the vehicle room at its end point; consecutive corridors overlap so that the vehicle fits through the transition, and switching from corridor to corridor leads to the goal. Frames of fixed size list exactly the obstacles in them and lead to the goal too. The moving obstacles a planning problem knows for a frame are those that cover part of it at one of the inspected instants of the motion time, at every update.",
  ["inputs"], "every room, stationary and moving obstacle layout, path and vehicle size",
  EX + "corridors are only drawn.",
  ["omgtools/environment/frame.py", "omgtools/problems/schedulerproblem.py"],
  [("corridor growth", "omgtools/environment/frame.py:CorridorFrame"),
   ("frame scheduling", "omgtools/problems/schedulerproblem.py")],
  ["corridor borders, way points, obstacle lists"])

p("F02", "Multi-room motions join smoothly and stay in their room",
  "When a motion over several successive rooms is planned, each part stays inside its own room, consecutive parts agree in position and derivatives at the transition, the first starts and the last ends in the requested condition, and the stored signals cover the total motion time in order (holonomic vehicles; several rooms at once). The scheduler advances from room to room without leaving the current room, and when the motion ends the vehicle is within one sample of the goal.",
  ["inputs", "histories", "configurations"], "every chain of overlapping rooms, start, goal and horizon",
  EX + "two fixed layouts, no assertion on transitions.",
  ["omgtools/problems/multiframeproblem.py", "omgtools/problems/schedulerproblem.py", "omgtools/vehicles/vehicle.py"],
  [("multi-segment transcription", "omgtools/problems/multiframeproblem.py"),
   ("storing concatenated segments", "omgtools/vehicles/vehicle.py:store")],
  ["planned segment splines; simulated signals"])

p("D01", "Fleets and formations keep the geometry the user configured",
  "Neighbour relations in a fleet are symmetric for every supported interconnection, the relative configuration between two neighbours is the difference of their configured positions expressed in the fleet's reference orientation, and is opposite seen from the other side. When a formation problem reports a solution, every vehicle pair keeps its configured relative position at every instant, and rendez-vous agents meet at one common end state.",
  ["inputs", "configurations"], "every number of vehicles, interconnection, configuration, orientation and obstacle layout",
  EX + "formation examples never measure the formation error.",
  ["omgtools/vehicles/fleet.py", "omgtools/problems/formation.py", "omgtools/problems/formation_central.py", "omgtools/problems/rendezvous.py", "omgtools/problems/formation_dualdec.py"],
  [("fleet configuration", "omgtools/vehicles/fleet.py"), ("coupling constraints", "omgtools/problems/formation*.py, rendezvous.py")],
  ["fleet tables; planned trajectories"])

p("D02", "Distributed coordination updates are the exact algorithm steps",
  "In every iteration of distributed planning, the coordination update returns the unique minimiser of its augmented Lagrangian subject to the coupling constraints, multipliers move by the penalty times the remaining disagreement, neighbours exchange exactly the values just computed, and reported residuals equal their definitions. Shifting the horizon transforms local, coordination and multiplier trajectories alike, so consensus reached before stays consensus after.",
  ["inputs", "histories", "configurations"], "every number of agents, interconnection, iterate, penalty and horizon shift",
  EX + "a wrong update still lets the examples terminate after their fixed iteration count.",
  ["omgtools/problems/admm.py", "omgtools/problems/dualdecomposition.py", "omgtools/problems/dualmethod.py", "omgtools/problems/distributedproblem.py"],
  [("ADMM updates", "omgtools/problems/admm.py:ADMMUpdater"), ("dual decomposition updates", "omgtools/problems/dualdecomposition.py"),
   ("spline transformation of iterates", "omgtools/problems/dualmethod.py:DualUpdater._transform_spline")],
  ["iterates and exchanged values per iteration"])

p("C01", "Machining programs are read as the tool path they describe",
  "Reading a machining program yields, in order, one block per motion command that moves the tool, where each block starts where the previous one ended, keeps omitted coordinates, and straight and circular blocks trace exactly the commanded line or arc (up to a full circle) in the commanded direction, with its centre and radius. A leading rapid move tells where the tool starts. Comments, blank lines, line numbers, whitespace around and between words and non-motion words never change the path; called subfiles are read in the order of the calls; shifting and scaling a program gives the shifted and scaled path. (Words are in upper case and separated by whitespace; arcs lie in the XY plane.)",
  ["inputs", "programs"], "every sequence of linear and circular motion commands, subset of given coordinates, formatting and start position",
  EX + "reading needs a file dialog or one fixed file, so no stable test reads generated programs.",
  ["omgtools/gui/gcode_reader.py", "omgtools/gui/gcode_block.py"],
  [("reader", "omgtools/gui/gcode_reader.py:GCodeReader"), ("blocks", "omgtools/gui/gcode_block.py")],
  ["list of blocks and their coordinates"])

p("C02", "Machined trajectories follow the programmed path within tolerance",
  "For every machining program of straight and XY-plane circular blocks (up to full circles, radius larger than the tolerance) the rooms cover the commanded path completely and in order, with the tolerance to either side (the tight tolerance in the middle of a block when it varies), extend no further than the tolerance (and the room needed to pass from block to block), are numbered in order, overlap at the transitions and leave the blocks unchanged; splitting blocks covers the same path. A point is reported in the extension of a room, and allowed by its constraints, exactly when it is within the tolerance. Initial guesses go from the start to the end of a room, at rest at both, inside it and within the limits. When machining finishes, every block has been followed in order and in its own direction inside its tolerance, the trajectory is continuous up to the acceleration, respects velocity, acceleration and jerk limits, starts at the first and comes to rest at the last point of the program, and the sampled trajectory and motion times are those of the plan.",
  ["inputs", "programs", "configurations"], "every chain of straight and circular blocks, tolerance (fixed or varying), splitting option, limits and number of combined blocks",
  EX + "machining examples are not among the stable tests.",
  ["omgtools/problems/gcodeschedulerproblem.py", "omgtools/vehicles/tool.py", "omgtools/problems/gcodeproblem.py", "omgtools/execution/deployer.py"],
  [("rooms from blocks", "omgtools/problems/gcodeschedulerproblem.py:GCodeSchedulerProblem"), ("room constraints", "omgtools/vehicles/tool.py"), ("segment by segment deployment", "omgtools/execution/deployer.py:Deployer.update_segment")],
  ["rooms, split blocks, room constraint values, initial guesses, planned and sampled trajectories"])

p("I01", "Drawings and clicks become the environment they show",
  "Reading a vector drawing yields one obstacle per drawn rectangle, circle, line and polyline leg, with the drawn size and the drawn position after the group translations, and nothing else, whatever was read before. The environment built from a drawing, from user actions in the window or from a saved environment contains exactly the shown obstacles, in metres with the y axis pointing up and a room that covers the page; start and goal and the placed, moved and selected obstacles are where the user clicked (obstacles snapped to the grid). Converting a drawing of connected lines and circular arcs to GCode traces them in order, with the y axis pointing up.",
  ["inputs", "histories"], "every drawing made of supported elements, group translations and page size, every sequence of user actions",
  EX + "the drawing reader and the window are not reached by the tests.",
  ["omgtools/gui/svg_reader.py", "omgtools/gui/gui.py"],
  [("reader", "omgtools/gui/svg_reader.py:SVGReader"), ("window", "omgtools/gui/gui.py:EnvironmentGUI")],
  ["list of obstacles", "GCode file", "built environment, clicked positions"])

p("E01", "Exported C++ planners behave like the Python planner they came from",
  "The C++ project exported for a problem, given the same start, goal, obstacle data and options, assembles the same parameters and bounds, applies the same horizon transformations and returns the same planned state and input trajectories as the Python problem it was exported from, over a sequence of updates. For an exported formation or rendez-vous fleet the agreed trajectories, multipliers and residuals of every joint iteration are the same as well.",
  ["inputs", "histories", "configurations"], "every exportable vehicle, obstacle set, problem option, start, goal and number of updates",
  EX + "the export test only checks that three projects compile and run.",
  ["omgtools/export/"],
  [("code generation", "omgtools/export/export.py, export_p2p.py, export_admm.py"), ("runtime", "omgtools/export/point2point/, omgtools/export/vehicles/")],
  ["trajectories printed by a compiled driver versus Python"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
