GV = "abstract interpretation to a value graph, compared by global value numbering with a reference statement of the rule"
REL = "abstract interpretation; relational comparison of value graphs of two call histories by value numbering"
TODO = "not decided yet: the analysis for this property is not built"

# ---------------------------------------------------------------- API contract
prop("C01", "Caller-supplied arguments are never modified",
     "No public operation of an aircraft or of the geometry API (solving, distributions, derivatives, target lift, trim, stall analyses, aerodynamic centre, STL export) changes, adds or removes any entry of a dictionary, list or array that the caller passed in, whether the operation returns or raises. A state dictionary can therefore be reused for the next call with the same meaning.",
     ["inputs", "histories"], "for every public operation, every combination of present and absent state entries, and every exit (normal or exceptional)",
     "The existing tests call solve a handful of times with dictionaries they never inspect afterwards; the guarantee covers every operation, every subset of keys and every exit.",
     ["machup/MU.py", "machup/llmodel.py", "machup/propmodel.py", "machup/propssolver.py", "machup/geometry.py"],
     [("analyses that vary a state entry", "machup/MU.py: MachUp.derivatives, target_lift, pitch_trim, stall_airspeed, stall_onset"), ("local flow hand-over", "machup/MU.py: MachUp.solve")],
     observe=["caller's aero_state, control_state, prop_state after the call"],
     technique="escape/effect analysis on the abstract heap: every write reaching a caller-owned object is reported", note="Every reachable store is resolved against the abstract heap; caller-owned objects are compared with their value at entry on every exit.")

prop("C02", "Results depend only on the call, not on earlier calls",
     "The result of an operation is a function of the aircraft description and of the arguments of that call: repeating it, or performing any other operations in between on the same or on another aircraft (solves in other states, derivatives, trims, exports, calls that raise), does not change it. In particular no state, control deflection, propeller setting or slipstream of an earlier call leaks into a later one, including when an argument is omitted.",
     ["histories", "inputs"], "for every pair of public operations run one after the other on one aircraft, for all argument values, and for interleavings with a second aircraft",
     "Tests build a fresh aircraft and make one or two calls; leakage needs a specific earlier operation followed by a call that leaves something out.",
     ["machup/MU.py", "machup/llmodel.py", "machup/llgrid.py", "machup/propmodel.py", "machup/propssolver.py", "machup/geometry.py"],
     [("per-call reset of solver state", "machup/llmodel.py: LLModel.solve, _set_aero_state, _set_control_state"), ("propeller state reset", "machup/propmodel.py: _set_aero_state, _set_prop_state"), ("results storage", "machup/llmodel.py: LLModel._process_linear_results")],
     state=[("solver state", "last aerodynamic, control and propeller state kept on the models", "machup/llmodel.py, machup/propmodel.py, machup/propssolver.py")],
     observe=["return values of solve, distributions and the analyses"],
     technique=REL, note="The value of the second call is computed on the abstract state left by an arbitrary first call and compared with its value on a fresh aircraft.")

prop("C03", "Returned results belong to the caller and stay as they were",
     "What an operation returns (force and moment dictionaries, span distributions, propeller distributions, trim and derivative dictionaries) is a snapshot owned by the caller: no later operation on the aircraft changes it. Conversely, modifying a returned value has no effect on later results.",
     ["histories"], "for every public operation and every operation that follows it, in both directions",
     "A test that compares a result at once cannot see that the container is later overwritten in place.",
     ["machup/MU.py", "machup/llmodel.py", "machup/propssolver.py"],
     [("result containers", "machup/llmodel.py: LLModel.solve, get_distributions"), ("result merging", "machup/MU.py: MachUp.solve, distributions")],
     observe=["objects reachable from return values"],
     technique="alias analysis on the abstract heap: objects reachable from a result against objects reachable from the aircraft", note="Mutable objects reachable both from a result and from the aircraft, and writes into earlier results, are reported.")

prop("C04", "Omitted arguments take their documented defaults; given ones are used",
     "Omitted arguments mean their documented defaults: no flight state is 10 length units per second along the body x-axis at density 0.0023769, missing angles, rotation rates and control deflections are zero, no propeller setting is an advance ratio of 0.5. Everything the caller does supply, zeros included, is used exactly as given, for every operation that takes it, and a setting given under a propeller's name applies to that propeller only.",
     ["inputs", "configurations"], "for every public operation and every subset of optional arguments and state entries",
     "Tests give nearly complete states; the number of subsets of optional entries times operations is far beyond them.",
     ["machup/MU.py", "machup/llmodel.py", "machup/propmodel.py", "machup/propssolver.py", "machup/geometry.py"],
     [("defaults", "machup/llmodel.py: _set_aero_state, _set_control_state; machup/propmodel.py: _set_aero_state, _set_prop_state; machup/propssolver.py")],
     observe=["return values of solve, distributions and the analyses"],
     technique=GV, note="Optional entries are symbolic presence bits, so one comparison covers all subsets.")

prop("C05", "Files written by an operation hold exactly the values it computed",
     "Whenever a file name is given, the file that the operation leaves behind is complete, closed and holds the values of this call under their own names: the JSON of forces, derivatives or trim equals the returned dictionary, and the distributions tables list every section of every wing and propeller with the column each heading names. Without a file name nothing is written.",
     ["inputs", "histories", "configurations"], "for every operation with a file name, every aircraft with or without wings or propellers, and every earlier call with the same name",
     "Tests never write result files; completeness depends on flushing and on the aircraft's configuration.",
     ["machup/MU.py", "machup/llmodel.py"],
     [("result files", "machup/MU.py: solve, derivatives, stability_derivatives, damping_derivatives, control_derivatives, target_lift, pitch_trim, distributions")],
     observe=["contents of the files named by the caller"],
     technique="typestate of file handles (open/buffered/flushed) and content comparison on the abstract heap", note="Buffered text that is not flushed before the operation ends stays outside the file model.")

# ---------------------------------------------------------------- bookkeeping
prop("C06", "Total loads are the sum of the wing and propeller loads",
     "For every aircraft and state the total force and moment components equal the sum of the wing contribution and of the contributions of all propellers, component by component under the same name, and thrust and torque are reported whenever there are propellers. The wind-axis components (lift, drag, side force) are the resolution of the same body-axis force along the flight direction given by angle of attack and sideslip; an aircraft without wings or without propellers reports just the part it has.",
     ["inputs", "configurations"], "for all flight, control and propeller states and all aircraft with wings only, propellers only, or both",
     "Totals are sampled in tests at one state of wing-only aircraft.",
     ["machup/MU.py", "machup/propssolver.py", "machup/llmodel.py"],
     [("load totals", "machup/MU.py: MachUp.solve"), ("propeller totals", "machup/propssolver.py: _calc_forces, _rotate_aero_forces")],
     observe=["solve results"],
     technique=GV, note="Identities between value graphs, all states.")

prop("C07", "Derivatives are the normalised central differences they are named",
     "Each stability, damping and control derivative equals the central difference of the named load with respect to the named state entry about the caller's state: loads are made non-dimensional with the dynamic pressure, reference area and reference lengths of that state, angles count in radians, rates in their non-dimensional form, and all other entries stay at the caller's values. The static margin is minus the ratio of the pitching-moment slope to the lift slope.",
     ["inputs", "configurations"], "for every aircraft and every flight, control and propeller state, with optional entries present or absent",
     "Tests contain no derivative; a wrong sign, step or normalisation only shows against the full definition for each of the fifty entries.",
     ["machup/MU.py"],
     [("derivatives", "machup/MU.py: derivatives, stability_derivatives, damping_derivatives, control_derivatives")],
     observe=["derivatives, stability_derivatives, damping_derivatives, control_derivatives"],
     technique=GV, note="solve is summarised as an uninterpreted function of its complete state; both sides apply it.")

prop("C08", "Results do not depend on the system of units",
     "Scaling lengths, times and masses consistently in the aircraft description and in the flight state scales forces, moments, velocities and areas by the corresponding power of the scale factors and leaves coefficients, angles and derivatives unchanged. The only unit-aware input is the electric-motor model, which honours the units declared in the aircraft file.",
     ["inputs"], "for all aircraft, states and all positive scale factors of length, time and mass",
     "A dimensional slip agrees with the reference at the single unit system and state a test uses.",
     ["machup/MU.py", "machup/llmodel.py", "machup/llgrid.py", "machup/propmodel.py", "machup/propssolver.py"],
     [("dimensional formulas", "machup/llgrid.py, machup/llmodel.py, machup/propmodel.py, machup/propssolver.py")],
     observe=["solve, distributions and derivative results"],
     technique="homogeneity (scaling) analysis of value graphs by value numbering of the scaled program", note="The program on scaled inputs is compared with the scaled program.")

# ---------------------------------------------------------------- analyses
prop("C09", "Trim, target-lift and stall searches only return states that satisfy them",
     "When a search for an angle of attack, an elevator setting or an airspeed returns without an error, the state it returns satisfies the target within the requested tolerance, evaluated for the caller's own flight, control and propeller state with only the searched entries replaced (trim: every residual below the tolerance; target lift and stall airspeed: the last correction below it). If it cannot be met the caller is told by an exception or by the error report, never by a silently unconverged number.",
     ["inputs", "histories"], "for every aircraft, target, tolerance, starting state and every path through the iteration",
     "Tests contain no trim; whether every exit of the iteration is guarded by the tolerance is a property of all paths.",
     ["machup/MU.py"],
     [("searches", "machup/MU.py: target_lift, pitch_trim, stall_airspeed")],
     observe=["target_lift, pitch_trim, stall_airspeed results"],
     technique="modular abstract interpretation (solve uninterpreted); loop summaries compared with the reference iteration by value numbering, otherwise guard analysis of every returning exit", note="Any iteration whose returning exits are guarded by the tolerance is accepted.")

prop("C10", "Stall onset and aerodynamic centre follow their definitions",
     "Stall onset is the first angle of attack of the search (zero, then in steps of a tenth of a degree, all other entries the caller's) at which some section's lift coefficient exceeds its maximum; the wing and span location reported are those of the first such section and the lift is the aircraft's at that angle. The aerodynamic centre is the point given by the least-squares fits of lift, drag and moment over angles of attack from -10 to 10 degrees, all other entries the caller's, relative to the aircraft origin.",
     ["inputs"], "for every aircraft and state", "No test covers either analysis.",
     ["machup/MU.py", "machup/llmodel.py"],
     [("stall onset", "machup/MU.py: stall_onset; machup/llmodel.py: _find_stall_location"), ("aerodynamic centre", "machup/MU.py: find_aero_center")],
     observe=["stall_onset, find_aero_center results"],
     technique=GV, note="Loop bodies and exit conditions compared, modularly in solve and with the wing model expanded.")

# ---------------------------------------------------------------- wing model
prop("C11", "Every wing section's geometry follows the aircraft description",
     "For every aircraft description, each lifting section (its control point, end points, chord, area, twist, airfoil data and stall limit) is the one obtained from the wings' spans, sweeps, dihedrals, twists, tapers, airfoils, connections and offsets as the file format defines them, on both sides of the aircraft. Sections of a wing tile its full span with cosine clustering, the reported areas are those of the tiles, and the reference area is the sum of the main wings.",
     ["inputs", "configurations"], "for all values of every geometric parameter and grid size, for wings on either or both sides, connected at roots and tips",
     "Tests sample a few sections of a few aircraft, each varying one parameter; combinations of sweep, dihedral, twist, connection and side are unbounded.",
     ["machup/geometry.py", "machup/llgrid.py"],
     [("section grid", "machup/llgrid.py: LLGrid"), ("segments and connections", "machup/geometry.py: Airplane, Wing, WingSegment")],
     observe=["distributions, derivatives' reference area, LLGrid accessors"],
     technique=GV, note="Exact congruence of rational-trigonometric value graphs for symbolic grid sizes.")

prop("C12", "Wing circulation and inviscid loads obey the lifting-line equations",
     "For every aircraft and flight state the section circulations solve the linearised numerical lifting-line system: each section's lift from its local angle of attack, control deflection and induced velocity equals the vortex force of its bound segment, the trailing vortices leaving along the free stream. The reported section lift, angle of attack and section forces, and the inviscid totals in body and wind axes, are those of this solution for the local velocity including rotation rates and slipstream.",
     ["inputs", "configurations"], "for all geometries, grid sizes, flight states, control deflections and prescribed local velocities",
     "Tests compare a few totals at two or three states; rotation rates, sideslip, control mixing and local flow are hardly sampled.",
     ["machup/llmodel.py", "machup/llgrid.py"],
     [("influence coefficients", "machup/llmodel.py: _compute_uniform_velocity..., _calc_v_ji"), ("linear solution", "machup/llmodel.py: _solve_linear_equations"), ("forces", "machup/llmodel.py: _compute_forces, _process_linear_results")],
     observe=["solve and distributions results"],
     technique=GV, note="The coefficients of the linear system are compared entry by entry for symbolic indices; its solution is the same uninterpreted solve.")

prop("C13", "Viscous drag, section moments and wing totals are complete",
     "The wing's viscous load uses each section's drag polar at its lift coefficient along its local flow direction, section pitching moments include camber, angle-of-attack and control-surface contributions, and moments are taken about the aircraft's centre of gravity. The totals are exactly the sum of the inviscid, viscous and section-moment contributions over all sections, in body and in wind axes.",
     ["inputs", "configurations"], "for all geometries, airfoil data, flight states, control deflections and local velocities",
     "Tests compare a few totals to reference numbers at zero deflection and zero rates.",
     ["machup/llmodel.py", "machup/llgrid.py"],
     [("viscous loads", "machup/llmodel.py: _compute_forces"), ("moments", "machup/llmodel.py: _compute_moments...")],
     observe=["solve and distributions results"],
     technique=GV, note="Exact congruence of value graphs, including sums over symbolic section counts.")

prop("C14", "Wings and propellers see the same flight state",
     "In every operation the wing model, the propeller model and the resolution into wind axes use one and the same flight direction, speed and density, those of the caller's state. Propellers see the undisturbed stream; the wing sees it plus the propellers' slipstream and the local velocity of the aircraft's rotation.",
     ["inputs", "configurations"], "for all flight states with any subset of optional entries, all aircraft with wings and propellers",
     "A mismatch vanishes at zero sideslip and at the default state, which is what tests use.",
     ["machup/MU.py", "machup/llmodel.py", "machup/propmodel.py", "machup/propssolver.py"],
     [("flight direction", "machup/llmodel.py: _set_aero_state; machup/propmodel.py: _set_aero_state; machup/propssolver.py: _initialize_velocity_field, _rotate_aero_forces")],
     observe=["solve results"],
     technique=GV, note="Value graphs of free-stream vectors at each consumer.")

# ---------------------------------------------------------------- propellers
prop("C15", "Propeller blade geometry and section data follow the description",
     "Each blade station's radius, chord, aerodynamic pitch angle and airfoil data follow from the propeller's diameter, hub, pitch law, chord law, airfoils and number of blades as the description defines them, for every kind of pitch and chord law. Section lift and drag as functions of angle of attack follow the linear law below stall and the blended post-stall law above it, continuously for positive and negative angles.",
     ["inputs", "configurations"], "for all propeller descriptions (each pitch and chord kind, one or several airfoils) and all angles of attack",
     "No test contains a propeller.",
     ["machup/propmodel.py", "machup/geometry.py"],
     [("blade geometry", "machup/propmodel.py: _calc_spacing, _calc_pitch, _calc_chord, _calc_coefficients"), ("section coefficients", "machup/propmodel.py: _get_CL, _CD_Viterna")],
     observe=["propeller distributions"],
     technique=GV, note="Exact congruence; interpolation from data files is an uninterpreted function of the file.")

prop("C16", "Propeller operating point and loads obey blade-element theory",
     "For every propeller and state the rotation rate is the one the setting asks for (advance ratio, rotation rate, brake power, or motor throttle), the induced angle balances blade lift with vortex theory, and thrust, torque, normal force and yawing moment are the blade-element integrals made dimensional with that rotation rate, density and diameter. The propeller's force acts along its own axis and off-axis direction and its moment is taken about the aircraft's centre of gravity.",
     ["inputs", "configurations"], "for all propeller descriptions, flight states and propeller settings", "No test contains a propeller.",
     ["machup/propmodel.py", "machup/propssolver.py"],
     [("operating point", "machup/propmodel.py: _set_prop_state, _prop_state_from_power"), ("integrals", "machup/propmodel.py: _find_coefficients"), ("loads", "machup/propmodel.py: _calc_forces")],
     observe=["solve and distributions results"],
     technique=GV, note="Iterations are loop summaries; their bodies, starting values and exits are compared.")

prop("C17", "Slipstream reaches exactly the sections inside the propeller stream tubes",
     "A propeller adds velocity only at wing sections behind it and within its stream tube, in the axial and swirl directions of that propeller with the development factor and contraction of the inviscid slipstream theory; sections outside keep the free stream. With several propellers the contributions add, independently of their order.",
     ["inputs", "configurations"], "for all wing and propeller layouts, flight states and propeller settings", "No test contains a propeller.",
     ["machup/propmodel.py", "machup/propssolver.py"],
     [("stream tube membership", "machup/propmodel.py: _calc_immersed_wing_points"), ("slipstream velocities", "machup/propmodel.py: _calc_prop_wing_vel, _stone_slipstream"), ("sum", "machup/propssolver.py: solve")],
     observe=["velocity array of the propeller solver, wing loads with propellers"],
     technique=GV, note="Masked array stores are guarded values; membership masks are compared symbolically.")

prop("C18", "Reversing a propeller's rotation mirrors its torque and swirl only",
     "For every propeller, changing the rotation direction reverses the sign of its shaft torque about its axis, of its off-axis yawing moment and of its slipstream swirl, and changes nothing else: thrust, normal force, induced velocity magnitudes, power and axial slipstream stay the same. Pitch and chord laws do not depend on the direction of rotation.",
     ["inputs", "configurations"], "for all propeller descriptions, positions, orientations and states", "No test contains a propeller.",
     ["machup/propmodel.py", "machup/geometry.py"],
     [("rotation direction", "machup/propmodel.py: _calc_forces, _stone_slipstream; machup/geometry.py: Prop")],
     observe=["propeller forces, moments and slipstream"],
     technique="relational comparison of the value graphs of two aircraft that differ in the direction only", note="Even/odd parity of each output under the direction.")

# ---------------------------------------------------------------- robustness
prop("C19", "Every operation terminates",
     "Every public operation returns or raises after a bounded number of steps, for every aircraft, state and tolerance, including non-converging iterations, unreachable targets and aircraft that cannot stall.",
     ["inputs", "configurations"], "for all inputs and all loops reachable from public operations",
     "A test that hangs is not a test; the inputs that defeat convergence are not in the suite.",
     ["machup/MU.py", "machup/propmodel.py", "machup/geometry.py", "machup/llmodel.py", "machup/outputstl.py"],
     [("iterations", "machup/MU.py: target_lift, pitch_trim, stall_airspeed, stall_onset; machup/propmodel.py: _find_ei, _find_rot_rate_power, _find_rot_rate_motor")],
     observe=["return of every operation"],
     technique="loop and recursion termination analysis over the call graph (bounded iterables, ranking counters with guarded exits)", note="Every reachable loop and recursive cycle needs a syntactic-semantic bound.")

prop("C20", "Building an aircraft in code or from a file gives the same aircraft",
     "Every setting of the aircraft file format reaches the model under its own meaning, and an aircraft assembled through the construction interface with the same settings gives the same results as the one read from the file. Optional entries of the file may be left out and mean their documented defaults; the order of entries in the file does not matter where the format gives entries identities.",
     ["inputs", "configurations"], "for all aircraft descriptions expressible in both forms, with optional entries present or absent",
     "Tests build a few aircraft by each route and compare selected getters.",
     ["machup/geometry.py", "machup/MU.py"],
     [("file reader", "machup/geometry.py: Airplane._load_..."), ("construction interface", "machup/geometry.py: Airplane.add_wing, Wing.*, Prop.*")],
     observe=["solve results and geometry accessors of both aircraft"],
     technique=REL, note="Value graphs of the same operation on both aircraft.")

prop("C21", "Invalid settings are rejected when they are given",
     "A setting outside the documented set of choices or an inconsistent state (unknown pitch or chord law, side, connection location, airfoil location or rotation direction; propeller setting without a usable key; zero advance ratio without a rotation rate; motor throttle without a motor; several blade airfoils without stations; missing speed or density) raises an error at the call that supplies or first needs it, and never silently produces a result. Valid settings are never rejected.",
     ["inputs", "configurations"], "for all values of every enumerated setting and all subsets of state entries", "Tests give only valid settings.",
     ["machup/geometry.py", "machup/propmodel.py", "machup/llmodel.py", "machup/propssolver.py"],
     [("validation", "machup/geometry.py, machup/propmodel.py: raise statements")],
     observe=["exceptions of construction and solve calls"],
     technique="path-condition analysis of exceptional and normal exits", note="Exit conditions are compared with the documented set of valid choices.")

prop("C22", "STL export is a complete and faithful surface of the aircraft",
     "The exported surface contains every wing segment and propeller blade, each built from section outlines of the proper airfoil, scaled by the local chord, turned by the local twist and dihedral (blades: by the geometric pitch) and placed at the quarter-chord point of the section, joined by triangles between neighbouring sections. Every facet has been given its vertices, no facet is left undefined, and exporting changes no later result.",
     ["inputs", "configurations"], "for all aircraft with wings, propellers or both, all grid sizes", "No test exports an STL.",
     ["machup/outputstl.py", "machup/MU.py"],
     [("STL export", "machup/outputstl.py; machup/MU.py: create_stl")],
     observe=["mesh handed to the STL writer"],
     technique=GV, note="Mesh entries for symbolic section and outline indices.")

prop("C23", "A symmetric aircraft gives mirror-symmetric results",
     "For an aircraft symmetric about its centre plane, reversing the sign of sideslip, roll rate, yaw rate and of the anti-symmetric controls mirrors the result: axial and vertical force, lift, drag and pitching moment stay, side force and rolling and yawing moment change sign. Consequently the lateral loads vanish in symmetric flight.",
     ["inputs", "configurations"], "for all symmetric aircraft and all flight and control states",
     "Tests have one or two symmetric states; the mirror relation needs pairs of asymmetric ones.",
     ["machup/llmodel.py", "machup/llgrid.py", "machup/geometry.py"],
     [("both sides of a wing", "machup/geometry.py: Wing, WingSegment; machup/llgrid.py")],
     observe=["solve results"],
     technique="relational comparison of value graphs under the mirror substitution", note="Section geometry and load laws are compared under the mirror map section by section.")

prop("C24", "No result depends on undefined values",
     "For every aircraft and state, each reported number is computed from defined values only: no array element is read before it is assigned, no variable is unbound on a path that uses it, and no attribute is read before some call has set it.",
     ["inputs", "histories", "configurations"], "for every operation, aircraft configuration and order of calls",
     "Undefined storage often happens to hold zeros; the failing angle or order of calls must be hit exactly.",
     ["machup/MU.py", "machup/llmodel.py", "machup/llgrid.py", "machup/propmodel.py", "machup/propssolver.py", "machup/outputstl.py"],
     [("uninitialised arrays", "numpy.empty and numpy.empty_like in machup/llgrid.py, machup/propmodel.py, machup/propssolver.py, machup/outputstl.py")],
     observe=["return values of all operations"],
     technique="definite-assignment analysis of arrays, locals and attributes on the abstract heap", note="Undefined elements are marked values; a result reaching one is reported.")

# ---------------------------------------------------------------- beyond static reach
prop("C25", "Loads agree with theory and experiment to engineering accuracy",
     "For high-aspect-ratio wings at moderate angles, lift, drag and moments computed on a sufficiently fine grid agree with classical lifting-line results and converge as the grid is refined.",
     ["inputs", "configurations"], "for all planforms in the range of validity and all grid sizes", "Tests compare a few cases with fixed numbers.",
     ["machup/llmodel.py", "machup/llgrid.py"], [("lifting-line solution", "machup/llmodel.py")], observe=["solve results"],
     na="accuracy of a discretisation is a quantitative statement about numerical error of a linear-system solution as the grid size grows; no static argument in reach bounds it")
prop("C26", "Trim, target-lift and propeller iterations converge for flyable states",
     "For aircraft with a regular lift curve and elevator authority and for propellers in normal operation the searches find a solution within their iteration limits.",
     ["inputs", "configurations"], "for all flyable aircraft and reachable targets", "Tests contain no trim.",
     ["machup/MU.py", "machup/propmodel.py"], [("iterations", "machup/MU.py: target_lift, pitch_trim; machup/propmodel.py: _find_ei")], observe=["target_lift, pitch_trim, solve"],
     na="convergence of secant and Newton iterations depends on run-time slopes of the loads; a static argument cannot bound them (termination and correctness of what is returned are decided under C09 and C19)")
