T = "The tests compare a handful of fixed farms, models and state tables with reference numbers or with each other; "
N = "Every path of the real code for the listed structural bounds, all real-valued inputs in the stated ranges. Numbers are exact reals, elementary functions are axiomatised. "

NOTE = ("All checks: symbolic execution of foxes' own Python source (numpy replaced by an object-array "
        "implementation over polynomial terms), branch feasibility and assertions decided by z3, "
        "counterexamples replayed on the unpatched code. See DESIGN.md.")

NA = {}

PROPS = [
    dict(
        id="P01", title="Chunked and parallel evaluation equals one-shot evaluation", over=["configurations", "inputs", "schedules"],
        statement="Splitting a calculation into chunks of states and of evaluation points, with any chunk sizes and any engine, "
        "gives exactly the results of evaluating everything in a single chunk: every state, turbine and point appears exactly once, in the original order (the state index within a chunk, order_ssel, is bookkeeping and exempt). "
        "The results do not depend on the number of chunks or on the order in which the chunks are computed.",
        q="all numbers of states and points up to the bound, all chunk sizes, all values of the input data",
        why=T + "they use a few fixed chunk sizes on one data set, and compare numbers of that data set only.",
        files=["foxes/core/engine.py", "foxes/engines/single.py", "foxes/engines/numpy.py", "foxes/engines/pool.py", "foxes/engines/futures.py", "foxes/core/data.py"],
        mech=[("chunk size computation", "Engine.calc_chunk_sizes"), ("per-chunk input", "Engine.get_chunk_input_data"), ("merge of results", "Engine.combine_results")],
        note=N + "Process pools are not started; their job submission and merge code runs in-process.",
    ),
    dict(
        id="P02", title="Wind direction and vector conversions are exact inverses and circular", over=["inputs"],
        statement="Converting meteorological wind directions (in degrees) to velocity vectors and back returns the same direction in [0,360), with the wind vector pointing to where the wind blows to. "
        "Differences of directions are the signed shortest rotation, in [-180,180], that turns the first into the second.",
        q="all directions in [0,360), all wind speeds and vectors, all array axes",
        why=T + "directions occur at a few grid values, rarely across the north wrap.",
        files=["foxes/utils/wind_dir.py"],
        mech=[("conversion to vectors", "wd2uv, wd2wdvec"), ("conversion to directions", "uv2wd, wdvec2wd"), ("wrapped difference", "delta_wd")],
        note=N,
    ),
    dict(
        id="P03", title="Overlap area of two circles", over=["inputs"],
        statement="For any two radii and any centre distance the computed overlap area of two discs is the exact lens area: zero when they do not touch, the area of the smaller disc when one contains the other, "
        "and the circular-segment sum otherwise. It is symmetric in the discs and lies between zero and the area of the smaller one.",
        q="all radii and distances, including tangent and concentric configurations",
        why=T + "the one test compares a few sampled configurations.",
        files=["foxes/utils/two_circles.py"],
        mech=[("lens area", "calc_area")],
        note=N,
    ),
    dict(
        id="P04", title="Wake superposition laws", over=["inputs", "configurations", "histories"],
        statement="Accumulating the wakes that act on a point gives the documented combination (sum, root of sum of squares, maximum, power mean, product) of their strengths, each scaled with the documented speed, "
        "independent of the order and of other points, and leaves the points untouched that a wake does not select. The configured lower and upper limits hold for every final value.",
        q="all wake strengths, selections, ambient values, limits and orders, up to three wakes",
        why=T + "reference runs contain fixed wake sequences of one or two superpositions.",
        files=[f"foxes/models/wake_superpositions/{n}.py" for n in ("ws_linear", "ws_quadratic", "ws_max", "ws_pow", "ws_product", "ti_linear", "ti_quadratic", "ti_max", "ti_pow")],
        mech=[("accumulation", "add_wake / add_wake of each class"), ("final values", "calc_final_wake_delta")],
        note=N,
    ),
    dict(
        id="P05", title="Axial induction models", over=["inputs"],
        statement="For every thrust coefficient the axial induction factor follows the selected model (momentum theory up to its limit, or Madsen's polynomial), lies in [0, 1/2] for the momentum model, and does not decrease with the thrust coefficient.",
        q="all thrust coefficients in [0,1] and beyond the clipping threshold",
        why=T + "induction only enters through reference results at a few thrust values.",
        files=["foxes/models/axial_induction/betz.py", "foxes/models/axial_induction/madsen.py"],
        mech=[("induction factor", "ct2a")],
        note=N,
    ),
    dict(
        id="P06", title="Wake frames: downwind order and wake coordinates", over=["inputs"],
        statement="The wake coordinates of a point relative to a turbine are its offset, rotated such that the first axis points along the turbine's local wind, the second to its left in the horizontal plane, and the third up; distances are preserved and the rotor itself is at the origin. "
        "The calculation order of the turbines is a permutation in which every turbine comes after those that lie strictly upstream of it with respect to the mean wind vector of the rotors. "
        "With yaw misalignment, all points of a rotor are additionally shifted sideways by the documented wake deflection, and the wake centreline follows that deflection.",
        q="all turbine positions, wind directions and evaluation points, up to three turbines",
        why=T + "frames are exercised for fixed layouts and selected wind directions only.",
        files=["foxes/models/wake_frames/rotor_wd.py", "foxes/models/wake_frames/yawed_wakes.py", "foxes/models/wake_frames/farm_order.py", "foxes/core/wake_frame.py"],
        mech=[("calculation order", "calc_order"), ("wake coordinates", "get_wake_coos"), ("centreline", "get_centreline_points")],
        note=N,
    ),
    dict(
        id="P07", title="Wind deficit wake models", over=["inputs", "configurations"],
        statement="At every point downstream of an operating turbine, each wind wake or induction model contributes exactly its documented deficit, evaluated with the thrust, diameter and wake growth of the turbine that causes it; "
        "it contributes nothing where the model has no effect (upstream or at the rotor for wakes, downstream for blockage models where so documented, or for a turbine without thrust). "
        "Wake deficits never exceed the free stream, are rotationally symmetric and do not grow with the radius.",
        q="all thrust coefficients, diameters, wake growth parameters and wake coordinates",
        why=T + "model results are compared with stored numbers for a few turbines and points.",
        files=["foxes/models/wake_models/wind/jensen.py", "foxes/models/wake_models/wind/bastankhah14.py", "foxes/models/wake_models/wind/bastankhah16.py", "foxes/models/wake_models/wind/turbopark.py",
               "foxes/models/wake_models/top_hat.py", "foxes/models/wake_models/gaussian.py", "foxes/models/wake_models/axisymmetric.py"],
        mech=[("deficits", "calc_wakes_x_r of the models"), ("wake k", "core.wake_model.WakeK")],
        note=N,
    ),
    dict(
        id="P08", title="Wake-added turbulence models", over=["inputs", "configurations"],
        statement="At every point the turbulence wake models (Crespo-Hernandez, IEC 61400-1 Frandsen) add exactly their documented turbulence intensity, evaluated with thrust, diameter, ambient turbulence and wake growth of the turbine that causes the wake, "
        "inside the wake and downstream only, and never a negative amount.",
        q="all thrust coefficients, ambient turbulence intensities, diameters, wake growth parameters and wake coordinates",
        why=T + "added turbulence is compared with stored numbers of a few rows of turbines.",
        files=["foxes/models/wake_models/ti/crespo_hernandez.py", "foxes/models/wake_models/ti/iec_ti.py", "foxes/models/wake_models/top_hat.py"],
        mech=[("wake radius and strength", "calc_wake_radius, calc_centreline"), ("opening angle and lateral profile of the IEC model", "IECTIWake.calc_wakes_x_r")],
        note=N,
    ),
    dict(
        id="P09", title="Rotor models: rotor points and rotor averages", over=["inputs", "configurations"],
        statement="Rotor points lie in the rotor plane of the yawed turbine, centred at the hub and within the rotor square, with positive weights that sum to one. "
        "Rotor results are the weighted averages over these points: vector mean for wind speed and direction, projection on the rotor axis for the effective wind speeds (first, second and third moment, never negative), and the arithmetic mean for any other variable. "
        "Re-evaluating one turbine leaves the results of all others untouched.",
        q="all hub positions, yaw angles, rotor diameters, and wind speeds, directions and other variables at the rotor points",
        why=T + "rotor averages enter only through a few uniform or logarithmic inflow cases.",
        files=["foxes/core/rotor_model.py", "foxes/models/rotor_models/centre.py", "foxes/models/rotor_models/grid.py", "foxes/models/rotor_models/levels.py"],
        mech=[("rotor points", "RotorModel.get_rotor_points"), ("rotor averages", "eval_rpoint_results"), ("ambient results", "RotorModel.calculate")],
        note=N,
    ),
    dict(
        id="P10", title="Partial wakes: wake effect on a whole rotor", over=["inputs", "configurations"],
        statement="The wake effect on a downstream rotor is what the selected partial wakes model promises: the value at the hub (centre), at each rotor point (rotor_points), the weighted mean over its own points (grid, segregated), the centreline value times the fraction of the rotor area inside the wake (top_hat), "
        "or the mean over rings around the wake axis weighted with the rotor area in each ring (axiwake). A wake that is uniform over the rotor is passed on unchanged, and rotors that are not downstream get nothing.",
        q="all rotor offsets including tangential and concentric ones, rotor diameters, wake radii and axisymmetric wake fields",
        why=T + "a few offsets are compared with stored numbers or among models within a tolerance.",
        files=["foxes/core/partial_wakes_model.py"] + [f"foxes/models/partial_wakes/{n}.py" for n in ("centre", "rotor_points", "top_hat", "axiwake", "segregated", "grid")],
        mech=[("wake points", "get_wake_points"), ("weights and contributions", "contribute"), ("rotor values", "finalize_wakes")],
        note=N + "Known finding: the area based models use the diameter of the wake causing rotor if diameters differ.",
    ),
    dict(
        id="P11", title="Ground and mirror models", over=["inputs", "configurations"],
        statement="With a mirror model, the wake at any point or rotor is the sum of the wake of the turbine and those of its mirror images at all given heights, all evaluated with the selected partial wakes model; without, it is the wake of the turbine alone. "
        "Positions of turbines and points are unchanged afterwards, and the wake field of the ground mirror is symmetric about the ground.",
        q="all turbine positions, hub and mirror heights, wind directions, points and wake fields",
        why=T + "mirrors occur in one or two example runs only.",
        files=["foxes/core/ground_model.py", "foxes/models/ground_models/wake_mirror.py", "foxes/models/ground_models/no_ground.py"],
        mech=[("wakes on turbines", "contribute_to_farm_wakes"), ("wakes at points", "contribute_to_point_wakes")],
        note=N,
    ),
    dict(
        id="P12", title="Turbine numbering, calculation order and per-turbine settings", over=["configurations", "inputs"],
        statement="The results of a turbine do not depend on the position of the turbines in the farm's list: renumbering the turbines (together with everything that is given per turbine) renumbers the results. "
        "Turbines are calculated from upstream to downstream for every state. Everything that is specified for a turbine (its models in the given order, their state selections, its type, diameter, hub height, "
        "data given per state and turbine, sector rules, power limits) acts on this turbine and these states and on nothing else, and nothing that is set for a turbine changes the results of turbines upstream of it.",
        q="all numberings of three turbines, all selections of states, all wind speeds and per-turbine values, opposite wind directions in one calculation",
        why=T + "farms are mostly uniform, and turbines are listed in an order for which mixed up indices do not show.",
        files=["foxes/algorithms/downwind/downwind.py", "foxes/algorithms/downwind/models/init_farm_data.py", "foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/downwind/models/reorder_farm_output.py",
               "foxes/core/farm_controller.py", "foxes/core/turbine.py", "foxes/models/turbine_models/set_farm_vars.py", "foxes/models/farm_models/turbine2farm.py", "foxes/algorithms/iterative/iterative.py"],
        mech=[("reordering", "InitFarmData.calculate, ReorderFarmOutput.calculate"), ("turbine model selections", "FarmController.find_turbine_types, __get_mdls, _build_farm_model_list"), ("given data", "SetFarmVars")],
        note=N + "Farms of three turbines, a wake model (of the harness) whose deficit is linear in thrust coefficient, wake growth and diameter of the causing turbine, one or two states.",
    ),
    dict(
        id="P13", title="Data lookup, selections and slices of calculation data", over=["configurations", "inputs"],
        statement="A model that asks for a variable gets it from the first source of the requested lookup order (own attribute, model data, farm data, target data, wake modelling data) that has it, "
        "for the turbine that causes the wake where a downwind index is given, broadcast to the requested states, turbines or targets; a selection returns exactly the selected entries, with or without upcast. "
        "Data from other states come from the same chunk or from the previous iteration, for the state that is asked for. "
        "Slices of data objects keep values, dimensions and the state offset, and target means use the weights of the target points.",
        q="all combinations of places where a variable is found, all values, all selections, all source states",
        why=T + "models find their variables in one place in each test.",
        files=["foxes/core/model.py", "foxes/core/data.py"],
        mech=[("lookup", "Model.get_data"), ("slices", "Data.get_slice"), ("means", "TData.tpoint_mean"), ("shared arrays", "Data._auto_update")],
        note=N + "2-3 states, 3 turbines, 2 targets with 2-3 points.",
    ),
    dict(
        id="P14", title="Ambient states give each point the data of its state", over=["inputs", "configurations"],
        statement="Every kind of states (single state, tables and time series, scans, tab files, resource grids, height profiles from columns or NetCDF data, gridded NetCDF data in any load mode) evaluates for state s and a point "
        "exactly the input data of state s, linearly interpolated (wind vectors instead of directions) in height and position where the data depend on them, with fixed values and vertical profiles where given; "
        "subsets of states select exactly the given states; weights are those of the input, the documented bin weights, or uniform and add up to one; points are not changed, and states can be evaluated in any chunks and initialized repeatedly. "
        "Point models that follow the states (given data, turbulence from friction velocity or kinetic energy, wake deltas) act as documented.",
        q="all values of the input data, all positions inside the data, all chunks and subsets of states, column orders",
        why=T + "each kind of states is run once with one data file.",
        files=["foxes/input/states/states_table.py", "foxes/input/states/single.py", "foxes/input/states/scan.py", "foxes/input/states/multi_height.py", "foxes/input/states/field_data_nc.py", "foxes/input/states/wrg_states.py",
               "foxes/core/states.py", "foxes/core/point_data_model.py", "foxes/models/point_models/set_uniform_data.py", "foxes/models/point_models/ustar2ti.py", "foxes/models/point_models/wake_deltas.py", "foxes/utils/tab_files.py", "foxes/utils/wrg_utils.py"],
        mech=[("table rows", "StatesTable.load_data, calculate"), ("height interpolation", "MultiHeightStates.calculate"), ("field interpolation", "FieldDataNC.calculate"), ("weights", "tdata[FV.WEIGHT] of each class")],
        note=N + "Files are written with ids in place of numbers, parsed by the real readers, and the ids are then replaced by symbols. Interpolation over NaN data and one-point flow are not part of the check.",
    ),
    dict(
        id="P15", title="Vertical wind and turbulence profiles", over=["inputs", "configurations"],
        statement="Each vertical profile returns exactly the documented law (uniform, power law, logarithmic with neutral, stable or unstable correction) for every height, reproduces the reference value at the reference height, uses each state's own parameters, and does not change with the shape in which the inputs are given.",
        q="all heights, reference values, roughness lengths, shear exponents and Obukhov lengths of any sign",
        why=T + "profiles are evaluated at one or two heights in example runs.",
        files=["foxes/models/vertical_profiles/" + n for n in ("uniform.py", "sheared_ws.py", "abl_log_ws.py", "abl_log_neutral_ws.py", "abl_log_stable_ws.py", "abl_log_unstable_ws.py")] + ["foxes/utils/abl/" + n for n in ("neutral.py", "stable.py", "unstable.py")],
        mech=[("profile values", "calculate of the profiles"), ("friction velocity, stability functions", "utils.abl")],
        note=N,
    ),
    dict(
        id="P16", title="Turbine types: power and thrust curves", over=["inputs", "configurations"],
        statement="Each turbine type returns the power and the thrust coefficient that its own tables give by linear interpolation at the designated rotor effective wind speeds, corrected for yaw misalignment and air density as documented, and zero outside the tables. "
        "Only the selected states and turbines change, and no input of the calculation is modified. "
        "The nominal power defaults to the maximum of the power curve, and smoothing at cut-in changes nothing from the cut-in wind speed upwards.",
        q="all table values, rotor wind speeds, air densities, yaw misalignments and selections of states and turbines",
        why=T + "curves are evaluated in reference runs with one turbine type, without corrections.",
        files=["foxes/core/turbine_type.py"] + [f"foxes/models/turbine_types/{n}.py" for n in ("PCt_file", "PCt_from_two", "CpCt_file", "CpCt_from_two", "wsrho2PCt_from_two", "wsti2PCt_from_two", "lookup", "null_type")],
        mech=[("power and thrust", "calculate"), ("tables and nominal power", "load_data"), ("smoothing at cut-in", "modify_cutin")],
        note=N + "Table wind speeds are fixed, table values symbolic; the xarray interpolation behind lookup tables is replaced by an arbitrary bilinear function.",
    ),
    dict(
        id="P17", title="Turbine models modify exactly what they document", over=["inputs", "configurations"],
        statement="Each turbine model (wake growth from turbulence, thrust to thrust coefficient, yaw conversions, power mask, sector management, table factors, given farm variables, rotor centre values, user functions) sets its output variables to the documented values for exactly the selected states and turbines that meet its conditions; "
        "each turbine gets the values given for it, whatever the calculation order. Nothing else changes.",
        q="all variable values, model parameters, ranges, calculation orders and selections of states and turbines",
        why=T + "turbine models occur with one parameter set in example runs, mostly without comparison of their results.",
        files=[f"foxes/models/turbine_models/{n}.py" for n in ("kTI_model", "power_mask", "sector_management", "set_farm_vars", "table_factors", "thrust2ct", "yaw2yawm", "yawm2yaw", "rotor_centre_calc", "calculator")] + ["foxes/utils/cubic_roots.py"],
        mech=[("model results", "calculate of the models"), ("model data", "initialize, load_data")],
        note=N + "LookupTable (xarray interpolation) is outside. The power mask is checked where the induction model admits the requested power.",
    ),
    dict(
        id="P18", title="Iterative and sequential algorithms", over=["inputs", "configurations", "histories"],
        statement="The Iterative algorithm returns exactly the n-th step of the fixed point iteration of the coupled turbines: it starts from ambient conditions, every turbine acts on every other one, under-relaxation mixes each new value with that of the previous step, "
        "and it stops at the first step whose changes are all within their limits (directions on the circle), unless blocked by a model, or at the maximal number. Without upstream influence its results equal those of the Downwind algorithm. "
        "The Sequential algorithm gives for each state, and for points, the result of that state in a full run, also when repeated. Calculations with ambient conditions, selected outputs or points do not change later ones.",
        q="all wind speeds, relaxation factors and convergence limits, numbers of iterations, chunks of states, and histories of two earlier calculations",
        why=T + "iterations are only compared to each other in single runs, with loose limits.",
        files=["foxes/algorithms/iterative/iterative.py", "foxes/algorithms/iterative/models/convergence.py", "foxes/algorithms/iterative/models/farm_wakes_calc.py", "foxes/algorithms/iterative/models/urelax.py", "foxes/algorithms/sequential/sequential.py",
               "foxes/algorithms/sequential/models/seq_state.py", "foxes/algorithms/sequential/models/plugin.py", "foxes/algorithms/downwind/downwind.py", "foxes/core/engine.py"],
        mech=[("iteration", "Iterative.calc_farm"), ("coupled wakes", "FarmWakesCalculation.calculate"), ("relaxation", "URelax.calculate"), ("convergence", "ConvVarDelta.check_converged, ConvCritList"), ("sequential states", "Sequential.__next__, SequentialState")],
        note=N + "Deficits are linear in the thrust coefficient and thrust curves linear in the wind speed, so that the fixed point iteration is a polynomial with exact values.",
    ),
    dict(
        id="P19", title="Evaluation of farm and point results", over=["inputs", "configurations", "histories"],
        statement="Statistics, yields, capacities, efficiencies, wind roses, tables and files computed from farm or point results are exactly the documented functions of those results: weighted or plain reductions over states and turbines, energy as mean power times duration in the unit of the power, "
        "the share of each sector and wind speed bin, and the value of each state and turbine under its own name. States with invalid data are left out with rescaled weights. The given results are not changed, and neither is what a later call returns.",
        q="all power, thrust, wind and weight values, durations, units, options and orders of calls",
        why=T + "no test covers the evaluation of results.",
        files=["foxes/output/farm_results_eval.py", "foxes/output/rose_plot.py", "foxes/output/calc_points.py", "foxes/output/results_writer.py", "foxes/output/state_turbine_table.py", "foxes/utils/pandas_utils.py"],
        mech=[("reductions", "FarmResultsEval.reduce_states, reduce_turbines, reduce_all, weinsum"), ("yield", "calc_turbine_yield, calc_farm_yield"), ("wind rose", "RosePlotOutput.get_data, WindRoseBinPlot.get_data"), ("files", "ResultsWriter, PandasFileHelper.write_file")],
        note=N + "Figures and the digits of formatted files are not part of the check.",
    ),
    dict(
        id="P21", title="Complete farm and point calculations", over=["inputs", "configurations", "histories"],
        statement="A complete calculation gives each turbine in each state the ambient conditions, changed by the wakes of all turbines upstream of it (downstream for induction models), and of no others, each evaluated with its final thrust and wake growth, for any number and order of wake models, combined by each model's superposition relative to the ambient conditions; "
        "power, thrust and turbine models follow from the resulting rotor values, ambient variables from the ambient ones. A calculation at points gives the same combination at every point: at a turbine position, the wind that this turbine has in the farm results. "
        "Point results of a subset of states, of selected variables, with point models or ambient only, are those of the full calculation, with any algorithm object and chunks.",
        q="all wind speeds, turbulence intensities, hub heights, point positions, subsets of states, combinations of wake models",
        why=T + "tests compare complete calculations with stored results of one wind farm, for one wind and one turbulence wake model.",
        files=["foxes/algorithms/downwind/downwind.py", "foxes/algorithms/downwind/models/farm_wakes_calc.py", "foxes/algorithms/downwind/models/point_wakes_calc.py", "foxes/algorithms/downwind/models/set_amb_farm_results.py",
               "foxes/algorithms/downwind/models/set_amb_point_results.py", "foxes/algorithms/iterative/models/farm_wakes_calc.py", "foxes/core/algorithm.py", "foxes/core/engine.py", "foxes/core/farm_controller.py", "foxes/core/ground_model.py", "foxes/core/point_data_model.py"],
        mech=[("sweep", "FarmWakesCalculation.calculate"), ("points", "PointWakesCalculation.calculate, Downwind.calc_points"), ("ambient results", "SetAmbFarmResults, SetAmbPointResults"), ("farm", "Downwind.calc_farm")],
        note=N + "Wake models are linear in the data of the causing turbine and the position, with the real superpositions, algorithms, engines, rotor and turbine models.",
    ),
    dict(
        id="P24", title="Blockage (turbine induction) models", over=["inputs", "configurations"],
        statement="Each turbine induction model contributes exactly its documented wind speed change at every point relative to the turbine that causes it, evaluated with that turbine's thrust and diameter: a deficit upstream that vanishes far away, the documented speed-up or nothing in the downstream half space, and nothing for a turbine without thrust.",
        q="all thrust coefficients, diameters, ambient and rotor wind speeds, and coordinates on both sides of the rotor plane",
        why=T + "no stored results cover the induction zone point by point.",
        files=[f"foxes/models/wake_models/induction/{n}.py" for n in ("rathmann", "self_similar", "self_similar2020", "vortex_sheet", "rankine_half_body")],
        mech=[("blockage", "contribute of each model")],
        note=N,
    ),
    dict(
        id="P25", title="Moving wakes, timelines and streamlines", over=["histories", "inputs", "configurations"],
        statement="With moving wakes (Timelines, DynamicWakes, SeqDynamicWakes) the wake at a position is the one of the nearest wake trace point of the causing turbine: emitted at the rotor a number of time steps before, moved since then by wind vector times time step of each step, at the current position where the wind is not homogeneous. "
        "Its downstream coordinate is the travelled distance plus the remaining distance along the wind, its lateral and vertical coordinates are relative to the trace, the data of the causing turbine is that of the time of emission, and there is no wake where none has arrived yet. In steady wind this is the straight wake. "
        "Along streamlines, coordinates follow the ambient wind direction from the rotor on, and turbines are evaluated after all turbines upstream of them. None of this depends on the chunks of states.",
        q="all positions of points and turbines in given regions, wind speeds of a time step, for given wind directions and time steps",
        why=T + "no test covers streamlines, and moving wakes only as examples that have to run.",
        files=["foxes/models/wake_frames/timelines.py", "foxes/models/wake_frames/dynamic_wakes.py", "foxes/models/wake_frames/seq_dynamic_wakes.py", "foxes/models/wake_frames/streamlines.py", "foxes/models/wake_frames/farm_order.py", "foxes/core/wake_frame.py", "foxes/algorithms/iterative/iterative.py", "foxes/algorithms/sequential/sequential.py"],
        mech=[("timelines", "Timelines.get_wake_coos, get_centreline_points"), ("dynamic wakes", "DynamicWakes._calc_wakes, get_wake_coos"), ("sequential", "SeqDynamicWakes.get_wake_coos"), ("streamlines", "Streamlines2D.get_wake_coos, calc_order"), ("data of the source", "WakeFrame.get_wake_modelling_data")],
        note=N + "Points that are equally near to two trace points, or at the boundary of the region of a trace point, are left out; for timelines, also points that are beside the nearest trace point.",
    ),
    dict(
        id="P22", title="Grids, slices and mean flow fields", over=["inputs", "configurations"],
        statement="The grids for horizontal and vertical slices of the flow cover the wind farm plus the requested margins, or the requested bounds, in the requested orientation, with the requested number of points, and lie in the requested plane; all points of the returned grid are those at which results are calculated. "
        "Slice data contains at each grid point and state the point result of the selected state at that point, for every output format, selection of variables, normalisation and label; means over states are weighted with the weights of the selected states, rescaled, wind directions via wind vectors. Mean flow plots return the data that they show.",
        q="all turbine positions, bounds, margins, slice positions, weights",
        why=T + "no test calls any of these functions.",
        files=["foxes/output/grids.py", "foxes/output/slice_data.py", "foxes/output/slices_data.py", "foxes/output/flow_plots_2d/flow_plots.py"],
        mech=[("grids", "get_grid_xy, get_grid_xz, get_grid_yz"), ("data", "calc_point_results, data2xr, np2np_p, np2np_sp, np2pd_p, np2pd_sp"), ("slices", "SliceData, SlicesData"), ("flow plots", "FlowPlots2D.gen_states_fig_*, get_mean_data_*")],
        note=N + "The point calculation is replaced by known functions of state and point.",
    ),
    dict(
        id="P20", title="Areas and boundaries", over=["inputs", "configurations"],
        statement="A point is inside a circle, half-plane or any combination of areas (union, intersection, difference, inverse, nested) iff the set operation says so. The distance to an area's boundary is that of the returned nearest point, for single areas it is the exact distance, and no point nearer than the returned distance changes sides. "
        "The bounds of a bounded area contain it. Polygons have the distance of their nearest edge. None of this changes the given data, and the bounds of a wind farm with a boundary are those of the boundary plus the requested extra space.",
        q="all points, circle centres and radii, half-planes; polygon vertices in a region",
        why=T + "no test calls any of these functions.",
        files=["foxes/utils/geom2d/circle.py", "foxes/utils/geom2d/half_plane.py", "foxes/utils/geom2d/polygon.py", "foxes/utils/geom2d/area_geometry.py", "foxes/core/wind_farm.py"],
        mech=[("areas", "points_inside, points_distance of Circle, HalfPlane, ClosedPolygon"), ("combinations", "AreaUnion, AreaIntersection, InvertedAreaGeometry"), ("bounds", "p_min, p_max, WindFarm.get_xy_bounds")],
        note=N + "Points on a boundary are left out, inside a union the distance is a lower bound. The inside test of polygons is compiled matplotlib code and not encoded.",
    ),
    dict(
        id="P23", title="Wind farm layouts", over=["inputs", "configurations"],
        statement="Wind farms from rows, grids, rings, random positions, data frames, csv and json files (also compressed, or with other column names) have exactly the requested turbines, each with the position, index, name, hub height, rotor diameter and models that its entry states, in that order, appended to turbines that were there before; random positions keep their minimal distance and lie in the requested area. "
        "Given arrays are not changed. Bounds, rotor diameters, hub heights and written layouts are those of all turbines.",
        q="all base points, steps, positions, heights, diameters, random draws",
        why=T + "tests load stored layouts only to run them.",
        files=["foxes/input/farm_layout/row.py", "foxes/input/farm_layout/grid.py", "foxes/input/farm_layout/ring.py", "foxes/input/farm_layout/from_random.py", "foxes/input/farm_layout/from_df.py", "foxes/input/farm_layout/from_csv.py", "foxes/input/farm_layout/from_file.py", "foxes/input/farm_layout/from_json.py",
               "foxes/core/wind_farm.py", "foxes/core/turbine.py", "foxes/utils/random_xy.py", "foxes/output/farm_layout.py"],
        mech=[("layouts", "add_row, add_grid, add_ring, add_random, add_from_df, add_from_csv, add_from_json, add_from_file"), ("farm", "WindFarm.add_turbine, get_rotor_diameters, get_hub_heights, get_xy_bounds"), ("output", "FarmLayoutOutput")],
        note=N + "Numbers in files are symbolic values behind tokens, the real parsers read the tokens.",
    ),
    dict(
        id="P26", title="Names of models", over=["inputs", "configurations"],
        statement="A model that is requested by name is the documented model with the parameters that the name states: the class, superposition and induction of the wake model, wake growth k, ka * TI + kb, ka * AMB_TI + kb (dot-skipping notation, or with decimal point), or the growth of the farm data if the name has none; "
        "numbers of rotor points, step sizes, time steps and lengths in their units, mirror heights. Named superpositions combine wakes as their names say. Different names give different models, each name one model, unknown names are errors.",
        q="all digits of the numbers in names, wake strengths, turbulence intensities and wind speeds in a range",
        why=T + "tests use few of the names, in which wrong parameters are hardly visible.",
        files=["foxes/models/model_book.py", "foxes/utils/factory.py", "foxes/utils/dict.py", "foxes/core/wake_model.py", "foxes/models/turbine_models/kTI_model.py"],
        mech=[("names", "Factory.check_match, construct, WakeKFactory, FDict.__getitem__, dotless2float"), ("models", "ModelBook.__init__, ModelBook.get"), ("wake growth", "WakeK.__call__, kTI.calculate")],
        note=N + "Digits are placeholder characters that float() reads as symbolic digits.",
    ),
    dict(
        id="P27", title="Calculations described by parameter dictionaries", over=["configurations", "inputs"],
        statement="A parameter dictionary (or yaml file) gives the results of the calculation it describes: states, models, turbines, algorithm and engine are those of the classes that the sections name with the given parameters, additional arguments replace the parameters of the algorithm, the calculations of the farm and the points run unless they are switched off. "
        "Output functions are called in the given order with their parameters, the results of the calculation and the labelled results of earlier functions; all their returns are returned. The dictionary is not changed, a second run gives the same, and an engine that the run has created is closed. The command for yaml files runs the contents of the file with the options of the command line.",
        q="all wind speeds, turbulence intensities, wake strengths, positions, heights and evaluation points in a range, all combinations of sections listed in the bounds",
        why=T + "none of them reads a parameter dictionary.",
        files=["foxes/input/yaml/dict.py", "foxes/input/yaml/yaml.py", "foxes/utils/dict.py"],
        mech=[("construction", "read_dict"), ("run", "run_dict"), ("outputs", "run_outputs, get_output_obj, run_obj_function"), ("command", "foxes_yaml")],
        note=N + "The reference is the calculation with directly created classes. Drawing functions are not run.",
    ),
    dict(
        id="P28", title="Calculations described by windIO documents", over=["configurations", "inputs"],
        statement="A windIO document gives the results of the calculation it describes: inflow from numbers, time series and height dependent time series, with defaults only for missing quantities, logarithmic profiles if a roughness length and a reference height are given, weights from probabilities; turbines at the given positions with the hub heights, diameters and curves of their types, power and thrust following the rotor averages with the given exponents; "
        "deficit, turbulence, blockage and deflection models with the given wake expansion, superposition, reference wind speed and axial induction; rotor and wake averaging as requested. Result files have the requested variables, states and planes. Reading does not change the document.",
        q="all wind speeds, turbulence intensities, probabilities, curve values, positions and wake expansions in a range, all combinations of sections listed in the bounds",
        why=T + "none of them reads a windIO document.",
        files=["foxes/input/yaml/windio/windio.py", "foxes/input/yaml/windio/read_site.py", "foxes/input/yaml/windio/read_fields.py", "foxes/input/yaml/windio/read_farm.py", "foxes/input/yaml/windio/read_attributes.py", "foxes/input/yaml/windio/read_outputs.py", "foxes/output/slices_data.py", "foxes/output/state_turbine_table.py"],
        mech=[("inflow", "read_site, get_states"), ("farm", "read_farm"), ("models", "read_attributes"), ("outputs", "read_outputs")],
        note=N + "The document is given as dictionary; the windIO package that reads files is not installed here. Blockage models, Bastankhah2016: fixed wind speeds or two turbines.",
    ),
]
