"""writes known_findings.json"""
import json, os
F = []


def fixed(prop, commit, what):
    F.append(dict(property=prop, case=".*", label=".*", status="fixed", what=f"fixed: property={prop} {commit} {what}"))


def known(prop, case, label, what):
    F.append(dict(property=prop, case=case, label=label, status="known", what=what))


fixed("P04", "7cb2982", "product superposition: the initial value of the product was re-applied per wake, so results depended on the number of wakes")
fixed("P07", "0c17d66", "two Bastankhah2016 models with different parameters shared cached wake data, the second one returned the results of the first")
fixed("P15", "04c48c0", "ABLLogWsProfile failed for a scalar friction velocity")
fixed("P06", "32e48a8", "yawed wakes gave all points of a target the same lateral position, even without any yaw misalignment")
fixed("P06", "f826e96", "centreline points of yawed wakes were deflected to the side opposite to the wake")
fixed("P09", "d137f50", "single point rotors returned negative (REWS), mirrored (REWS2) or NaN (REWS3) effective wind speeds where rotors with more points return zero")
fixed("P09", "42f3fc5", "the centre rotor with several given rotor points did not store ambient results")
fixed("P11", "50b8c50", "wake mirrors bypassed the partial wakes model for the original wake")
fixed("P10", "9c3f768", "axiwake partial wakes had zero weights for a rotor whose edge exactly touches the wake axis")
fixed("P01", "0b49ff4", "the threads engine shared algorithm and models between threads, which mixed up wake-k variables and chunk stores of different chunks")
fixed("P12", "5cc273f", "post-rotor SetFarmVars was overwritten by the reordering; InitFarmData ordered some model data twice or not at all, so turbine data was given to other turbines")
fixed("P16", "ecae9c2", "power/thrust curve types modified the rotor wind speeds in place for slice selections, so yaw or density corrections changed REWS2/REWS3 and the thrust curve input")
fixed("P16", "fe7c8fd", "the air density correction used the inverse density ratio, power decreased with density")
fixed("P17", "c9215a7", "PowerMask used rated powers in the order of the farm for data in downwind order")
fixed("P12", "5c206fc", "ReorderFarmOutput permuted the inverse order as well")
fixed("P12", "ed192ce", "state dependent rotor diameters and hub heights failed or were mixed up with several chunks; SetFarmVars replaced unset turbines' type defaults by NaN")
fixed("P18", "4712a29", "the final run of Iterative did not return the last iteration in the order of the farm")
fixed("P17", "5f478f1", "SectorManagement acted on the wrong turbines and ignored the selection")
fixed("P17", "d89824c", "SectorManagement with a sector that covers the full period selected nothing")
fixed("P16", "098c2cc", "WsRho2PCtFromTwo and WsTI2PCtFromTwo: selections, ranges and inputs of the thrust table")
fixed("P17", "1474c72", "TableFactors failed for selections that are slices")
fixed("P17", "14d5099", "kTI ignored the given uniform TI value")
fixed("P13", "c66a506", "Model.get_data did not select the turbine in model data and target data")
fixed("P13", "a02436c", "Model.get_data replaced data of the model by farm data of the downwind turbine")
fixed("P16", "43ff383", "the default nominal power ignored the unit of the power curve")
fixed("P18", "b6b4b21", "Iterative modified the curve once per turbine instead of once per turbine type")
fixed("P16", "2620ee6", "modify_cutin also replaced the other curve and truncated for integer wind speeds")
fixed("P16", "9187e1f", "FromLookupTable evaluated the thrust coefficient at the wind speed of the power")
fixed("P16", "44fe118", "CpCtFile had no thrust coefficient column, every use of it failed")
fixed("P17", "32cfcfe", "cubic_roots returned no root for polynomials with one real root or a triple root")
fixed("P12", "060bf0f", "state selections of turbine models were looked up by the position of the first model with the same name and got mixed up between turbines")
fixed("P12", "3986e41", "farm models made from turbine models failed for several chunks of states")
fixed("P12", "5b7ec0d", "turbines that were given the same list of models shared it, so later additions for one turbine acted on all")
fixed("P13", "95f6868", "get_data did not spread out state data that was selected by an index or a slice")
fixed("P14", "fadef4d", "states modified the given profile dictionaries, a second initialization failed")
fixed("P14", "be4b973", "StatesTable looked for a column of variables that only a profile provides")
fixed("P14", "4871dce", "MultiHeightNCStates used the name instead of the value of the height attribute")
fixed("P14", "d2d626b", "WRGStates selected grid points that did not cover the requested bounds")
fixed("P14", "445d547", "FieldDataNC applied the y range of the data selection to x")
fixed("P14", "713dbba", "FieldDataNC with a given Dataset failed, the states were not known")
fixed("P14", "b906c96", "FieldDataNC with fixed wind speed or direction failed")
fixed("P14", "e89a7f4", "max_ti of Ustar2TI acted as a lower limit")
fixed("P14", "00b3f72", "SetUniformData failed for data frames and dictionaries")
fixed("P14", "8a28901", "TKE2TI used a variable that is not defined")
fixed("P14", "6789291", "normalized WakeDeltas failed")
fixed("P19", "a42f8a6", "PointCalculator failed for state means with weights per state, or lost the dimensions")
fixed("P19", "1e2214e", "ResultsWriter changed its data when writing and failed for turbine names and new index names")
fixed("P19", "e55fdf1", "PandasFileHelper kept writing options for later files, and did not recognize names with dots")
fixed("P19", "4e22769", "means over turbines were sums, the ambient farm yield failed")
fixed("P18", "a2f7a3e", "under-relaxation used the wrong states and values of the previous iteration")
fixed("P18", "57a13a5", "selected outputs removed variables from the calculation")
fixed("P18", "4dd35a1", "ambient farm calculation of the Iterative algorithm failed")
fixed("P18", "6a912d6", "points per state, ambient results and calculation parameters of the Sequential algorithm failed, plugins were shared between algorithms")
fixed("P18", "a2ee0b1", "models saw state 0 in every step of the Sequential algorithm")
fixed("P18", "704416a", "calc_points failed for an algorithm that did not calculate the farm")
fixed("P18", "6b99a26", "models that act once did nothing when a sequential iteration was repeated")
known("P18", r"relaxation_entry\[entry=(first|pre_rotor|post_rotor)\]", "calculation", "set_urelax at the entry points first, pre_rotor and post_rotor makes every calculation fail with a KeyError")
fixed("P18", "ae33115", "with several wake models, the Downwind algorithm evaluated the wakes of the first one with thrust and wake growth before the effects of the others; results depended on their order and differed from those of the Iterative algorithm")
fixed("P21", "70e9136", "with several wake models, superpositions at points that refer to the ambient wind used the wind that was already reduced by the previous models")
fixed("P21", "211b953", "calc_points(None, points, ambient=True) failed")
fixed("P25", "bd3f41d", "streamlines started with an undefined wind direction in farm calculations, such that there were no wake effects at all")
fixed("P25", "e8492bf", "turbines along streamlines were evaluated from downstream to upstream")
fixed("P25", "eb81ef6", "timelines at several heights rejected states with weights that are not uniform")
fixed("P25", "79dee4a", "centreline points of timelines at wrong distances, at upstream positions for short distances, and dependent on the chunk")
fixed("P22", "37cb480", "writing slice data frames with verbosity failed")
fixed("P22", "29cf44f", "mean flow plots returned the data of an arbitrary variable")
fixed("P22", "bdc44cb", "slice data of all variables failed due to the weights")
fixed("P22", "607e7c8", "xarray format failed for grids with positions of type float")
fixed("P22", "a19a1f6", "pandas format of states slice data failed")
fixed("P22", "671adee", "label map was ignored for the data variables of some formats")
fixed("P22", "524413f", "mean slice data of a subset of states was not rescaled by the weights")
fixed("P22", "7d37147", "mean wind direction of slice data was an arithmetic mean")
fixed("P20", "1b71eea", "nearest points of circles were NaN for points at the centre")
fixed("P20", "1a41dae", "subtracting a list of areas failed")
fixed("P20", "d0cbc47", "bounds of intersections with unbounded areas were wrong")
fixed("P20", "e42f758", "polygons with integer coordinates had truncated distances and nearest points")
fixed("P23", "80ee328", "the angles of turbine rings were truncated to integers, and the caller's array was changed")
fixed("P23", "03c4478", "seed 0 of random farm layouts was ignored")
fixed("P23", "707f083", "turbines from data frames: turbine ids were looked up by label, duplicate or text indices failed")
fixed("P23", "307a2b0", "compressed layout files given as Path objects failed")
fixed("P23", "cb8af1d", "json layouts failed for numpy indices, or lost names")
fixed("P23", "69e9846", "xyh layout files were not written to the output directory")
fixed("P26", "3c186a2", "model names with decimal points, as in the printed examples, failed")
fixed("P27", "a5fc429", "run_outputs returned a pair with the labels although they were not requested")
fixed("P27", "1be17c0", "read_dict and run_dict changed the dictionary of the user, so a second run failed, and the verbosity of engines was ignored")
fixed("P27", "249cdb7", "calc_points sections needed the entry run, unlike calc_farm")
fixed("P27", "7b473e6", "indices of result labels failed for lists and tuples")
fixed("P28", "b80428d", "turbulence intensities given as one number were overruled by the default 0.05")
fixed("P28", "076ddc7", "height dependent time series ignored variables that depend on time only")
fixed("P28", "160ca37", "wind resources without time (one state) failed")
fixed("P28", "17fe011", "integer turbine types failed, since Dict required text keys")
fixed("P28", "1bb63a2", "power curves given as Cp ignored the exponents of the rotor average")
fixed("P28", "19d77f9", "the names TurbOPark and Bastankhah2016 (deflection) were not found")
fixed("P28", "174ebbe", "background averaging none failed")
fixed("P28", "1ad05f2", "output specifications without cases_run failed")
fixed("P28", "477e8b3", "the output directory option of foxes_windio failed")
fixed("P22", "80f4ccf", "files written by SlicesData contained only the last slice")
fixed("P22", "b2abfdd", "SlicesData failed for renamed coordinates")
known("P10", r"top_hat\[sameD=False.*", "no overlap|overlap.*",
      "PartialTopHat takes the rotor diameter of the turbine that causes the wake instead of that of the target rotor, so the overlap fraction is wrong if the diameters differ")
known("P10", r"axiwake_outside\[.*sameD=False.*", "radii.*|mean",
      "PartialAxiwake takes the rotor diameter of the turbine that causes the wake instead of that of the target rotor")

known("P25", r"single_turbine\[chunk=1.*", ".*", "DynamicWakes with a single turbine and several chunks of states: the farm calculation never evaluates the wake frame, hence the point results miss the wakes that were emitted in previous chunks")

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    with open(p, "w") as f:
        json.dump(dict(findings=F), f, indent=1)
        f.write("\n")
