#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, observe, over=("inputs",), state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Unit conversion preserves the physical value and never mutates",
 "Converting a quantity (scalar or array data) to any unit of the same dimension - any of the library's named units, or a compound or scaled unit built from them with non-zero scales - multiplies its data by exactly the ratio of the two units' sizes, so round trips restore the data and chained conversions agree with direct ones. Converting to a unit of another dimension raises ValueError. The quantity that is converted, and the array it holds, are never modified.",
 "all data values and arrays, all pairs of units", "Tests convert a handful of unit pairs with one number each; they never convert scaled compound units, reorderings of the same dimension, or look at the source array afterwards.",
 ["celest/units/quantity.py", "celest/units/core.py", "celest/units/unit_initialization.py", "celest/units/display.py"],
 [("convert_to / to", "celest/units/quantity.py"), ("unit scales", "celest/units/core.py")], ["Quantity.to", "Quantity.convert_to"])
prop("C02", "Quantity arithmetic acts on physical values",
 "Negation, sum, difference, product and quotient of quantities (including the reflected forms with plain numbers) denote the corresponding operation on the physical values, whatever units the operands are written in; a plain number added to or subtracted from a quantity is taken in the quantity's own unit. Adding or subtracting quantities of different dimension raises ArithmeticError. No operand is modified.",
 "all operand values, all unit pairs, both operand orders", "Tests evaluate one numeric example per operator.",
 ["celest/units/quantity.py"], [("operator methods", "celest/units/quantity.py")], ["Quantity + - * / operators"])
prop("C03", "Quantity comparisons agree with physical order",
 "For scalar quantities of the same dimension, ==, !=, <, <=, > and >= give exactly the truth value of the same comparison between the physical values, whatever units they are written in. Comparing quantities of different dimension raises ArithmeticError. A quantity is never equal to, and always unequal to, something that is not a quantity.",
 "all operand values and unit pairs", "Tests compare a few hand-picked pairs.",
 ["celest/units/quantity.py"], [("comparison methods", "celest/units/quantity.py")], ["Quantity comparison operators"])
prop("C04", "Unit products, quotients and powers form a consistent algebra",
 "The size of a product, quotient, non-zero numeric multiple or numeric power of the library's units is the product, quotient, multiple or power of the sizes; repeated base units are merged into one with the summed power and cancelled ones disappear, at every nesting depth. The dimension of a unit depends only on its net dimension exponents: two units with the same exponents report the same dimension however they were built. Building a unit never changes the units it was built from.",
 "all unit expressions", "Tests build about ten unit expressions and never compare sizes of nested or scaled ones.",
 ["celest/units/core.py", "celest/units/display.py"], [("compound expansion", "celest/units/core.py"), ("dimension string", "celest/units/display.py")], ["unit operators", "unit.dimension", "unit.scale"])
prop("C05", "Hour-valued times stay within [0, 24)",
 "True and mean solar time, true and mean hour angle, UT1, and Greenwich and local mean and apparent sidereal time are returned in hours, lie in [0, 24) for every Julian time, offset and longitude, and carry one value per input time.",
 "all finite Julian times, offsets and longitudes (scalar or one per time)", "Tests sample three dates; wrap-around happens only on particular combinations of date and longitude.",
 ["celest/time.py", "celest/coordinates/astronomical_quantities.py"], [("modulo reductions", "celest/time.py")], ["Time methods"])
prop("C06", "Solar and sidereal times are mutually consistent",
 "Modulo 24 h: hour angle is solar time minus 12 h; true minus mean solar time is the equation of time; UT1 is mean solar time at longitude zero; mean solar time at Greenwich advances 24 h per Julian day and is 12 h at integer Julian dates; moving d degrees east adds d/15 h to every local time; apparent minus mean sidereal time (Greenwich, and local at any longitude) is the equation of the equinoxes; local mean sidereal time is mean hour angle plus the right ascension of the Sun.",
 "all finite Julian times and longitudes", "Tests compare each method with tabulated values for three dates; relations between them are never checked.",
 ["celest/time.py", "celest/coordinates/astronomical_quantities.py"], [("time definitions", "celest/time.py")], ["Time methods"])
prop("C07", "Julian date to calendar date conversion is exact",
 "For every non-negative Julian date, the calendar year, month and decimal day returned (Julian calendar before 15 October 1582, Gregorian from then on) are those of a valid date whose Julian date is the input, and each entry of an array is converted independently of the others. The datetime form denotes the same instant, to the microsecond resolution of the Julian date, for every Julian date from 15 October 1582 through the year 9999.",
 "all Julian dates >= 0, arrays of any length mixing eras", "Tests use four dates, all in the 19th-21st centuries; leap-century rules and the calendar switch are not sampled.",
 ["celest/coordinates/astronomical_quantities.py", "celest/time.py"], [("from_julian", "celest/coordinates/astronomical_quantities.py"), ("datetime", "celest/time.py")], ["from_julian", "Time.datetime"])
prop("C08", "Day of year counts days since 1 January",
 "For every Julian date from 1 January 1583 on, the day of year equals one plus the number of days from 1 January of that calendar year, so it is 1 on 1 January, increases by one per day, and reaches 365 or 366 on 31 December according to the Gregorian leap-year rule.",
 "all Gregorian dates, arrays of any length", "Tests use two dates.",
 ["celest/coordinates/astronomical_quantities.py"], [("day_of_year", "celest/coordinates/astronomical_quantities.py")], ["day_of_year"])
prop("C09", "GCRS and ITRS conversions are inverse rigid rotations",
 "Converting position or velocity data from GCRS to ITRS or back preserves vector lengths and the inner product of any two vectors at the same time, and handedness, at every time; converting there and back restores the data. Times, number of samples and units are carried over unchanged and the input object is not modified.",
 "all times, all vectors, arrays of any length, any unit", "The transformation tests need data files that are absent, and sample fixed rows.",
 ["celest/coordinates/transforms.py", "celest/coordinates/nutation_precession_matrices.py", "celest/coordinates/astronomical_quantities.py"],
 [("rotation chain", "celest/coordinates/transforms.py"), ("bias, precession, nutation", "celest/coordinates/nutation_precession_matrices.py")], ["Coordinate.convert_to"])
prop("C10", "Geodetic and Earth-fixed coordinates describe the same point",
 "Converting WGS84 latitude, longitude and height to ITRS gives the point at that height along the ellipsoid normal, in agreement with the ITRS coordinates of a ground location built from the same numbers, in any angular or length unit. Converting any ITRS point outside the Earth's core to WGS84 gives geodetic latitude in [-90, 90] degrees, longitude in [-180, 180] degrees and height that convert back to the same point, each sample independently of the others.",
 "all latitudes, longitudes, heights above -1000 km up to 10^6 km, arrays of any length, mixed samples", "Tests that convert need absent data files and use loose tolerances.",
 ["celest/coordinates/transforms.py", "celest/coordinates/ground_location.py", "celest/coordinates/astronomical_quantities.py", "celest/satellite.py"],
 [("_wgs84_to_itrs / _itrs_to_wgs84 / _altitude", "celest/coordinates/transforms.py"), ("itrs_x/y/z", "celest/coordinates/ground_location.py")], ["Coordinate.convert_to", "Satellite.altitude", "GroundLocation.itrs_x"])
prop("C11", "Azimuth and elevation have the right range and meaning everywhere",
 "For every ground location off the poles and every target, elevation lies in [-90, 90] degrees and is 90 degrees minus the angle between the line of sight and the direction from the Earth's centre to the location; azimuth lies in [0, 360) degrees and is the angle of the line of sight's horizontal part clockwise from north (east is 90), in both hemispheres and on the equator. A target exactly overhead or underfoot has elevation +90 or -90, never NaN.",
 "all locations, all target positions, arrays of any length", "The azimuth/elevation tests use northern-hemisphere sites and absent files.",
 ["celest/coordinates/transforms.py"], [("_azimuth, _elevation, _get_ang", "celest/coordinates/transforms.py")], ["Coordinate.convert_to(AzEl, location)"])
prop("C12", "LVLH frame is the proper orbital frame",
 "For every position and velocity that are not parallel, the LVLH axes form a right-handed orthonormal triad with z along the negative position and y along the negative orbit normal: the satellite's own LVLH position is (0, 0, -|r|), its LVLH velocity has zero y component and positive x component, and lengths are preserved. Times, units and number of samples are carried over and the inputs are not modified.",
 "all non-parallel position/velocity pairs, arrays of any length, any units", "Tests compare single rows from absent files.",
 ["celest/coordinates/transforms.py"], [("_gcrs_to_lvlh, _gcrs_to_lvlh_matrix", "celest/coordinates/transforms.py")], ["_gcrs_to_lvlh", "Satellite.attitude"])
prop("C13", "Frame conversion returns the requested frame, faithfully",
 "Converting a GCRS, ITRS or WGS84 position to any of GCRS, ITRS, WGS84 or AzEl returns an object of the requested frame with the same times and number of samples, equal to the composition of the elementary conversions through ITRS; converting to the frame it is already in returns the same data. Converting to AzEl uses the given location and raises ValueError when none is given; building a coordinate from anything else raises ValueError.",
 "all frames, targets, data", "Tests exercise a few of the twelve pairs.",
 ["celest/coordinates/coordinate.py", "celest/coordinates/transforms.py"], [("dispatch", "celest/coordinates/coordinate.py")], ["Coordinate.convert_to", "Coordinate"])
prop("C14", "Frames hold consistent one-dimensional data",
 "Every coordinate frame object (GCRS, ITRS, LVLH, WGS84, AzEl, attitude) can only be built from one-dimensional time and coordinate arrays of one common length; any other shape or any single mismatching length raises ValueError. What is stored is returned unchanged under the right name with the right unit, and export to an array in a requested unit gives one row per time and the coordinates in order, in that unit.",
 "all array shapes and contents, all units", "Tests try one mismatch per class; the pairwise combinations are not covered.",
 ["celest/coordinates/frames/base_positions.py", "celest/coordinates/frames/gcrs.py", "celest/coordinates/frames/itrs.py", "celest/coordinates/frames/lvlh.py", "celest/coordinates/frames/wgs84.py", "celest/coordinates/frames/azel.py", "celest/coordinates/frames/attitude.py"],
 [("shape validation", "celest/coordinates/frames/base_positions.py")], ["frame constructors", "x/y/z properties", "to_numpy"])
prop("C15", "Ground locations are validated and lie on the ellipsoid model",
 "A ground location is accepted exactly when its latitude is within [-90, 90] degrees and its longitude within [-180, 180] degrees, in whatever angular unit they are given, and otherwise ValueError is raised. Its geocentric radius at zero height lies between the WGS84 minor and major axes, equals them at the poles and equator, and grows one for one with height.",
 "all latitudes, longitudes, heights, units", "Tests use a few degree values.",
 ["celest/coordinates/ground_location.py"], [("constructor, radius", "celest/coordinates/ground_location.py")], ["GroundLocation"])
prop("C16", "Position strings are valid sexagesimal notation of the value",
 "The textual form of a latitude or longitude gives degrees, minutes below 60 and seconds below 60 (two decimals), never 60 of either, whose value differs from the angle's magnitude by at most half a hundredth of an arc second, in any angular unit, followed by N/S or E/W according to the sign; the height follows with two decimals and its unit.",
 "all angles in range, all units", "Tests format a few values; the carry cases are rare.",
 ["celest/angle_strings.py"], [("_get_sexagesimal_string", "celest/angle_strings.py")], ["str(GroundLocation)"])
prop("C17", "Distance and look angle follow Euclidean geometry",
 "The distance from a satellite to a ground location is the Euclidean distance between their ITRS positions at each time, whatever unit they are stored in. The look angle is the angle at the satellite between its direction to the Earth's centre and its direction to the location: always in [0, 180] degrees, zero when the satellite is straight overhead, and never NaN for distinct points.",
 "all positions, locations, units, arrays of any length", "Tests sample fixed rows from absent files.",
 ["celest/satellite.py", "celest/coordinates/transforms.py"], [("distance, look_angle", "celest/satellite.py"), ("_get_ang", "celest/coordinates/transforms.py")], ["Satellite.distance", "Satellite.look_angle"])
prop("C18", "Attitude angles point the satellite at the target",
 "Whenever the target is not exactly behind the satellite, the roll, pitch and yaw angles describe the shortest rotation taking the satellite's nadir to its line of sight to the ground location: in LVLH axes the unit line of sight is (-cos(roll)sin(pitch), sin(roll), cos(roll)cos(pitch)) and yaw adds no twist; all three angles vanish when the location is straight below. There is one attitude per satellite time, tagged with those times and that location; velocity is required.",
 "all satellite states and locations, any input units, arrays of any length", "Tests compare with tabulated data that cannot be loaded.",
 ["celest/satellite.py"], [("attitude", "celest/satellite.py")], ["Satellite.attitude"])
prop("C19", "Visible time windows are exactly the visibility intervals",
 "The visible time windows of a satellite and location are, in increasing time order, one per maximal run of consecutive samples whose elevation exceeds the threshold and whose lighting condition (Sun above the horizon for day, below for night, anything for anytime) holds: each window ends at the run's last sample and starts at the sample just before its first (or at the first sample if there is none), and there are none when no sample qualifies. Thresholds outside [0, 90] degrees, unknown lighting and satellites without velocity are rejected.",
 "all elevation and lighting patterns, thresholds, sample counts", "Tests use one orbit; patterns starting or ending visible, single-sample passes, and no visibility are not sampled.",
 ["celest/encounter/window_generator.py"], [("generate_vtws", "celest/encounter/window_generator.py")], ["generate_vtws"])
prop("C20", "Window collections are homogeneous and iterate faithfully",
 "A window collection holds only visible time windows or only observation windows, in insertion order, and rejects anything else without changing its content. Every iteration over it, including nested iterations, iterations after an abandoned one, and iterations of a collection that was extended in between, yields every window exactly once in order, consistently with length and indexing.",
 "all sequences of additions and iterations", "Tests run one complete iteration.",
 ["celest/encounter/window_handling.py"], [("iteration protocol, add_window", "celest/encounter/window_handling.py")], ["WindowCollection"], ("inputs", "histories"))
prop("C21", "Every schedule the operators produce is feasible",
 "Starting from an empty or feasible set of requests, whatever sequence of insertion, removal and sorting steps is run, every scheduled request occupies a start and duration that lie strictly inside the visible time window recorded for it, end before its deadline, meet its minimum image quality and last exactly the requested duration, and no two scheduled requests overlap in time.",
 "all request sets, window sets, operator sequences", "Tests run single operators on ten fixed requests and never check pairwise overlaps.",
 ["celest/schedule/insertion_operators.py", "celest/schedule/request_handler.py", "celest/schedule/removal_operators.py", "celest/schedule/scheduling_utils.py"],
 [("insert_first_n_requests and its guards", "celest/schedule/insertion_operators.py"), ("sorting", "celest/schedule/request_handler.py")], ["Scheduler.generate", "insertion operators"], ("inputs", "histories"))
prop("C22", "Request bookkeeping is exact under every operator",
 "The recorded number of scheduled requests always equals the number of requests marked scheduled; an unscheduled request has no window, start or duration recorded. Scheduling, removal, insertion and every sort keep the same requests (each exactly once, with its own location, deadline, duration, priority, quality, look angle and set of windows), and sorting requests orders them by the key it is named for.",
 "all request sets and operator sequences", "Tests check counts after single operators on one fixture.",
 ["celest/schedule/request_handler.py", "celest/schedule/removal_operators.py", "celest/schedule/insertion_operators.py"],
 [("RequestHandler", "celest/schedule/request_handler.py")], ["RequestHandler"], ("inputs", "histories"))
prop("C23", "Removal takes away exactly the requested number",
 "Each removal operator (random, priority, opportunity, conflict), asked to remove n requests from a schedule with s scheduled, leaves exactly max(s - n, 0) scheduled, leaves the entries of the others untouched, and terminates without error wherever the scheduled requests are; any scheduled request can be chosen by random removal, and the ordered ones remove those first in their order.",
 "all schedules, all n >= 0, all random choices", "Tests remove one or two of ten fully scheduled requests.",
 ["celest/schedule/removal_operators.py"], [("removal operators", "celest/schedule/removal_operators.py")], ["removal operators"])
prop("C24", "Insertion adds at most n requests and disturbs nothing",
 "Each insertion operator, asked to insert n requests, schedules at most n additional requests and never unschedules or moves one already scheduled. A request is left unscheduled only if n were scheduled or none of its windows offers a start (centred in the window, or at the requested look angle) that satisfies window, deadline, quality and conflict conditions.",
 "all request sets, all n >= 0", "Tests insert into one fixture and check counts.",
 ["celest/schedule/insertion_operators.py"], [("insert_first_n_requests", "celest/schedule/insertion_operators.py")], ["insertion operators"])
prop("C25", "The search never returns a worse schedule and never fails",
 "For every number of iterations, annealing coefficient and decay parameter in [0, 1] and every outcome of the random choices, the search terminates without error, returns a solution whose cost is at most that of every solution it has accepted or generated and of the initial one, and leaves the initial solution unmodified. Operator selection probabilities are non-negative and sum to one, also when every weight has decayed to zero, and an improving candidate is always accepted.",
 "all parameters, cost sequences and random outcomes, including zero-cost initial solutions", "Tests solve one toy problem with friendly parameters.",
 ["celest/schedule/alns.py"], [("solve, _accept, _get_probabilities", "celest/schedule/alns.py")], ["ALNS.solve", "Scheduler.generate"], ("inputs", "histories"))
prop("C26", "Cost and completeness account for every request",
 "The cost of a request set is minus the sum of the priorities of all scheduled requests, and the set is complete exactly when every request in it is scheduled. Iterating a request set visits each request exactly once in order, also in nested iterations.",
 "all request sets of any size", "Tests use one fixture in which the last request does not matter.",
 ["celest/schedule/scheduling_utils.py", "celest/schedule/request_handler.py"], [("cost, is_complete", "celest/schedule/scheduling_utils.py"), ("iteration", "celest/schedule/request_handler.py")], ["cost", "is_complete", "for request in handler"])
prop("C27", "The exported schedule lists each scheduled request once",
 "The generated schedule contains exactly one observation window per scheduled request, in request order, with that request's start time, duration and location, and an attitude consisting of the single sample nearest to the start time from the attitude of the window it was scheduled in. Unscheduled requests contribute nothing.",
 "all solved request sets", "Tests only count windows, and those counts need absent data.",
 ["celest/schedule/scheduler.py"], [("window export", "celest/schedule/scheduler.py")], ["Scheduler.generate"])
prop("C28", "Window overlap is symmetric and conflict ordering follows it",
 "The overlap of two visible time windows is the length of the intersection of their time intervals: symmetric, never negative, at most either window's length, and zero when they are disjoint. The conflict degree of a window is the mean overlap with all windows of all requests it meets, and sorting by conflict degree orders requests (scheduled ones by decreasing degree, unscheduled last) or each request's windows (increasing) by it without failing on ties or unscheduled requests.",
 "all pairs and sets of windows", "Tests check three relative positions and one fixture.",
 ["celest/schedule/request_handler.py"], [("overlap and conflict degree", "celest/schedule/request_handler.py")], ["RequestHandler sorting"])
prop("C29", "Look-angle search finds a crossing inside the window",
 "Searching a look-angle series for a desired angle between two sample times returns the time of a sample from that interval such that the series crosses the desired angle between it and the next sample (or meets it there), and returns nothing exactly when the angles at both ends lie strictly on the same side of the desired one. The search always terminates, for any angular unit.",
 "all series, desired angles and intervals", "Tests use two short series.",
 ["celest/schedule/insertion_operators.py"], [("_look_angle_time", "celest/schedule/insertion_operators.py")], ["insertion with look angle"])
prop("C30", "Image quality ranks starts by distance from mid-window",
 "For a start inside a visible time window the image quality is an integer from 1 to 10, is 10 only at the middle of the window, never increases with distance from the middle and is symmetric about it; a start is acceptable for a request exactly when its quality reaches the request's minimum.",
 "all windows and starts", "Tests evaluate a few points of one window.",
 ["celest/schedule/insertion_operators.py"], [("image_quality", "celest/schedule/insertion_operators.py")], ["insertion operators"])
prop("C31", "Text export is a faithful aligned table",
 "Saving data writes one text file whose name ends in .txt exactly once more than needed never, containing the header with an underline of equal length, each layer's heading, 'label: value' parameters and (for data with at least one sample) a table with one column per data item, labelled with its unit, and one row per sample in order, each entry formatted with the requested format. All cells of a column, its label and its underline have the same width, and layers are separated by one blank line.",
 "all headers, layers, column contents of any sign and length", "Tests save one small table of positive values.",
 ["celest/file_save.py", "celest/encounter/window_handling.py"], [("TextFileWriter", "celest/file_save.py")], ["save_text_file"])
P31 = P[-1]
prop("C32", "Requests are recorded as they were asked for",
 "Adding a request to a scheduler records exactly one more request, after the earlier ones and without touching them: not scheduled, with the given location, deadline (in days of the JD2000 epoch), duration (in seconds), priority, quality and look angle (in degrees, zero included; none if none is given), and with the visible time windows that the scheduler's satellite has for that location, the scheduler's visibility threshold and the requested lighting (daytime by default). A scheduler built on anything but a satellite and a numeric threshold is rejected with TypeError.",
 "all requests and all numbers of earlier requests", "Tests that add requests need ephemeris data that is absent.",
 ["celest/schedule/scheduler.py", "celest/schedule/request_handler.py"], [("Scheduler.add_request", "celest/schedule/scheduler.py"), ("RequestHandler.add_request", "celest/schedule/request_handler.py")], ["Scheduler.add_request"])
P31["statement"] = P31["statement"].replace("whose name ends in .txt exactly once more than needed never, containing", "(the given name, with .txt appended only if it does not already end so) containing")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
