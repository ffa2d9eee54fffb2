"""Every property: what it says, where it is anchored, how it is decided.

tools/gen.py writes properties.jsonl and MANIFEST.json from this table.
"""
DEM = "dany/dem_conditioning.py"
FLOW = "dany/flow_directions.py"
STRM = "dany/stream_util.py"
ALL = [DEM, FLOW, STRM]

P = {}
NA = {}
NAP = {}


def prop(id, title, statement, over, quant, why, mech, technique="", how="", note="", files=ALL):
    P[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, files=files,
                 technique=technique, how=how, note=note)


COMMON = ("Abstract interpretation of the package's source (parsed afresh on every run) over symbolic grids of each of the three types with an "
          "arbitrary number of cells, symbolic arrays with arbitrary contents, and every bounded history of public calls the tour enumerates. ")
prop("C01", "Operations never modify what the caller passed in",
     "No public operation or object construction changes any array, list, dictionary or table given to it as an argument. "
     "This covers elevation arrays, stream masks, stream arrays, basin boundaries, threshold arrays, terminal cell lists, points, connectivity graphs, and reach and segment tables.",
     ["inputs", "histories"], "for every argument of every public operation, after every history of earlier calls",
     "Tests compare results with stored answers; hardly any looks at its inputs afterwards, and only a handful of input types, shapes and memory layouts are tried.",
     [("conditioning copies the dem", DEM + ":fill_sinks, fill_nan_values"), ("own copies of fdir and streams", FLOW + ":FlowDirections, " + STRM + ":StreamBase")],
     "points-to and ownership analysis: every store's target memory is traced to who allocated it",
     COMMON + "Every store (element, slice, in-place operator, attribute, list and dictionary update, mutating library call) reached is resolved to the memory it may write; "
     "memory owned by an argument, including anything reachable through views and nested containers, must never be among the targets.",
     "alarms only on stores whose resolved target is caller-owned memory.")

prop("C02", "The model grid is read-only apart from its top",
     "No operation modifies the model grid it is given or the neighbour lists the grid hands out, except that building a stream object replaces the grid's top by a private copy of the elevations of the flow direction object, in the shape of a grid layer. "
     "Nothing other than building a stream object sets the top.",
     ["inputs", "histories"], "for every grid type, every operation and every history",
     "Tests never compare the grid before and after a call, and one grid object is shared by all objects a user builds.",
     [("neighbour lists are padded on a copy", FLOW + ":FlowDirections.__init__, _fill_irregular_neighbor_array"), ("top is set from the dem", STRM + ":Sfr6/Sfr2005/PrmsStreams.__init__")],
     "points-to and ownership analysis of stores into grid-owned memory",
     COMMON + "Stores are resolved to their target memory; any store into the grid, its arrays or the neighbour lists it returned is a violation, except setting the top while a stream object is built; that top must not share memory with the flow direction object, must depend on the elevations and must have the layer shape.",
     "alarms only on stores whose resolved target belongs to the grid.")

prop("C03", "Results and arguments are never shared with internal state",
     "Every result handed to the user is memory of its own: changing it cannot change what the object returns later, nor any other result. "
     "Likewise objects keep copies of their arguments, so that changing an argument after a call cannot change later results.",
     ["histories"], "for every result and every argument of every public operation, at every point of a history",
     "A shared buffer only shows when the user edits a result between two calls; no test does that.",
     [("accessors copy", FLOW + ":flow_direction_array, dem, area; " + STRM + ":stream_array"), ("graphs are copied", STRM + ":_mf6_stream_connectivity, _mf2005_stream_connectivity"), ("explicit inputs are copied", STRM + ":set_stream_array, get_pygsflow_builder_object")],
     "alias analysis (may-share over an abstract heap with views and copies distinguished)",
     COMMON + "After each operation the memory reachable from the result is intersected with the memory reachable from every other object, argument and earlier result, and the memory reachable from the objects with that of the arguments; any intersection is a violation.",
     "whether library calls return views or copies is part of the trusted models.")

prop("C04", "Neighbours are the cells sharing a vertex, whatever the grid cached",
     "Sink filling, NaN filling, flow directions and control point thresholds use the neighbours that share at least one vertex. "
     "The result does not depend on which neighbours (for example those sharing an edge) were computed or cached on the grid before.",
     ["inputs", "histories"], "for every grid type and every state of the grid's neighbour cache",
     "The neighbour cache is invisible state of the grid; tests build fresh grids and always meet the same cache.",
     [("neighbour queries", DEM + ":_priority_flood, _flood_and_drain_fill, fill_nan_values; " + FLOW + ":FlowDirections.__init__; " + STRM + ":StreamBase.__init__")],
     "typestate of the grid's neighbour cache plus dependency tracking",
     COMMON + "The grid's cache is a typestate (empty, edge neighbours, vertex neighbours); each neighbour query must request vertex neighbours with a reset, from every cache state, and no result may depend on neighbours of another kind.",
     "the behaviour of flopy's neighbours(method, reset) is a trusted model.")

prop("C05", "A newer computation replaces everything derived from an older one",
     "After flow directions are recomputed, or streams are delineated or set anew, every later result follows from the new inputs alone. "
     "Nothing remembered from the earlier computation (reverse directions, connectivity graphs, segment numbers, terminal cells, thresholds) shows up in it.",
     ["histories"], "for every pair of computations on one object with any queries in between",
     "Tests compute each object once; stale caches only show on a second computation after a query.",
     [("caches dropped on recompute", FLOW + ":flow_directions; " + STRM + ":_clear_connectivity")],
     "dependency (information flow) analysis over call histories",
     COMMON + "Histories 'compute, query, compute again with other inputs, query' are analysed; the dependency set of each later result must contain no input of the superseded computation.",
     "dependencies are tracked through data and control flow and joined over branches.")

prop("C06", "Inputs given explicitly are the ones used",
     "When a stream array, connectivity graph, or reach, segment or unsaturated-zone table is passed to an operation, the result is computed from it and not from what the object has stored. "
     "Without an explicit input, each result follows from the one stored stream array, never from a mixture of two.",
     ["inputs", "histories"], "for every operation taking an optional input, after every history",
     "Tests pass explicit inputs only to fresh objects, where stored and given arrays agree.",
     [("explicit versus stored arrays", STRM + ":reach_data, segment_data, irunbnd, get_cascades, packagedata, connectiondata, get_pygsflow_builder_object")],
     "dependency (information flow) analysis",
     COMMON + "For each operation given an explicit input, the dependency set of the result must contain that input and no stored stream array; otherwise it must contain exactly one stream array.",
     "dependencies are tracked through data and control flow.")

prop("C07", "No operation's stack depth grows with the data",
     "No operation recurses: the depth of the call stack is bounded independently of the number of cells, the length of a stream or the size of a network. "
     "Long streams therefore never exhaust the recursion limit.",
     ["inputs"], "for every grid size and every stream network",
     "The recursion limit is only reached by streams of about a thousand cells; test grids are smaller.",
     [("topological sort", STRM + ":Topology._sort_util")],
     "call graph analysis: no cycle through the package's own functions",
     COMMON + "Call chains with resolved receivers and callables are followed; a function re-entered while active is a violation.",
     "callbacks into the package from library code are covered as far as the models pass callables on.")

prop("C09", "Sink and inactive markers are never taken for cell numbers",
     "The negative values that mark a cell without a downstream cell, an unresolved cell, or a cell outside the basin are never used as a cell number to look up or assign anything. "
     "They do not appear in any result other than the flow direction array.",
     ["inputs"], "for every flow direction array with sinks and every basin boundary",
     "A negative marker indexes silently from the end of an array; it only matters where sinks or inactive cells exist, which the sample grids barely have.",
     [("sinks guarded", FLOW + ":_reverse_flow_directions, get_nidp, flow_accumulation, get_subbasins, _drainage_cells; " + STRM + ":_mf6_stream_connectivity, _build_many_to_one_cascades, _build_many_to_many_cascades")],
     "value-set dataflow: marker constants tracked from definition to index sites through guards and masks",
     COMMON + "Negative constants stored into cell-valued arrays are tracked as markers; comparisons, membership tests and masked stores remove them; an index expression or result that can still hold one is a violation.",
     "alarms only where a marker reaches an index or result along an analysed path.")

prop("C08", "NaN filling replaces NaN cells by neighbour statistics and nothing else",
     "Filling NaN values changes only cells that are NaN: every elevation that is given comes back as it was. "
     "A filled cell holds the mean (the default), median, minimum or maximum, as asked for, of the elevations of the cells sharing a vertex with it, whatever other NaN cells lie among them.",
     ["inputs"], "for every pattern of NaN cells, method and grid",
     "One test fills one pattern; overwritten valid cells, NaN neighbours spoiling a statistic or a wrong default need other patterns and methods.",
     [("NaN filling", DEM + ":fill_nan_values")],
     "store-by-store analysis with guard provenance (masks, filters and facts that reach each position)",
     COMMON + "Every store into the filled array is an obligation: its position must come from a NaN mask or guard, and its value must be the requested statistic over the vertex-sharing neighbours, ignoring NaN and not NaN itself, for each method and the default.",
     "whether every reachable NaN cell ends up filled is not decided; stores whose guard is not understood are counted as undetermined.")

prop("C10", "Sink filling never lowers an elevation",
     "For every elevation array, stream mask and non-negative fill increment, each elevation returned by sink filling (all methods, with and without streams) is at least the original elevation of the same cell. "
     "Conditioning raises cells; it never digs.",
     ["inputs"], "for every cell of every elevation array, grid type, method, stream mask and fill increment",
     "Tests compare stored fills of one grid; a wrong guard or increment lowers cells only in depressions of particular shapes, along streams or at exact ties.",
     [("guarded raises", DEM + ":_priority_flood (cell raised to its spill level, pit along a stream raised to its lowest neighbour), _inner_flood_and_drain_fill (water level lowered to the ground or to a neighbour's level)")],
     "order analysis (difference constraints) at every store into the filled array",
     COMMON + "By induction over the stores: the array starts as a copy of the elevations (or above any elevation); at every store the comparisons in force on the path (guards, loop filters, masks without hits, minima and maxima of lists) must imply that the stored level is at least the present one or the original elevation of that cell. "
     "A store whose guards are missing, reversed, or short of an increment is a violation.",
     "a store whose order cannot be derived for lack of understanding is undetermined; NaN elevations are outside the order.")

prop("C12", "Storage never truncates the values put into it",
     "Real-valued quantities are never stored in integer or boolean memory, whatever the type of the arrays the user passes (integer elevations, boolean, integer or real stream arrays, integer thresholds). "
     "Reach and segment numbers are never stored in boolean memory.",
     ["inputs"], "for every element type of every array argument",
     "Tests use real elevations and integer stream arrays only; truncation is silent.",
     [("working copies", DEM + ":_priority_flood, fill_nan_values; " + STRM + ":threshold_from_control_points, _mf6_stream_connectivity, _mf2005_stream_connectivity")],
     "element-type inference at every array store",
     COMMON + "Tours are repeated with integer elevations and boolean, integer and real stream arrays; at each store the inferred kind of the value is compared with the element type of the memory, including types inherited from the caller by copying.",
     "a conversion written explicitly by the program is not a violation at the store.")

prop("C13", "Every operation works on every grid type",
     "Conditioning, flow directions, accumulation, watersheds, stream delineation, connectivity, stream vectors, control points, cascades and MODFLOW 6 package data complete on structured, vertex and unstructured grids. "
     "None fails because of the type of the grid.",
     ["configurations", "inputs"], "for every grid type, size and history (reach data, which is row and column based, is structured only)",
     "Only some combinations of grid type and operation are tested, each on one grid.",
     [("shape per grid type", FLOW + ":FlowDirections.__init__; " + STRM + ":StreamBase.__init__, packagedata, get_subbasins")],
     "abstract interpretation with symbolic shapes; definite type, attribute and shape errors",
     COMMON + "Each operation is run on each grid type; an attribute the grid type lacks, an impossible unpacking, reshape, index arity or broadcast, or an operation with no completing path is a violation.",
     "only errors that are certain on an analysed path are reported.")

prop("C14", "Per-cell results have the shape of a grid layer",
     "Every per-cell result has one entry per cell, in the shape of a grid layer (rows by columns, or one entry per cell). "
     "Cell areas, routed lengths, numbers of inflowing cells and direction vectors come as flat arrays with one entry per cell.",
     ["inputs", "configurations"], "for every grid type and size",
     "Tests run on one grid per type, where a wrong shape with equal size goes unnoticed.",
     [("reshape to the layer shape", ", ".join(ALL))],
     "symbolic shape analysis (polynomial array dimensions)",
     COMMON + "Array shapes are tuples of polynomials in the symbolic numbers of rows, columns, layers and cells; the shape of each result must equal the documented one.",
     "shapes that cannot be resolved are counted as undetermined, not as violations.")

prop("C15", "Invalid requests are refused and change nothing",
     "Operations that need streams or connectivity refuse to run before any stream array is known; arrays of the wrong size, points without exactly two coordinates, row and column terminal cells on grids without rows, unknown builder keywords, and several lowest cells (when the check is on) are refused with an error. "
     "A refused request leaves all objects, the grid and the arguments unchanged.",
     ["inputs", "histories"], "for every invalid request listed, at every point of a history",
     "Few error paths are tested, and none for what it leaves behind.",
     [("checks before effects", FLOW + ":FlowDirections.__init__, flow_directions, get_watershed_boundary, get_subbasins; " + STRM + ":set_stream_array, delineate_streams, stream_array and the stream operations")],
     "abstract interpretation of error paths with heap comparison",
     COMMON + "Each invalid request is analysed from several histories: it must have no completing path, and at each raise the abstract heap reachable by the client must equal the one at the call.",
     "which requests are invalid is listed in sa/rules_flow.py.")

prop("C16", "Streams are the cells that reach the threshold inside the boundary",
     "Delineated streams are exactly the cells whose flow accumulation is at least the contributing area given (one value, or one value per cell) and that are not zero in the basin boundary, if one is given. "
     "The object stores and returns that array, or the array set by the user exactly as it was set. "
     "For threshold arrays from control points, the cell a point lies in is mapped, and from a mapped cell, of the cells draining into it, the one with the largest accumulation is mapped, until none drains in. Every mapped cell gets a threshold no larger than its own accumulation, so that it becomes a stream; every other cell gets the threshold given.",
     ["inputs", "configurations"], "for every accumulation, threshold, boundary and stream array, on every grid type and stream class",
     "Tests compare stored arrays for one threshold each; exact ties, boundaries with other numbers than 0 and 1, thresholds per cell and stored versus returned arrays are not sampled.",
     [("delineation", STRM + ":delineate_streams, set_stream_array, stream_array, threshold_from_control_points")],
     "value numbering of whole-array expressions, decided by cases on the order of their operands",
     COMMON + "The analysis derives each cell of the result as a closed expression over accumulation, threshold and boundary; it must give the documented value in each case of accumulation below, at or above the threshold and boundary zero or not, and must combine cells of the same position. At each store into a control point threshold array the stored value must be bounded by the accumulation of the same cell, and the chain of lists its cell comes through (worklist, inflow list, neighbours) must select the inflow of largest accumulation among all neighbours that drain in.",
     "expressions the analysis cannot derive in closed form (cell by cell loops) are counted as undetermined.")

prop("C20", "Identifiers count from their documented base",
     "Cell, row, column and layer numbers in MODFLOW 6 package and connection data and in reach data count from zero. "
     "Reach, segment and stream identifiers in connectivity graphs, reach and segment data, and the HRU numbers of cascades count from one; zero in an outflow segment, stream segment, runoff or subbasin column means none. "
     "A column holding cell numbers holds numbers of its own kind (rows are never columns, layers or nodes).",
     ["inputs", "configurations"], "for every table, graph and per-cell identifier array, on every grid type, built by this package or through the gsflow builder",
     "An off-by-one identifier is a valid number; tests compare stored tables of a few networks and check no other table at all.",
     [("identifiers assigned", STRM + ":_mf6_stream_connectivity, _mf2005_stream_connectivity, packagedata, connectiondata, reach_data, segment_data, irunbnd, _build_many_to_one_cascades, _build_many_to_many_cascades; " + FLOW + ":get_subbasins")],
     "interval and unit (index kind and base) analysis of identifier values",
     COMMON + "Every number carries its interval and, where it is an index of a grid axis, the axis and the base it counts from; both are tracked through arithmetic, storage and tables. At each identifier column of each result, the axis and the base must be the documented ones and the smallest value must not lie above the base or one below it.",
     "lower bounds further from the base, or of related operands, are counted as undetermined.")

prop("C24", "Results stay within their published range",
     "Aspect lies between 0 and 360 degrees, direction vector components between -1 and 1, fractions of many-to-one cascades are 1 and of many-to-many cascades not negative. "
     "Areas, routed lengths, reach lengths and accumulation are not negative, numbers of inflowing cells and subbasin numbers not below 0, flow directions not below -2; watersheds and delineated streams hold 0 and 1 only. "
     "Aspect, slope, area, direction vectors and cell counts are never NaN.",
     ["inputs"], "for every elevation array, grid, cell type (including sinks, flats and inactive cells) and history",
     "The formulas are checked on a few cells; quadrant errors, sign errors, zero lengths and counters driven below zero need other cells.",
     [("aspect, vectors and slope", FLOW + ":get_aspect, vectors, slope, hru_len, area, get_nidp, flow_accumulation, get_watershed_boundary, get_subbasins; " + STRM + ":delineate_streams, reach_data, packagedata, _build_many_to_one_cascades, _build_many_to_many_cascades")],
     "interval analysis with NaN tracking",
     COMMON + "Every number carries an interval and whether it may be NaN, refined by comparisons, masks and guards and widened at loops; the interval of each result must lie in the published one.",
     "bounds of arithmetic on related operands prove nothing and are counted as undetermined.")

prop("C21", "Results are determined by the inputs",
     "No result depends on randomness, time, object identity, hash or set iteration order, environment, or on other objects created or used before in the same process. "
     "Repeating the same calls on fresh objects gives the same results.",
     ["histories", "configurations"], "for every public operation and every sequence of objects in one process",
     "Two runs of a test in fresh processes agree even when hidden module or class state leaks between objects.",
     [("no module or class state", ", ".join(ALL))],
     "dependency analysis with nondeterminism sources and a second-object non-interference run",
     COMMON + "Dependency labels for nondeterministic sources must not reach any result; a second independent series of objects is analysed after a first one, and none of its results may depend on the first one's inputs.",
     "which library calls are nondeterministic is part of the trusted models.")

prop("C27", "Results react to their documented inputs and options only",
     "Each result can react to every input and option documented for it and to nothing else: for example cell areas never depend on elevations, the complete fill method ignores the fill increment, accumulation by cells ignores cell sizes, and no flow result depends on the grid's own top. "
     "Options selecting a method, grouping of segments, many-to-many cascades, defaults or expanded cell ids all take effect.",
     ["inputs", "configurations"], "for every input and option of every public operation",
     "A silently ignored option or a wrong source array gives plausible numbers; tests only sample some option values on some operations.",
     [("options and sources", ", ".join(ALL))],
     "dependency (information flow) analysis against a table of required and forbidden dependencies",
     COMMON + "The dependency set of each result is compared with a table of inputs it must and must not depend on; options are analysed as unknown values that must reach the result.",
     "the table is in sa/rules_flow.py; where two sources are interchangeable it states nothing.")

prop("C28", "Slope, aspect and direction vectors describe the step to the cell drained to",
     "For a cell that drains to another cell, the slope is the drop in elevation over the distance between the two cell centres, the aspect is the angle of the step between the centres, counter-clockwise from east, in degrees from 0 up to 360, and the direction vector is the step of length one. "
     "The slope of a cell that drains to itself, of a sink and of an inactive cell is 0.",
     ["inputs"], "for every elevation array, flow direction and grid geometry, on every grid type, before and after flow accumulation",
     "Tests check no aspect or vector and compare the slopes of one grid; steps in other quadrants, upward steps, draining to cell 0 and sinks need other grids.",
     [("step to the cell drained to", FLOW + ":_drainage_cells, slope, aspect, vectors")],
     "value numbering of whole-array expressions, evaluated at representative cells",
     COMMON + "The analysis derives each cell of the result as one closed expression over elevations, cell centres and flow directions; the expression must agree with the documented formula for steps in every quadrant and along the axes, downward, level and upward, and at sinks and inactive cells.",
     "expressions the analysis cannot derive in closed form (cell by cell loops) are counted as undetermined.", [FLOW])

prop("C11", "Outlets, terminal cells and cells without an elevation drain to themselves",
     "In every flow direction array, the cell (or, where several are allowed, every cell) of lowest elevation, every terminal cell given by its number or by row and column, and every cell without an elevation hold their own number. "
     "Resolving flats never makes such a cell drain elsewhere.",
     ["inputs"], "for every elevation array, with missing elevations and ties, every list of terminal cells, and every way flats are resolved, on every grid type",
     "Tests have one outlet at the edge, no terminal cells inside a flat and no missing elevations.",
     [("fixed cells", FLOW + ":FlowDirections.__init__, flow_directions, _calculate_flowcell")],
     "last-write analysis of the direction array in abstract execution order, with the derived positions evaluated on a representative grid",
     COMMON + "For each grid type, elevation check option and kind of terminal cells, every store into the direction array is recorded in order with its path facts. After the last store whose position is not a known cell (flats), the lowest cells (missing elevations ignored, ties included) and the terminal cells must be stored with their own number; stores for the cell at hand must exclude cells without an elevation, except the one of their own number.",
     "positions are read off the derived expressions on one grid of 20 cells with ties and missing elevations; stores guarded by conditions on the cell are counted as undetermined.", [FLOW])

prop("C83", "Each cell drains to its steepest downslope neighbour",
     "Where one of a cell's neighbours has the steepest downward slope, the cell drains to that neighbour: the slope is the difference in elevation over the distance between the cell centres, and rises smaller than the burn threshold count as level. "
     "Candidates to drain to are exactly the neighbours of that cell with the lowest slope; neighbours without an elevation and the padding of the neighbour table are never among them.",
     ["inputs"], "for every elevation array, burn threshold and grid geometry, on every grid type",
     "Tests compare stored arrays of regular grids, where distances differ little and ties, missing elevations and irregular cells hardly occur.",
     [("slope choice", FLOW + ":_calculate_slopes, _calculate_flowcell")],
     "value numbering of the slope and selection expressions, evaluated at representative neighbourhoods",
     COMMON + "At each store of a neighbour as the cell drained to, the neighbour must come from the cell's own row, and the selection mask it was found with, derived as a closed expression over elevations, cell centres and the neighbour table, must be true for exactly the steepest neighbours in each of a set of representative neighbourhoods.",
     "how ties and flats are resolved is not part of the property; selections the analysis cannot derive are counted as undetermined.", [FLOW])


prop("C18", "Connection data list every connection once at each of its two reaches",
     "In the connection data of a MODFLOW 6 stream network, every reach has one row that starts with its own number, counting from zero. "
     "Where reach A flows into reach B, the row of A holds the number of B negated and the row of B holds the number of A, each exactly once; an outlet and a reach that flows into itself add nothing to any row.",
     ["inputs"], "for every connectivity graph, on every grid type",
     "Tests compare the stored table of one network; the sign of the first reach, outlets and reaches that flow into themselves depend on the numbering.",
     [("connection table", STRM + ":Sfr6.get_connectiondata, connectiondata")],
     "value numbering of table rows, evaluated at representative connections",
     COMMON + "The analysis derives what the code puts on each reach's list, for a general connection of the graph, together with the conditions it is put there under, and how a row is written from the list; at representative connections the entries must be exactly the two of the definition.",
     "how the graph itself is built from flow directions is another property; tables built in ways the analysis cannot derive are counted as undetermined.", [STRM])


prop("C19", "Reach and segment tables describe each reach's own cell and its step downstream",
     "In MODFLOW 6 package data and MODFLOW-2005 reach data, each row holds its reach's own cell (cell id, or node, layer, row and column), the top of that cell, a length of 1.5 times the distance from its centre to the centre of the next reach's cell downstream, and a gradient of the drop between the two cells over that length. "
     "Package data rows carry the reach number counting from zero and the number of its connections; reach data rows the segment and the reach's number in it, where the last reach of a segment steps to the first reach of the segment it flows into and, without one, has 1.5 times the mean of its cell's row and column width as length. "
     "Segment data lists each segment with the segment it flows into, 0 if there is none.",
     ["inputs"], "for every stream network, elevation array and grid geometry, on every grid type",
     "Tests compare the stored tables of one network on one regular grid, where distances, tops and row and column numbers of neighbouring cells are alike.",
     [("package data", STRM + ":Sfr6.packagedata"), ("reach and segment data", STRM + ":Sfr2005.reach_data, segment_data")],
     "value numbering of table rows, evaluated on a representative stream network",
     COMMON + "The analysis derives each field of a general row as one closed expression over the connectivity graph, the stream array, the table of cells, segments and reaches, elevations and cell centres, with the branch conditions it depends on; on a small network with irregular cells each expression must give the defined value for every reach.",
     "the length of MODFLOW 6 outlets (from the sides of the cell), roughness and the other constants are not part of the property; fields the analysis cannot derive are counted as undetermined.", [STRM])


prop("C23", "Builder tables hold the cell tops, limited slopes and the values asked for",
     "With defaults applied, the MODFLOW-2005 builder gives every reach the top of its own cell and the slope down to the next reach's cell: the difference of the two tops over the distance of the two centres, raised to min_slope or lowered to max_slope where it lies outside them; a reach with nothing downstream gets default_slope within the same limits. "
     "The next reach is the one named by outreach or, where that is not set, the next one in the segment, and after the last one the first reach of the segment it flows into. "
     "Every reach or segment parameter named by a keyword holds the value given, also 0, in all rows of the column of that name, and the documented default otherwise; unknown keywords are refused. "
     "Without defaults, tables passed in are handed on as they are.",
     ["inputs", "configurations"], "for every stream network, table passed in, keyword value and grid geometry, on every grid type",
     "Tests build one network with default arguments and check no slope; one-reach segments, segments numbered against the flow, set outreach columns and keyword values need other inputs.",
     [("builder tables", STRM + ":Sfr2005.get_pygsflow_builder_object")],
     "value numbering of table columns, evaluated on representative stream networks",
     COMMON + "The analysis derives each value written to a column of the tables as one closed expression over the tables passed in, elevations, cell centres and keyword values, including what the lookup dictionaries hold; on representative networks, with and without outreach set, carrying out the writes must leave the defined value in every row.",
     "values the analysis cannot derive are counted as undetermined.", [STRM])


prop("C22", "Reach graphs link each stream cell to the cell it drains to",
     "In the connectivity graph of MODFLOW 6 and ungrouped PRMS streams, every stream cell has a reach of its own, and the reaches are numbered from 1 without gaps. "
     "Each reach is linked to the reach of the cell its own cell drains to, whichever cell that is, and to 0 where its cell is a sink or drains to a cell that is no stream cell. "
     "The stream array kept with the graph holds each stream cell's reach number, and 0 everywhere else.",
     ["inputs", "configurations"], "for every stream array, delineated, set or given, and every flow direction array, on every grid type",
     "Tests compare the stored graph of one network, in which no stream cell is a sink, drains to itself or drains to the first cell of the grid.",
     [("reach graph", STRM + ":_mf6_stream_connectivity, Sfr6.get_stream_connectivity, PrmsStreams.get_stream_connectivity, Topology")],
     "value numbering of dictionary entries and array assignments, evaluated on a representative stream network",
     COMMON + "The analysis derives every entry put into a dictionary and every assignment to the stream array as closed expressions with their branch conditions and loops; written out for a network whose cells include sinks, the first cell, a cell draining to itself and cells where -1 and -2 would point, they must give the defined graph and stream array.",
     "the list returned by the topological sort is taken to hold each reach of the sorted graph once, in any order (see C85); graphs the analysis cannot derive are counted as undetermined.", [STRM])


prop("C17", "Cascades follow the flow directions inside the basin, with fractions and stream numbers",
     "The four cascade lists (HRU above, HRU below, fraction, stream number) run in parallel and number HRUs from one; only active cells occur in them. "
     "Many-to-one: each active cell is linked to the cell it drains to, or to itself if it is a sink or would drain out of the grid or of the basin boundary, with fraction 1. "
     "Many-to-many: active stream cells are linked in the same way; every other active cell is linked to each of its active neighbours with a lower elevation, where links carrying 1 % of the slopes or less are dropped and the remaining fractions are proportional to the slopes to these neighbours and sum to one, and each link is listed once. "
     "The stream number of a link is the number the stream array holds at the cell below, and 0 where that is no stream.",
     ["inputs", "configurations"], "for every elevation array, flow direction array, stream network, basin boundary and grid geometry, on every grid type",
     "Tests compare the stored lists of one regular grid; sinks, outlets, shares near the threshold, cells at the boundary and stream numbers that differ from cell to cell need other inputs.",
     [("cascade links", STRM + ":PrmsStreams.get_cascades, _build_many_to_one_cascades, _build_many_to_many_cascades")],
     "value numbering of list contents (what each site puts on which list, for which loop elements, under which conditions), evaluated on a representative network",
     COMMON + "The analysis derives what each store and append puts into the four lists as expressions over flow directions, stream array, boundary, elevations, cell centres and neighbour table, with the loops and conditions it is done under; read off for all cells of a small irregular network, the links must be exactly those of the definition, with their fractions and stream numbers.",
     "how often the many-to-one list repeats a link is not part of the property; lists the analysis cannot derive are counted as undetermined.", [STRM])


def nap(id, title, statement, over, quant, why, mech, reason, files=ALL):
    NAP[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, files=files)
    NA[id] = reason


nap("C81", "Flow directions lead to an outlet, sink or terminal cell",
    "Following flow directions from any cell of a conditioned elevation array reaches the outlet, a sink or a terminal cell; flow never circulates.",
    ["inputs"], "for every conditioned elevation array", "Tests cover a handful of elevation arrays.",
    [("flat resolution", FLOW + ":_calculate_flowcell, _resolve_flats")],
    "depends on runtime elevations and on the order in which flats are resolved; two-cell cycles do occur (known defect, DESIGN.md) and no sound static argument in reach decides for which inputs")
nap("C82", "Accumulation conserves area and cells",
    "The accumulation at the outlets adds up to the total area (or number of cells), and each cell's accumulation is its own amount plus that of the cells draining into it.",
    ["inputs"], "for every acyclic flow direction array", "Tests compare with stored arrays of a few grids.",
    [("accumulation walk", FLOW + ":flow_accumulation")],
    "a loop invariant over a runtime flow network (visiting order, remaining inflow counts); static dataflow has no abstraction for sums over runtime graphs")
nap("C84", "Iterative filling converges to the priority flood surface",
    "The iterative drain method terminates and yields a surface without interior depressions, like the priority flood method.",
    ["inputs"], "for every elevation array and fill increment", "Tests compare one grid.",
    [("iterative fill", DEM + ":_flood_and_drain_fill, _inner_flood_and_drain_fill")],
    "termination and fixpoint equality of a numeric iteration over runtime elevations")
nap("C85", "Reach and segment numbers increase downstream",
    "In every connectivity graph, numbers are 1 to n without gaps and each reach or segment has a smaller number than the one it flows into.",
    ["inputs"], "for every stream network", "Tests compare stored graphs of a few networks.",
    [("topological sort", STRM + ":Topology.sort")],
    "a property of the runtime order produced by a graph sort; not expressible as a static dataflow fact")
nap("C86", "A watershed is exactly the set of cells draining to its pour point",
    "A watershed contains the pour point's cell and exactly the cells whose flow path passes through it.",
    ["inputs"], "for every flow direction array and pour point", "Tests compare stored masks.",
    [("upstream search", FLOW + ":get_watershed_boundary, _reverse_flow_directions")],
    "reachability over a runtime graph; needs an inductive loop invariant that static dataflow cannot supply")
nap("C87", "Many-to-one cascades list each link once",
    "Each landscape cell contributes exactly one cascade link in the many-to-one table.",
    ["inputs"], "for every flow direction array", "The stored answer of an existing test repeats links.",
    [("many to one cascades", STRM + ":_build_many_to_one_cascades")],
    "multiplicity of runtime table rows; and the code repeats each link (the stored answer of a test asserts it), see DESIGN.md")
