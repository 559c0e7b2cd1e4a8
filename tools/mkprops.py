#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
S = "libsrc/geomodelgrids/serial/"
U = "libsrc/geomodelgrids/utils/"
A = "libsrc/geomodelgrids/apps/"
C = "geomodelgrids/create/"

p("P01", "A query returns the trilinear interpolation of the stored grid",
  "For every point inside a model whose surrounding grid values are all valid, a query returns, for each stored value, the trilinear interpolation in the model's logical index space of the eight grid values around the point, taken from the block whose depth range holds the point; at a grid vertex that is the stored value itself. This holds for any block layout, grid size, uniform or variable spacing along any axis, number of values, storage type and chunking.",
  ["inputs", "configurations"],
  "all valid single-model files (1-4 blocks; x, y, z axes each uniform or given by coordinates; grids both smaller and larger than the internal read window; float32/float64 storage; contiguous or chunked) and all points inside them, including vertices, faces, edges, block interfaces and the outer boundary",
  "The tests query a handful of points in three fixed models whose values are linear or nearly linear and whose blocks fit one read window.",
  [S+"Model.cc", S+"Block.cc", S+"Hyperslab.cc", U+"Indexing.cc", S+"HDF5.cc"],
  [("block selection by logical elevation", "Model::_findBlock"), ("coordinate to index", "Indexing*::getIndex, Block::query"), ("trilinear weights", "_Hyperslab::_interpolate3D")],
  "values returned by Model::query / Query::query")
p("P02", "NODATA at any used grid point yields NODATA for that value only",
  "If a stored value is marked as no-data at any of the eight grid points around a query point, the query returns exactly the NODATA value (-1e20) for that value, whatever its interpolation weight and whatever the storage precision; values whose eight neighbours are all valid are interpolated normally at the same point. No other interior point returns NODATA and none returns a mixture of NODATA and data.",
  ["inputs", "configurations"],
  "all models with any placement of no-data entries per value (isolated, whole layers, all) and all points inside them; points lying on cell faces may use either adjacent cell",
  "The tests have one model without no-data patterns inside a block and only unit-test one synthetic slab.",
  [S+"Hyperslab.cc", S+"Block.cc", S+"Model.cc"],
  [("no-data detection", "_Hyperslab::_interpolate3D")], "values returned by Model::query / Query::query")
p("P03", "Points are placed in a model by CRS, origin, rotation and topography",
  "A point given in any supported input CRS is located in the model by converting it to the model CRS, translating by the origin, rotating by the y-axis azimuth, and stretching vertically so that the top surface maps to the model top (0) and the model bottom stays fixed. The model reports it contains a point exactly when the resulting location is within the closed box [0,dim_x] x [0,dim_y] x [-dim_z,0].",
  ["inputs", "configurations"],
  "all origins, azimuths (including outside 0-360 and negative), dimensions, with or without a top surface, model CRSs (projected, geographic, vertical or horizontal units other than metre) and input CRSs (same or different, any axis order and units), and points inside, outside and near every face",
  "The tests use three origins/azimuths, two CRSs and a few points; they never vary azimuth quadrant, vertical units together with topography, or the boundary.",
  [S+"Model.cc", U+"CRSTransformer.cc", S+"Surface.cc"],
  [("geographic to logical mapping", "Model::_toModelXYZ"), ("containment", "Model::contains")], "Model::contains, Model::query, Query::query status")
p("P04", "Surface elevation queries interpolate the right surface in input units",
  "Inside a model the top-elevation query returns the bilinear interpolation of the top surface at the point, and the topography/bathymetry query that of the topography/bathymetry surface, or of the top surface when the model has none, or 0 when the model has no surface; results are expressed in the vertical units of the input CRS. Outside every model both return the NODATA value.",
  ["inputs", "configurations"],
  "all models with neither, either or both surfaces (uniform or variable coordinates, larger or smaller than the internal read window), any CRS pair, any point",
  "The tests compare a few points on analytic surfaces on one small grid.",
  [S+"Model.cc", S+"Surface.cc", S+"Query.cc", S+"Hyperslab.cc"],
  [("surface lookup and inverse transform", "Model::queryTopElevation, Model::queryTopoBathyElevation"), ("bilinear interpolation", "_Hyperslab::_interpolate2D"), ("outside detection", "Query::query*Elevation")],
  "Query::queryTopElevation, Query::queryTopoBathyElevation, Model::query*Elevation")
p("P05", "Query results do not depend on query history or read window size",
  "The result of a query depends only on the models, the configuration and the point: any sequence of value and elevation queries returns the same results as each query made first on a fresh object. Setting the sizes of the internal read windows to anything that can hold a cell does not change any result.",
  ["histories", "configurations", "inputs"],
  "all interleavings of value, containment and elevation queries (forward, backward, strided, random, on exact grid indices) on models larger than the read window, and all read window sizes >= 2 per axis",
  "Tests query points in one fixed order on grids that fit into the default window; the state (window origin) makes this a property of histories.",
  [S+"Hyperslab.cc", S+"Block.cc", S+"Surface.cc", S+"Query.cc"],
  [("read window reuse", "_Hyperslab::getSlab"), ("window size", "Block::setHyperslabDims")], "values over a history of Query/Model calls",
  state="current window origin and values per block and surface")
p("P06", "Overlapping models are resolved by their order in the list",
  "With several models, each query (values or elevation) is answered entirely by the first model in the given order that contains the point, exactly as a query of that model alone would answer it, and later models are used only where all earlier ones do not contain the point. A point in no model yields NODATA for all values.",
  ["inputs", "configurations"],
  "all lists of 1-4 models (overlapping, nested, disjoint, duplicated; different CRS, origin, value order) and all points",
  "Tests use one fixed pair of models and one order.",
  [S+"Query.cc", S+"Model.cc"],
  [("first containing model wins", "Query::query, Query::queryTopElevation, Query::queryTopoBathyElevation")], "Query results versus per-model results")
p("P07", "Requested values are selected by name, and inconsistent models rejected",
  "The values returned are those named in the request, in the order of the request, with names matched ignoring case and repeats allowed, whatever order each model stores them in. Initialization fails with an error naming the problem if a model lacks a requested value or if models disagree (ignoring case) on the units of a requested value; values not requested never matter.",
  ["inputs", "configurations"],
  "all sets of models with 1-8 values in any order, names and units in any case, and all request lists (subsets, permutations, repeats, unknown names)",
  "Tests request two values in one order from models storing them in the same order.",
  [S+"Query.cc"],
  [("name to index map", "_Query::createModelValuesIndex"), ("unit consistency", "_Query::checkUnits")], "Query::initialize outcome, Query::query values, Query::getValueNames")
p("P08", "Squashing stretches elevations between the surface and the minimum elevation",
  "With squashing on, a query at elevation z above the minimum elevation returns what an unsquashed query returns at zs + z*(zmin - zs)/zmin, zs being the elevation of the selected surface at the point (so z=0 is the surface and z=zmin is unchanged); at or below the minimum elevation, or with squashing off, the result is that of an unsquashed query at z. Setting only the minimum elevation selects the top surface, and the last setting of surface and minimum elevation applies to all later queries.",
  ["inputs", "histories", "configurations"],
  "all models with neither, either or both surfaces, all nonzero minimum elevations, all sequences of settings interleaved with queries, all points",
  "Tests use one minimum elevation and one model per surface type and never change settings between queries.",
  [S+"Query.cc"],
  [("squashing", "Query::query"), ("settings", "Query::setSquashMinElev, Query::setSquashing")], "Query::query values")
p("P09", "A query with any coordinates ends normally with a truthful status",
  "For any coordinates, including far outside the model, outside the validity of the CRS, infinite, or not-a-number, value and elevation queries return without crashing or corrupting memory and later queries are unaffected. A value query reports OK exactly when some model contains the point; otherwise it reports a warning and every value is NODATA.",
  ["inputs", "histories"],
  "all triples of IEEE doubles (special values, denormals, boundary values and their neighbours) on any model, interleaved with ordinary queries",
  "Tests query two points outside of the models; boundary rounding, special values and models with variable spacing are never reached.",
  [S+"Query.cc", S+"Model.cc", S+"Block.cc", S+"Surface.cc", S+"Hyperslab.cc", U+"Indexing.cc"],
  [("containment before interpolation", "Query::query, Model::contains"), ("index bounds", "IndexingVariable::getIndex, Surface::query, _Hyperslab::_interpolate*")], "return of Query::query/query*Elevation under AddressSanitizer/UBSan")
p("P10", "The C and Python interfaces agree with the C++ interface",
  "For the same models, settings and points, the C interface and the Python module return the same values, elevations, containment, metadata and per-point status as the C++ interface; Python array results keep the order of the points for any array layout and reject arrays of the wrong shape with an exception. Failures that raise C++ exceptions become an ERROR status with the message in the error handler (C) or a Python exception, never a terminated process. When a log file is set for a C query object, every value or elevation query at a point that no model contains leaves one warning with the coordinates of the point in the log file.",
  ["inputs", "histories", "configurations"],
  "all models, settings, point arrays (contiguous, strided, Fortran order, integer type, empty) and failing initializations",
  "Tests check each interface against its own few expected numbers with contiguous arrays.",
  [S+"cquery.cc", U+"cerrorhandler.cc", "modulesrc/Query_wrap.cc", "modulesrc/Model_wrap.cc", "modulesrc/ModelInfo_wrap.cc"],
  [("C wrappers", "geomodelgrids_squery_*"), ("Python wrappers", "PyQuery, PyModel")], "C and Python API results versus C++ API results")
p("P11", "CRS transformation round-trips and reports units correctly",
  "Transforming a point from one CRS to another and back returns the original point, the transformation agrees with PROJ for the same pair of CRS definitions in their own axis order, and the axis-normalizing transformation returns x (east/longitude) first and y (north/latitude) second. The units reported for each axis of a CRS are the units of that axis; unknown CRS definitions raise an exception.",
  ["inputs", "configurations"],
  "all pairs from a catalogue of geographic, projected, compound, bound and custom PROJ/WKT CRSs, points within their area of use, and invalid CRS strings",
  "Tests use one pair of CRSs with two points and CRSs whose axes all have the same units.",
  [U+"CRSTransformer.cc"],
  [("forward/inverse", "CRSTransformer::transform, inverse_transform"), ("axis normalization", "CRSTransformer::createGeoToXYAxisOrder"), ("units", "CRSTransformer::getCRSUnits")], "CRSTransformer results")
p("P12", "The query application writes one correct row per input point",
  "The query application writes, after a two-line header naming the columns, exactly one row per input point in input order, holding the point's coordinates and the values the library returns for the same models, value names, input CRS and squashing options, to the printed precision. This holds for any whitespace layout of the points file, with or without a final newline.",
  ["inputs", "configurations"],
  "all models, point files (any count including zero, separators, number formats, comments excluded), value lists, CRS and squashing options in any order on the command line",
  "Tests run four fixed command lines.",
  [A+"Query.cc", "bin/query.cc"],
  [("read-query-write loop", "apps::Query::run"), ("options", "apps::Query::_parseArgs")], "output file of geomodelgrids_query")
p("P13", "The elevation application writes one correct row per input point",
  "The elevation application writes, after a two-line header, exactly one row per input point in input order, holding the point's coordinates and the elevation of the selected surface (top surface by default) that the library returns for the same models and input CRS, to the printed precision. This holds for any whitespace layout of the points file, with or without a final newline.",
  ["inputs", "configurations"],
  "all models, point files and option combinations",
  "Tests run two fixed command lines.",
  [A+"QueryElev.cc", "bin/queryelev.cc"],
  [("read-query-write loop", "apps::QueryElev::run"), ("options", "apps::QueryElev::_parseArgs")], "output file of geomodelgrids_queryelev")
p("P14", "The borehole application samples the column from the top to maximum depth",
  "The borehole application writes a row for depths 0, dz, 2dz, ... up to and including the largest multiple of dz not exceeding the maximum depth, below the top of the model at the location, each with elevation, depth and the values the library returns there. If the location is outside all models it reports so, fails, and writes no rows.",
  ["inputs", "configurations"],
  "all models with or without surfaces, locations, maximum depths and dz (including depths that are not exact binary multiples of dz, and columns leaving the model)",
  "Tests run two fixed boreholes whose depth is an exact multiple of dz.",
  [A+"Borehole.cc", "bin/borehole.cc"],
  [("number of samples and loop", "apps::Borehole::run"), ("options", "apps::Borehole::_parseArgs")], "output file and exit code of geomodelgrids_borehole")
p("P15", "Isosurface depths bracket the requested value to the vertical resolution",
  "At each pixel centre the isosurface application reports, for each isosurface, a depth below the selected reference surface at which the model passes the requested value, to within the vertical resolution: for profiles that increase with depth the crossing, and where the value is crossed several times, further apart than the search points, the shallowest increase past it (the deepest when so requested); 0 if the value is already exceeded at the surface, and NODATA if it is not reached within the maximum depth or the location is outside the models. Bands, labels, georeferencing and orientation of the raster match the requested isosurfaces and bounding box.",
  ["inputs", "configurations"],
  "all models (values increasing with depth or not), bounding boxes, horizontal and vertical resolutions, search point counts, depth references, CRSs and isosurface lists",
  "Tests run three fixed cases comparing against stored expected grids with a tolerance.",
  [A+"Isosurface.cc", U+"GeoTiff.cc", "bin/isosurface.cc"],
  [("line search", "apps::LineSearchDown, LineSearchUp"), ("levels and interpolation", "Isosurfacer::initialize, Isosurfacer::query"), ("pixel layout", "apps::Isosurface::run")], "GeoTIFF written by geomodelgrids_isosurface")
p("P16", "The info application reports metadata faithfully and verifies soundly",
  "The info application prints every requested item of metadata as stored in each listed model (including the corners of the model in WGS84). Its verification reports no failure for a model that conforms to the storage specification and reports a failure for each violation it documents: missing metadata, surfaces or blocks that do not span the domain, block resolution not a multiple of the surface's, gaps between blocks, or blocks not reaching the top or bottom of the domain.",
  ["inputs", "configurations"],
  "all conforming models (uniform or variable coordinates, any blocks and surfaces), all single violations of them, any list of models and any combination of display options",
  "Tests print and verify two conforming models and one malformed one.",
  [A+"Info.cc", S+"Model.cc", S+"ModelInfo.cc", "bin/info.cc"],
  [("printing", "apps::Info::_print*"), ("verification", "apps::Info::_verify, _Info::verify*"), ("corners", "_Info::computeBoundingBox")], "stdout and exit code of geomodelgrids_info")
p("P17", "GeoTIFF files written are read back unchanged",
  "Reading back a written GeoTIFF returns the same number of rows, columns and bands, band labels, bounding box, an equivalent CRS and the same pixel values in the same positions; other GDAL readers see the same raster with the no-data value set. A GeoTIFF of another program is read with its size, band labels, bounding box, CRS (none if it has none) and pixel values, whatever the object held before. Reading an unreadable file raises an exception and leaves the object usable.",
  ["inputs", "histories"],
  "all raster sizes, band counts, labels, bounding boxes (any quadrant), CRSs, float pixel values, files of other programs (pixel types, tiling, compression) and sequences of create/write/read/close on one or several objects, including failed ones",
  "Tests round-trip one raster with one bounding box.",
  [U+"GeoTiff.cc"],
  [("write", "GeoTiff::create, GeoTiff::write"), ("read", "GeoTiff::read"), ("bounding box", "GeoTiff::setBBox, GeoTiff::getBBox")], "GeoTiff getters and GDAL readback")
p("P18", "Error handler keeps the last status and logs exactly what is logged while on",
  "After any sequence of operations the error handler's status and message are those of the most recent error, warning or reset (OK and empty initially). The log file holds, in order, exactly the messages logged to it while logging was on since the file name was last set; turning logging off and on keeps earlier messages. The C interface behaves identically.",
  ["histories"],
  "all sequences of set file name, logging on/off, log, set warning/error, reset and reads, over several handlers",
  "Tests run one fixed sequence of five calls.",
  [U+"ErrorHandler.cc", U+"cerrorhandler.cc"],
  [("status", "ErrorHandler::setError, setWarning, resetStatus"), ("log stream", "ErrorHandler::setLogFilename, setLoggingOn, logMessage")], "status, message, log file contents", state="status, message, log stream")
p("P19", "Model metadata is read back exactly as stored",
  "After loading a model, every piece of metadata the interfaces expose (description items, string lists, value names and units, dimensions, origin, azimuth, CRS, and for each surface and block its size, resolution or coordinates, and vertical extent, with blocks ordered top to bottom) equals what the file stores. This holds for fixed- and variable-length strings of any length and content, scalar types convertible to double, and any number of list items and blocks; auxiliary information is optional.",
  ["inputs", "configurations"],
  "all conforming files with arbitrary (UTF-8) strings, list lengths, numeric attribute types, block names and order of creation",
  "Tests read three files with short ASCII strings all written by the same tool.",
  [S+"HDF5.cc", S+"ModelInfo.cc", S+"Model.cc", S+"Block.cc", S+"Surface.cc"],
  [("attribute reading", "HDF5::readAttribute"), ("metadata", "Model::loadMetadata, ModelInfo::load, Block::loadMetadata, Surface::loadMetadata")], "Model, ModelInfo, Block and Surface getters")
p("P20", "Malformed model files are rejected with an exception, never a crash",
  "Opening and initializing a file that is missing, truncated, not HDF5, or lacks required groups, datasets or attributes, or has some of the wrong rank or size, raises an exception that identifies the problem and never crashes, corrupts memory or returns values from outside the file's data. After such a failure the same process can use valid models normally, also through the same object.",
  ["inputs", "fault_sequences"],
  "all single and multiple deletions, retypings, reshapings and truncations of the parts of a valid file, with and without a later reuse of the object",
  "Tests cover three hand-written missing-attribute files.",
  [S+"HDF5.cc", S+"Model.cc", S+"ModelInfo.cc", S+"Block.cc", S+"Surface.cc", S+"Query.cc"],
  [("checks at load", "Model::loadMetadata, Block::loadMetadata, Surface::loadMetadata"), ("HDF5 errors to exceptions", "HDF5::*")], "outcome of Query::initialize / Model load under sanitizers")
p("P21", "Models created from Python return the source data when queried",
  "For any configuration and data source, a model created with the Python tools, when queried at the locations the tools generated for its grid points, returns the values the data source supplied there (to storage precision), and its surfaces return the elevations supplied. The generated locations are those the query side assigns to the same grid points, with the top points shifted by the configured offset.",
  ["inputs", "configurations"],
  "all configurations of domain (origin, azimuth, dimensions), surfaces and blocks with uniform or variable coordinates, block resolutions that are multiples of the surface resolution, chunk sizes, and any data source function",
  "Tests compare created files with stored arrays for two fixed configurations, and never query a created file.",
  [C+"core/model.py", C+"io/hdf5.py", C+"apps/create_model.py", S+"Model.cc"],
  [("point generation", "Block.generate_points, Surface.generate_points, Block.get_surface"), ("storage", "HDF5Storage")], "created HDF5 file queried through the library")
p("P22", "Batches partition the grid and respect the size limit",
  "For any grid size and any maximum batch size, the batches enumerate every grid point exactly once, each batch is a nonempty index range within the grid, and no batch holds more points than the maximum; without a maximum there is one batch holding everything.",
  ["inputs"],
  "all 2-D and 3-D grid sizes >= 1 per axis and all maximum sizes >= 1 or none",
  "Tests enumerate seven fixed sizes; the case analysis on the shape has many more paths.",
  [C+"utils/batch.py"],
  [("batch sizes", "BatchGenerator2D.__init__, BatchGenerator3D.__init__"), ("iteration", "__next__")], "ranges yielded by the generators")
p("P23", "Creating a model in batches gives the same file as creating it at once",
  "For any configuration and data source, creating surfaces and blocks with any batch size stores the same datasets and metadata as creating them without batches. The locations and surface elevations generated for a batch are the corresponding part of those generated for the whole grid.",
  ["configurations", "inputs"],
  "all configurations as for P21 and all batch sizes, including batches one point thick",
  "Tests check batched creation for one batch size on uniform grids.",
  [C+"core/model.py", C+"io/hdf5.py", C+"apps/create_model.py", C+"utils/batch.py"],
  [("batched points", "Block.generate_points, Block.get_surface, Surface.generate_points"), ("batched writes", "HDF5Storage.save_block, save_surface, load_surface")], "HDF5 contents")
p("P24", "The CSV data source stores each row at its grid point",
  "Importing a CSV file stores the values of every row at the grid point nearest its location, whatever the order of rows and columns, the CSV's CRS, the model's origin and azimuth, and whether the block has uniform or variable coordinates; grid points without a row hold NODATA.",
  ["inputs", "configurations"],
  "all CSV files whose rows are any subset, in any order, of the grid points of a block, and all block and column configurations",
  "The test imports one file with one fixed block.",
  [C+"data_srcs/csv/datasrc.py"],
  [("row location to index", "CSVFile.get_values, CSVFile._to_model_xyz")], "array returned by get_values and resulting HDF5 file")
p("P25", "Configuration lists and units parse to what was written",
  "A list written in a configuration file parses to exactly its items, in order and with surrounding whitespace removed, with or without brackets and for any delimiter; merging configuration files gives each option the value from the last file that sets it. A unit name in any documented spelling gives its exact SI scale factor and an unknown name raises an exception.",
  ["inputs"],
  "all lists of strings not containing the delimiter, all groups of configuration files, all strings as unit names",
  "Tests parse a few fixed lists and names.",
  [C+"utils/config.py", C+"utils/units.py"],
  [("lists", "string_to_list"), ("files", "get_config"), ("units", "length_scale, density_scale")], "return values")
p("P26", "Index lookup inverts the grid coordinates",
  "For uniform or variable coordinates in ascending or descending order, given in any order, the index of a distance from the first coordinate is the integer i at the i-th coordinate and varies linearly and strictly monotonically in between. Invalid coordinate descriptions (non-positive resolution, no coordinates) raise an exception.",
  ["inputs"],
  "all positive resolutions, all coordinate arrays with distinct values (2-1000 entries, any magnitude and ratio of spacings, shuffled), all distances within the range",
  "Tests evaluate five points on one array per class.",
  [U+"Indexing.cc", U+"Indexing.hh"],
  [("lookup", "IndexingUniform::getIndex, IndexingVariable::getIndex")], "getIndex")
p("P27", "Direct reads and slab access return the stored data",
  "Reading any sub-box of a dataset returns exactly the stored values of that box, and slab access at any fractional index, for any slab size and access order, returns the linear interpolation (or the nearest grid value when nearest is requested, NODATA where that is no-data). A box or slab with the wrong rank or beyond the dataset raises an exception.",
  ["inputs", "histories"],
  "all 3-D and 4-D datasets, sub-boxes, slab sizes, fractional indices in any order",
  "Tests read one box, interpolate at three points in one dataset, and never test nearest.",
  [S+"HDF5.cc", S+"Hyperslab.cc"],
  [("box read", "HDF5::readDatasetHyperslab"), ("slab", "_Hyperslab::getSlab, interpolate, nearest")], "HDF5::readDatasetHyperslab, Hyperslab::interpolate, Hyperslab::nearest", state="slab origin and values")
p("P28", "Query objects can be reused, coexist and be torn down in any order",
  "After any sequence of create, initialize (successful or failed), query, reconfigure, finalize and destroy operations over several query objects, each object answers according to its own most recent successful initialization, as a fresh object would; querying an object that is not initialized, failed to initialize, or was finalized reports an error and returns NODATA for elevations instead of crashing. Operations on one object never affect another, even on the same file.",
  ["histories"],
  "all interleavings of lifecycle operations over up to 4 objects and several model lists, through the C++ and C interfaces",
  "Tests make one fixed call sequence per object.",
  [S+"Query.cc", S+"Model.cc", S+"cquery.cc", S+"HDF5.cc"],
  [("lifecycle", "Query::initialize, Query::finalize, Model::close, geomodelgrids_squery_*")], "status and values over histories", state="models, value names, squashing and error status per object")
p("P29", "Updating metadata changes only metadata",
  "Rewriting the metadata of an existing model from a changed configuration leaves every stored grid and surface value unchanged and makes the stored metadata equal to the new configuration; re-importing one part (domain, surfaces or blocks) leaves the other parts unchanged, and repeating any step changes nothing.",
  ["histories", "configurations"],
  "all sequences of import and update steps over pairs of configurations that agree on grid sizes",
  "Tests run update-metadata once with an unchanged configuration.",
  [C+"core/model.py", C+"io/hdf5.py", C+"apps/create_model.py"],
  [("steps", "App.main, Model.update_metadata, HDF5Storage.save_*")], "HDF5 contents after each step")
p("P30", "Applications fail visibly on bad command lines and files",
  "For each command line application, a missing required option, an unknown option, an invalid option value, or an unreadable model or points file makes the application end with a nonzero exit code and a message on the terminal, never a crash, a hang or a success; asking for help (or giving no arguments) prints usage and ends successfully. Short and long spellings and the order of the options do not matter.",
  ["inputs", "configurations"],
  "all command lines made from valid ones by removing, corrupting, repeating or reordering options, for all five applications",
  "Tests cover a few fixed bad command lines through direct method calls rather than processes.",
  ["bin/query.cc", "bin/queryelev.cc", "bin/borehole.cc", "bin/isosurface.cc", "bin/info.cc", A+"Query.cc", A+"QueryElev.cc", A+"Borehole.cc", A+"Isosurface.cc", A+"Info.cc"],
  [("option parsing", "apps::*::_parseArgs"), ("error to exit code", "bin/*.cc")], "exit code, stdout and stderr of the executables")
p("P31", "Models created from EarthVision hold its surfaces and rule values",
  "A model created from EarthVision files has, at every grid point of a surface, the highest of the listed EarthVision grids, and at every grid point of a block the values its rule gives for the fault block and zone holding that point, its horizontal position and its depth below the topography (zero at the top surface), followed by the configured ids of that fault block and zone. The result does not depend on the order of the points, on what the first point is, on the types of numbers the rules return, or on the batch size.",
  ["inputs", "configurations"],
  "all configurations with one or more blocks and grids, all EarthVision models (any numbers of fault blocks and zones, points without a zone, horizontal and vertical units), all rules (integers or floats, tuples or lists, a single value), all batch sizes",
  "The tests do not exercise the EarthVision data source at all, since it needs proprietary programs.",
  [C+"data_srcs/earthvision/datasrc.py", C+"data_srcs/earthvision/api.py", C+"core/model.py"],
  [("surfaces", "RulesDataSrc.get_top_surface, get_topography_bathymetry"), ("values", "RulesDataSrc.get_values, query_rule, set_faultblock_id, set_zone_id"), ("units and files", "earthvision.api")],
  "HDF5 contents of the created model")
p("P32", "Models created from IRIS EMC files hold the values of the file",
  "A model created from an IRIS EMC NetCDF file has one block covering the longitudes, latitudes and depths of the file, with the stored value of every variable at every grid point equal (to single precision) to the value of the file at that longitude, latitude and depth, no data where the file has no value, uniform spacing along axes the file samples evenly and coordinates along the others, and metadata taken from the attributes of the file (defaults where absent). The result can be queried by longitude and latitude, and does not depend on the batch size.",
  ["inputs", "configurations"],
  "all files with depths starting at zero, any grid sizes, axes in either order with uniform or variable spacing, values missing or not, attributes present or missing, any variables with units, km or m for depth, any batch size",
  "The tests do not exercise this data source, since netCDF4 is not a dependency of the tests.",
  [C+"data_srcs/iris_emc/datasrc.py", C+"core/model.py"],
  [("metadata", "EMCNetCDF._read_*"), ("values", "EMCNetCDF.get_values")],
  "HDF5 contents of the created model and queries of it")
p("P33", "Rules of the San Francisco Bay models give the published elastic properties",
  "For every version of the USGS San Francisco Bay models in models/usgs_sfbay (detailed 08.3.0 and 21.1, regional 08.3.0), every fault block and zone of its geologic model, every location and every depth of zero or more, the rule found for the fault block and zone gives density (kg/m**3), Vp and Vs (m/s), Qp and Qs equal to the published relations of that rock (Aagaard and others 2010 with the listed corrections, Hirakawa and Aagaard 2021): Vp by ranges of depth, Vs, density and Qs from Vp and Vs by the generic relations except where the rock has its own, Qp twice Qs, no-data Vs and Qs in sea water, and no data outside the model. Where version 21.1 divides a fault block, the rock changes at the line through the reference point perpendicular to the model azimuth.",
  ["inputs"],
  "all fault blocks (also names without an own rule), zones, horizontal locations at both sides of the dividing lines, and depths within and at the limits of the ranges",
  "The repository has no tests of the rules.",
  ["models/usgs_sfbay/rules_aagaard_etal_2010.py", "models/usgs_sfbay/rules_hirakawa_aagaard_2021.py", "models/usgs_sfbay/USGS_SFCVM_detailed_v08-3-0.py", "models/usgs_sfbay/USGS_SFCVM_detailed_v21-1.py", "models/usgs_sfbay/USGS_SFCVM_regional_v08-3-0.py"],
  [("rule of a zone", "get_rules"), ("relations", "default_vs, default_density, default_qs, default_qp and the rock functions"), ("dividing lines", "is_along_azimuth")],
  "values returned by the rules and HDF5 contents of models created with them")
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
    with open(out, "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    print(len(P))
