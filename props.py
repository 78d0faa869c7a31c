"""The properties; 'bin/vf.py manifest' writes properties.jsonl from here."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


P("C01", "Metadata edits do exactly what they say, in every sequence",
  "After any sequence of adding, renaming, replacing and removing dimensions, variables and attributes, the dataset description lists exactly the objects the edits leave, every lookup, search and derived query (axes, projection, coordinates, unlimited dimension) reflects the current content, and copies are independent. An edit that is rejected or has no target leaves the dataset unchanged and says so.",
  ["histories", "inputs"], "all sequences of edit operations and queries over a small name universe",
  "tests add a handful of variables; they do not chain renames, collisions, removals and cached queries",
  ["src/CDM.cc", "include/fimex/CDM.h", "src/CDMVariable.cc", "src/CDMAttribute.cc"], [("edit operations of the dataset description", "src/CDM.cc")])

P("C02", "Any slice equals the same part of the whole, for every reader",
  "Reading any rectangular slice of a variable, or one position of the unlimited dimension, returns exactly the elements of that sub-array of the full data in the variable's order, whichever reader stage (file, extractor, processor, interpolator, quality filter, markup wrapper, C wrapper) delivers it and whatever the variable's shape, type and dimension lengths. A slice request outside the variable's extent is rejected, never answered with other data.",
  ["inputs", "configurations"], "all shapes up to 4 dimensions, all slices, all reader stages",
  "tests read a few slices of one file each",
  ["src/Data.cc", "src/SliceBuilder.cc", "src/CDMReader.cc", "src/io/netcdf/NetCDF_CDMReader.cc"], [("array slicing", "src/DataImpl.h"), ("slice requests", "src/SliceBuilder.cc"), ("reader default implementations", "src/CDMReader.cc")])

P("C03", "Value conversion is exact: types, packing, missing values",
  "Converting data between numeric types, packings (scale factor, offset), fill values and units yields for every element the representable value nearest to the exact result, with halves rounded away from zero, whenever the target type can hold it. Missing values (the fill value or not-a-number) come out as the target's missing value, conversion never alters its input, partial assignment changes exactly the addressed elements, and text that is not a number is rejected.",
  ["inputs", "configurations"], "all type pairs x fill values x packings x boundary values; all assignment ranges; all access paths for scaled reads",
  "tests convert a few floats; boundary values, 64-bit integers and fill/NaN combinations are unreached",
  ["src/DataImpl.h", "src/Data.cc", "include/fimex/DataUtils.h", "include/fimex/MathUtils.h", "src/CDMReader.cc"], [("element conversion", "src/DataImpl.h"), ("rounding", "include/fimex/MathUtils.h"), ("scaled reads", "src/CDMReader.cc")])

P("C04", "Extraction delivers exactly the selected part of the original",
  "After any sequence of variable selections and dimension reductions (position sets, ranges, start/end counted from the original dimension, time or level intervals with unit conversion, longitude/latitude box), every remaining variable contains exactly the original elements at the last selected positions of each dimension, in the original order, in full reads and in every slice. Requests naming positions outside the original dimension are rejected and leave the selection unchanged; the source dataset is not modified.",
  ["inputs", "histories"], "all position subsets of three dimensions, all slices; sequences of selections; all interval limits relative to the axis values",
  "tests reduce one dimension contiguously; non-contiguous sets combined with other dimensions are unreached",
  ["src/CDMExtractor.cc", "include/fimex/CDMExtractor.h"], [("slice translation and joining", "src/CDMExtractor.cc"), ("selection by value", "src/CDMExtractor.cc")])

P("C17", "Unit conversion is correct, invertible and composable",
  "A conversion between two units exists exactly when they measure the same quantity and then maps every value to the value of the same physical amount, consistently for single values, scale/offset form, single and double precision, reversed and chained conversions; non-linear conversions are never reduced to scale and offset. Unknown, malformed or incompatible units are reported as errors and leave later conversions unaffected, also after reloading the unit system.",
  ["inputs", "histories"], "all ordered pairs and chains of 41 units in 9 families, all sequences of unit operations",
  "tests convert one or two pairs",
  ["src/Units.cc", "include/fimex/UnitsConverter.h"], [("converter", "src/Units.cc")])

P("C05", "What is written to NetCDF is what is read back",
  "Writing any dataset to a NetCDF file (classic, 64-bit, netCDF-4 classic, netCDF-4) and reading the file back gives the same dimensions, variables, types, attributes and element values, including extreme values, missing values and text, whatever the shape, unlimited dimension and compression or chunk settings. Writer settings change exactly what they name (names, types, units, packing, attributes, removed variables) and keep the physical values; variables without data read as missing, and types a format cannot hold are refused.",
  ["inputs", "configurations"], "all shapes up to 3 dimensions x 4 formats x 12 data types; all pairs of writer settings; all attribute types and lengths",
  "tests write a few files of one shape and compare a few values",
  ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc"], [("file writing", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("file reading", "src/io/netcdf/NetCDF_CDMReader.cc")])

P("C06", "In-place updates change exactly the addressed elements",
  "Writing a slice into an existing NetCDF file (by unlimited position or by slice, raw, scaled or in another unit) changes exactly the addressed elements to the given values and nothing else, immediately visible to the same session and, after closing, to every later one. Extending the unlimited dimension fills unwritten elements as missing; updates of the wrong size, of unknown variables or with inconvertible units are rejected without effect.",
  ["histories", "inputs"], "all sequences of up to 3 (4) updates, syncs and reopens; all slices of all shapes up to 3 dimensions, all types, three formats",
  "tests update one slice of one file",
  ["src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/CDMReaderWriter.cc"], [("update of slices", "src/io/netcdf/NetCDF_CDMReader.cc"), ("packing before writing", "src/CDMReaderWriter.cc")])

P("C07", "Failures are reported: an output reported as written is complete",
  "If any write, flush or truncation of an output file fails at any point (disk full, I/O error, partial write), or the source dataset fails while being read, the writing call reports an error to its caller; when it reports success the file holds the complete data. This holds for the NetCDF formats, the markup output, in-place updates followed by a sync, and filling of existing files, for any number of threads; reading a file with input errors delivers correct data or an error, never wrong data.",
  ["crash_points", "inputs", "schedules"], "every output and input system call of each run x 4 fault modes; every source read x 4 failure kinds x 1..4 threads",
  "tests never see a failing disk or a failing source",
  ["src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/io/netcdf/NetCDF_Utils.cc", "src/NcmlCDMWriter.cc", "src/FillWriter.cc"], [("error propagation while writing", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("status checks", "src/io/netcdf/NetCDF_Utils.cc")])

P("C10", "Interpolation delivers the source field's value at each target place",
  "Interpolating to another grid, projection or list of places gives at every target place the value of the method (nearest, bilinear, bicubic, nearest by coordinates) applied to the source cells around that place, for every layer, slice, axis direction, axis unit and notation of longitude; places outside the source grid, undefined places and places whose required cells are undefined come out as missing. The result carries the target grid's coordinates and projection; variables without horizontal dimensions and the values of the source stay unchanged, impossible requests are rejected, and only the last change of grid counts.",
  ["inputs", "configurations"], "all methods x source axes x target places on, between, at the border and outside; all pairs of 7 projections; all windows and slices",
  "tests interpolate one or two grids and compare a few values",
  ["src/CDMInterpolator.cc", "src/interpolation.c", "src/CachedInterpolation.cc", "src/reproject.cc"], [("value at a position", "src/interpolation.c"), ("position on an axis", "src/interpolation.c"), ("layers, slices and windows", "src/CachedInterpolation.cc")])

P("C11", "Forward interpolation aggregates exactly the source cells of each target cell",
  "Forward interpolation assigns every source cell to the target cell containing its centre and delivers for each target cell and each layer the sum, mean, median, maximum or minimum of the defined values assigned to it; cells without values are missing. The variants that propagate undefined values deliver missing when any assigned value is undefined, independent of the order of the cells. Every documented method name selects the method of that name, other names none.",
  ["inputs", "configurations"], "all assignments of 4 source cells to 4 target cells or outside x all undefined patterns x 10 methods; 63 pairs of grids with slices",
  "tests run one forward method on one grid",
  ["src/CachedForwardInterpolation.cc", "src/CDMInterpolator.cc", "src/interpolation.c"], [("aggregation per cell", "src/CachedForwardInterpolation.cc"), ("assignment of cells", "src/CDMInterpolator.cc"), ("method names", "src/interpolation.c")])

P("C12", "Filling changes only undefined cells and fills them from the defined ones",
  "Filling the undefined cells of a field (Laplace relaxation, creeping to the average or to a given value), directly or before/after interpolation on every layer, leaves every defined cell unchanged, gives every undefined cell a finite value derived from the defined ones (within their range or the given value; the converged relaxation satisfies the neighbour equations) and reports how many were undefined, for every field size and pattern. Distances of neighbouring grid cells equal the great-circle distances for every grid size, the outermost row and column repeating their neighbour.",
  ["inputs", "configurations"], "all masks of all fields up to 15 (16) cells x 26 settings; all grid sizes up to 6x6 for distances",
  "tests fill one field",
  ["src/interpolation.c", "src/CDMInterpolator.cc"], [("relaxation", "src/interpolation.c"), ("creeping", "src/interpolation.c"), ("grid distances", "src/interpolation.c")])

P("C13", "Vectors and directions are turned with the grid and keep their length",
  "Whenever data are brought from one projection to another (interpolation to a grid or to places) or turned on their own grid to or from geographic directions, vector components given along the grid axes are turned by the angle between the two grids at that very place, for every grid size and orientation, layer and slice, keeping their length; directions turn by the same angle and stay between 0 and 360 degrees. A component is missing exactly where one of the pair is; components along geographic axes and scalar variables are not turned, and turning there and back restores the vector.",
  ["inputs", "configurations"], "all pairs of 11 grids in 8 projections x output shapes up to 3x3 (5x5) in every orientation x vectors and directions; through interpolated and processed datasets",
  "tests turn vectors of one dataset at a few points",
  ["src/reproject.cc", "src/CDMInterpolator.cc", "src/CDMProcessor.cc", "src/CachedVectorReprojection.cc", "src/coordSys/CF1_xCoordSysBuilder.cc"], [("rotation matrix", "src/reproject.cc"), ("vector interpolation", "src/CDMInterpolator.cc"), ("rotation on the same grid", "src/CDMProcessor.cc")])

P("C14", "Vertical interpolation gives the value at the requested level of each column",
  "Vertical interpolation to fixed levels, to another axis or to the levels of a template variable gives at every column and level the value the named method (linear variants, log, loglog, nearest) takes between the two levels around the request, or the two closest outside, with the level positions computed per column and time by the CF definition of the vertical coordinate (pressure, height, altitude, depth, sigma, hybrid, ln-pressure, ocean s, hybrid height, hydrostatic integration) in hPa or m. Missing or inadmissible input (also levels above the sea surface or below its floor unless ignored) gives the fill value, never garbage; other variables, the shape apart from the level axis, and the source stay as they are.",
  ["inputs", "configurations"], "29 vertical coordinate/target pairs x 7 methods x types x axis direction x time layout; all orders of 2-4 levels x all missing patterns; every slice of every coordinate field",
  "the tests cover a hybrid dataset at one column and a few formula values",
  ["src/CDMVerticalInterpolator.cc", "src/coordSys/verticalTransform", "include/fimex/FindNeighborElements.h", "src/interpolation.c", "src/vertical_coordinate_transformations.c"], [("column interpolation", "src/CDMVerticalInterpolator.cc"), ("level selection", "include/fimex/FindNeighborElements.h"), ("vertical coordinates", "src/coordSys/verticalTransform"), ("formulas", "src/vertical_coordinate_transformations.c")])

P("C30", "Pressure conversions follow their formulas at every point",
  "theta2T, omega2vwind, specific2relative and add4Dpressure give at every point the value of the published formula with the pressure of that very point and time, whatever the vertical coordinate (pressure, sigma, hybrid, ln-pressure, pressure variable), the order of the dimensions, and the type, packing and units of the inputs; the result has the shape, units, standard name and type it declares, relative humidity stays in 0..1, NaN stays missing. Other variables and the source stay as they are, unknown operations are refused, existing variables are not replaced, and the C conversion functions agree with their inverses.",
  ["inputs", "configurations"], "4 conversions x 7 pressure coordinates x storages x 5 dimension orders x time layouts; every sequence of up to 4 operations at once or chained; pairs of vertical axes; formulas and inverses over a grid of p, T, h",
  "the tests convert one hybrid dataset with one storage and order",
  ["src/CDMPressureConversions.cc", "src/vertical_coordinate_transformations.c"], [("conversions", "src/CDMPressureConversions.cc"), ("formulas", "src/vertical_coordinate_transformations.c")])

P("C15", "Times, lists and specifications written as text mean what they say",
  "A time converted to any time unit, to epoch seconds, a time point or text and back is the same time to the millisecond (time points and epoch times: to the second), and any number in a unit becomes the closest valid calendar time; times order chronologically. Time and axis specifications deliver exactly the listed values, '...' continuing the step up to the following value and 0, x, x+N, x-N standing for the multiples of the step at or below the start and end, before and after the origin alike; texts that are no times, numbers or specifications are refused, and every list ends.",
  ["inputs"], "all days, seconds and milliseconds of ranges x 10 units; all lists of up to 5 (6) tokens; all strings of up to 6 (8) characters; relative lists x starts x lengths x steps",
  "tests convert two or three times and expand two lists",
  ["src/TimeUnit.cc", "src/FimexTime.cc", "src/TimeUtils.cc", "src/TimeSpec.cc", "src/SpatialAxisSpec.cc", "include/fimex/TokenizeDotted.h"], [("time units", "src/TimeUnit.cc"), ("specifications", "src/TimeSpec.cc"), ("lists", "include/fimex/TokenizeDotted.h")])

P("C16", "Interpolation in time gives each requested time's value between its neighbours",
  "After changing the time axis, every time-dependent variable has at each requested time, in whatever order they are given, the linear interpolation of the two source times around it element by element (the source's own value at source times, the two nearest up to one interval beyond the ends, missing further out), missing where a contributing value is missing, in the variable's own type and packing; the axis holds exactly the requested times in the requested unit. A later change replaces an earlier one completely, a refused one has no effect, before any change the data are the source's, and other variables and the source stay as they are.",
  ["inputs", "histories"], "all pairs and triples of times before, at, between and behind 2-5 source times; 4 storages x 4x4 units; all missing patterns; all sequences of up to 3 (4) changes",
  "tests change the axis twice and check only the axis values",
  ["src/CDMTimeInterpolator.cc", "src/interpolation.c"], [("time mapping", "src/CDMTimeInterpolator.cc"), ("linear interpolation", "src/interpolation.c")])

P("C18", "Merged datasets take each value from the right dataset at its place",
  "Merging an inner into an outer dataset gives the inner value inside, the outer field interpolated to that place outside and in the border, and in the transition zone the average weighted linearly with the distance, never outside the range of the two; where the inner value is missing it is the outer one if asked for, else missing, and where the outer is missing the inner one. Overlay gives top's value wherever it is defined, else the base's. This holds for every variable, layer and time, converted to the inner dataset's units, packing and fill value, whatever axis directions, units and projection; grids that cannot be combined are refused, other variables and the sources stay as they are.",
  ["inputs", "configurations"], "all inner sizes up to 6x6 (8x8) x widths x 9 storages; all 512 (4096) missing patterns; 16 axis directions x 3 projections x 3 settings orders; 20 target grids",
  "tests merge two datasets with one setting",
  ["src/CDMMerger.cc", "src/CDMOverlay.cc", "src/CDMBorderSmoothing.cc", "src/CDMBorderSmoothing_Linear.cc", "src/CDMMergeUtils.cc"], [("transition", "src/CDMBorderSmoothing_Linear.cc"), ("smoothing", "src/CDMBorderSmoothing.cc"), ("overlay", "src/CDMOverlay.cc"), ("target grid and extension", "src/CDMMerger.cc"), ("compatibility", "src/CDMMergeUtils.cc")])

P("C19", "Accumulation, deaccumulation and derived model-level fields are exact per step",
  "Accumulating a variable along the unlimited dimension gives at every step the sum of all steps so far, deaccumulating the difference from the step before (the first step stays, undefined NaN values of the first step count as 0 later, others make the result undefined), in physical values whatever the packing, and whatever was read before in whatever order; one undoes the other. The added geopotential height is the altitude of each model level computed from pressure and temperature, and the added vertical velocity follows the continuity equation in pressure coordinates (0 for air at rest) at each point and time, whatever the units, projection and grid size. Variables without unlimited dimension, other variables and the source stay as they are.",
  ["histories", "inputs", "configurations"], "all histories of 12 kinds of reads up to length 3 (4); 7 storages x 3 layouts x all undefined patterns of 8 (10) values; 8 vertical coordinates; grids up to 5x5x4 (6x6x4)",
  "tests accumulate one variable and only bound the vertical velocity",
  ["src/CDMProcessor.cc", "src/interpolation.c"], [("accumulation", "src/CDMProcessor.cc"), ("derived fields", "src/CDMProcessor.cc"), ("vertical velocity", "src/interpolation.c")])

P("C20", "Quality extraction keeps a value exactly where its status is accepted",
  "A quality-checked variable has its own value wherever the value of its status variable (in the same dataset or an external file, repeated over further dimensions) is accepted, and the fill value (configured or the variable's own) everywhere else; accepted are the listed values in any order, or with 'use' the defined status values within the valid range that are all, the highest, the lowest, at least min or at most max of the slice. Automatic configuration applies the same to every variable named by a CF status_flag, the configuration file overrides it, and a status variable may be checked itself. Other variables, the description and the source stay as they are; incomplete or contradictory configurations are refused.",
  ["inputs", "configurations"], "all 625 patterns of 5 status values on 4 points x 10 rules x 6 status storages x 5 valid ranges; 6 layouts x 5 data storages; chains of two checks",
  "tests read one element of one mask",
  ["src/CDMQualityExtractor.cc"], [("configuration", "src/CDMQualityExtractor.cc"), ("selection", "src/CDMQualityExtractor.cc")])

P("C21", "Filling a file puts every value at its coordinates and changes nothing else",
  "After filling an existing file, every variable of the input that the file has with the same dimensions is readable in the file, as the same physical value (converted to the file's type, packing, fill value and units, missing stays missing), at the positions whose coordinate values are those of the input, in whatever order either has them and in whatever units the coordinates are; new values of an unlimited dimension are appended in their order, with all else missing there, and a configured translation moves one position of a dimension to one position of another. Everything else in the file stays as it was, over any sequence of fills. A coordinate value without place in the file, an impossible unit or position is reported as error, with the variables not concerned filled.",
  ["histories", "inputs", "configurations"], "all ordered selections of known and new times x levels; all sequences of 3 fills over 12 blocks; 11x11 packings, 4x4 time units; translations x positions; classic and netCDF-4 files",
  "tests fill one file once with equal storage",
  ["src/FillWriter.cc", "src/CDMReaderWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc"], [("dimension mapping", "src/FillWriter.cc"), ("file writing", "src/io/netcdf/NetCDF_CDMReader.cc")])

P("C09", "Aggregated datasets contain exactly their members' data, record by record",
  "A union has every variable of the first member that has it and fits the dimensions; joinExisting lays the records of all members one behind the other along the unlimited dimension, joinNew the named variables of all members along a new dimension with the given (or distinct) coordinate values and all else as in a union. Every element of every variable, read by record, as a whole or as any sub-array, is the one of the member it stems from, and the fill value where that member lacks the variable or has other dimension lengths, whatever the number, order and lengths of the members, and the members themselves stay as they are. In NcML the members are those listed (also nested aggregations) and then those found by scanning, in name order; unknown types, missing files and wrong numbers of coordinate values are refused.",
  ["configurations", "inputs"], "all sequences of up to 3 (4) of 10 (13) member datasets x 3 aggregations; every sub-array of every variable; coordinate value patterns; 9 ways to name the members",
  "tests read single elements of five fixed aggregations",
  ["src/AggregationReader.cc", "src/NcmlAggregationReader.cc", "src/FileUtils.cc"], [("aggregation", "src/AggregationReader.cc"), ("NcML", "src/NcmlAggregationReader.cc")])

P("C08", "An NcML document changes exactly what it says, and the data follow",
  "A dataset seen through an NcML document has exactly the removals, renamings (orgName being the name in the source, whatever order and permutation), added dimensions, unlimited flags, shapes, types, values and attributes the document lists, and everything else as in the source. All data, read as a whole, by record or in parts, agree with that description: renamed variables and dimensions keep their data, a changed type converts packing and fill value, listed or computed values appear in the declared type, also for variables held in memory. Contradictory or incomplete documents are refused, unknown names are ignored, and the source stays as it is.",
  ["configurations", "inputs"], "subsets of 16 changes (thorough: all 65536); all injective renamings of variables, dimensions and attributes in all orders; 10x10 types x packings; values and attributes of all types",
  "tests apply one document to one file",
  ["src/NcmlCDMReader.cc", "src/NcmlUtils.cc", "src/CDM.cc"], [("document phases", "src/NcmlCDMReader.cc"), ("reading", "src/NcmlCDMReader.cc"), ("types", "src/NcmlUtils.cc")])
P("C24", "Projections mean the same as proj4 string, as CF attributes and as positions",
  "A projection made from a proj4 string or from CF grid-mapping attributes converts positions between longitude/latitude and its coordinates, both ways, as PROJ does for that definition, including all its parameters, false origin, full precision and earth figure. Translating it to CF attributes or to a proj4 string and back keeps the mapping, parameters can be changed in any order, and replacing the earth figure changes nothing else. Definitions without projection or with an unknown one are refused.",
  ["inputs", "histories"], "all combinations of parameter values of 18 projection families x 18 earth figures (proj4) and 16 CF grid mappings x 8 earth figures x attribute types and orders; all sequences of 3 (thorough 4) parameter changes; all pairs of earth figures",
  "tests translate one string per projection",
  ["src/coordSys/Projection.cc", "src/coordSys/ProjectionImpl.cc"], [("earth figures", "src/coordSys/ProjectionImpl.cc"), ("creation", "src/coordSys/Projection.cc"), ("families", "src/coordSys/LambertConformalConicProjection.cc")])

P("C23", "Parallel work gives the results of sequential work in every schedule",
  "Reading slices, interpolating (horizontally, vertically, in time), processing, merging, aggregating, writing NetCDF files and filling existing files with several threads delivers in every interleaving of the threads the values and files of the same work done by one thread. No schedule contains a data race (in fimex or by unprotected use of the netcdf, units or projection libraries), a deadlock or an aborted process, and a failure in one thread is reported to the caller.",
  ["schedules", "configurations"], "all interleavings of the library's lock operations within a preemption bound, for every reader stack and writer",
  "tests run one schedule, mostly with one thread",
  ["src/Null_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMWriter.cc", "src/io/netcdf/NetCDF_CDMReader.cc", "src/FillWriter.cc", "src/CachedInterpolation.cc", "src/CDMInterpolator.cc", "src/CDMVerticalInterpolator.cc", "src/CachedForwardInterpolation.cc", "src/CDMProcessor.cc", "src/Units.cc", "include/fimex/MutexLock.h"],
  [("locks", "include/fimex/MutexLock.h"), ("parallel loops of the writers", "src/io/netcdf/NetCDF_CDMWriter.cc"), ("parallel interpolation", "src/CachedInterpolation.cc")])

P("C22", "GRIB files are presented as what their messages say",
  "A dataset read from GRIB files (edition 1 or 2, one or several files, directly or through a grbml index file, also an extended one) has for every configured parameter exactly the fields of the messages assigned to it by the configuration (parameter, level type and value, step type, further keys; first match wins; undefined ones by short name or left out), each at its valid time, level and ensemble member, in whatever order the messages are stored and whatever is absent (fill values there), in any sub-array, with missing points as fill values. Every value is located at the longitude and latitude the message says, for longitude-latitude, rotated, polar-stereographic and Lambert grids in every scanning direction, on the message's figure of the earth, and the grid mapping and axes describe the same positions; times follow from reference time, step and step unit, hybrid level coefficients from the message. A file that ends within a message or has bytes that are no message is refused or presented without that message, never read beyond its end.",
  ["inputs", "configurations"], "1400 (thorough 5000) layouts of messages, all sub-arrays; 4300 grids; 2100 times; every truncation; 900 configurations",
  "tests need external GRIB files, which are not available",
  ["src/io/grib/GribFileIndex.cc", "src/io/grib/GribCDMIndexer.cc", "src/io/grib/GribCDMReader.cc", "src/io/grib/GribReaderConfig.cc"],
  [("message geometry and times", "src/io/grib/GribFileIndex.cc"), ("assembling", "src/io/grib/GribCDMIndexer.cc"), ("reading", "src/io/grib/GribCDMReader.cc")])
P("C25", "GRIB files written say what the dataset says",
  "Writing a dataset to GRIB 1 or 2 yields exactly one message per configured variable, reference time, time and level, except for fields without any value if the configuration omits them (the default), whose reference time plus step is the time, whose level type and value follow from the vertical axis and the configuration (units, packing, scaling), and whose hybrid level coefficients (GRIB 2) give the level's ap and b. Every value, converted to the configured unit, is at the longitude and latitude that the dataset's axes and grid mapping (longitude-latitude, rotated, polar stereographic, Lambert, any direction) give it, to the resolution of the edition and packing, whatever the order of the variable's dimensions; missing values and NaN are missing in the message, and no other value is. A grid that GRIB cannot describe is not written, append and overwrite do what they say, and an error is reported, not hidden and not the end of the process.",
  ["inputs", "configurations"], "28900 datasets and configurations per run",
  "tests need external GRIB and felt files, which are not available",
  ["src/io/grib/GribApiCDMWriter_ImplAbstract.cc", "src/io/grib/GribApiCDMWriter_Impl1.cc", "src/io/grib/GribApiCDMWriter_Impl2.cc"],
  [("loops over times, variables, levels", "src/io/grib/GribApiCDMWriter_ImplAbstract.cc"), ("edition 1", "src/io/grib/GribApiCDMWriter_Impl1.cc"), ("edition 2", "src/io/grib/GribApiCDMWriter_Impl2.cc")])

P("C26", "Coordinate systems describe the variables as their metadata say",
  "The coordinate systems listed for a CF dataset are exactly the distinct sets of axes that its variables have (dimensions and the auxiliary coordinates named by the variable, without those of a type that one of its dimensions has), with the type of each axis following from standard name, units, positive and axis attribute, and each variable gets its own; none of it depends on the names or the order of variables, axes and attributes. Grid mapping, simple grids, vertical transformations (from the type of the axis or from its own formula terms, each term in its role, only if all terms live on the axes of the system), variables depended on and the horizontal systems with the variables belonging or incompatible to them agree with the metadata. Components of vectors are paired by standard name and shape, each with its own counterpart and direction.",
  ["inputs"], "80000 datasets per run",
  "tests look at a few files",
  ["src/coordSys/CF1_xCoordSysBuilder.cc", "src/coordSys/CoordinateSystem.cc", "src/coordSys/CoordinateAxis.cc"],
  [("conventions", "src/coordSys/CF1_xCoordSysBuilder.cc"), ("horizontal systems", "src/coordSys/CoordinateSystem.cc")])

P("C27", "The C interface delivers what the C++ interface delivers",
  "Every query of the C interface (variables, dimensions, types, lon/lat, projection, axis types, slice positions, reference time) answers what the dataset says, and reads and writes through slice builders deliver exactly the chosen hyperslab in the variable's own dimension order, scaled, with NaN for undefined values, in the unit asked for. Callbacks get the scaled values of their variable and every later read delivers what they left, without touching the source; files, interpolators and in-place updates give the same as the C++ classes. Missing names, unfit arguments and failures are reported by the return value: no exception leaves, nothing is written outside of the caller's buffer whatever its capacity.",
  ["inputs", "histories"], "about 4500 datasets and call sequences per run",
  "the tests use one file and a few calls",
  ["src/c_fimex.cc", "src/C_CDMReader.cc", "src/coordSys/CoordinateSystemSliceBuilder.cc"],
  [("C functions", "src/c_fimex.cc"), ("callbacks", "src/C_CDMReader.cc")])

P("C29", "Files are found by pattern and recognised for what they are",
  "A glob or scan delivers exactly the files below its directory that match (? one character, * within a name, ** across directories, everything else literally) and lie within its depth, each once and in order, for every tree and pattern. A file read without a known type is read as what its first bytes say (every NetCDF format, GRIB 1 and 2) whatever its name, otherwise by its extension, and a file is written in the format its type or else its extension says; what cannot be recognised is refused. A dataset given as glob, list or several file names is the sequence of these files whatever characters their names contain.",
  ["inputs", "histories"], "79000 trees, patterns and files per run",
  "the tests open a handful of files under their usual names",
  ["src/FileUtils.cc", "src/CDMFileReaderFactory.cc", "src/io/netcdf/NetCDFIoFactory.cc", "src/io/grib/GribIoFactory.cc", "src/IoFactory.cc"],
  [("patterns", "src/FileUtils.cc"), ("recognition", "src/CDMFileReaderFactory.cc")])
