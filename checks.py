"""What is checked, how it is built, and what is claimed (MANIFEST.json is generated from here)."""

VARIANTS = {
    # library and harnesses; own build tree, never /repo/_build
    "asan": dict(flags="-O1 -g0 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer", hflags="-O1 -g0 -fsanitize=address -fno-omit-frame-pointer"),
    # instrumented memory accesses, own runtime instead of the thread sanitizer's (lib/vsched.cc)
    "race": dict(flags="-O1 -g1 -DNDEBUG", hflags="-O1 -g1", copts="-fsanitize=thread"),
}

MC = "exhaustive bounded exploration of the real code against a reference model"

CHECKS = {
    "C01": dict(
        programs=[dict(name="c01", sources=["c01.cc"])],
        technique="explicit-state breadth-first exploration of edit sequences on the real code against a reference model",
        level="model_checking",
        level_note="Every edit of the alphabet from every reachable model state within the bound; agreement of all observers.",
        bounds="3 variable, 3 dimension, 2 attribute names; see spaces",
        assumptions=["attribute and dimension order is not part of the promise"],
    ),
    "C02": dict(
        programs=[dict(name="c02", sources=["c02.cc"], lib=["fx.cc"])],
        technique="exhaustive enumeration of array shapes, readers and slice requests on the real code against a naive sub-array model",
        level="model_checking",
        level_note="All slices of all enumerated shapes for every reader stage; values compared element by element.",
        bounds="<=4 dimensions, lengths <=3",
    ),
    "C03": dict(
        programs=[dict(name="c03", sources=["c03.cc"], lib=["fx.cc"])],
        technique="exhaustive enumeration of type pairs, packings, fill values and boundary values on the real code against exact arithmetic",
        level="model_checking",
        level_note="All ordered type pairs x fill pairs x packings x boundary values; oracle is extended-precision arithmetic.",
        bounds="10 numeric types, 9 fill values, 6 packings, ~90 boundary values per type, arrays <=3 (5) elements for assignment",
    ),
    "C17": dict(
        programs=[dict(name="c17", sources=["c17.cc"], lib=["fx.cc"])],
        technique="exhaustive enumeration of unit pairs/triples and of operation sequences on the real code against an independent unit table",
        level="model_checking",
        level_note="All ordered pairs and chains of 41 units in 9 families; all operation sequences up to the bound.",
        bounds="41 units, 12 values, sequences <=4 (6)",
    ),
    "C04": dict(
        programs=[dict(name="c04", sources=["c04.cc"], lib=["fx.cc"])],
        technique='exhaustive exploration of selection sequences on the real code against a naive selection model',
        level="model_checking",
        level_note='All subsets of three dimensions with all sub-slices; all operation pairs (triples thorough); all limit combinations by value.',
        bounds='3 dimensions of length 3, 7 variables, operation sequences <=2 (3)',
    ),
    "C05": dict(
        programs=[dict(name="c05", sources=["c05.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of datasets (shapes, types, attributes, formats) and writer configurations, written and read back by the real code',
        level="model_checking",
        level_note='All shapes up to 3 dimensions x 4 formats x 12 types with extreme values; all pairs of 18 writer settings.',
        bounds='<=3 dimensions of length <=3 (4), 12 types, 4 formats',
    ),
    "C06": dict(
        programs=[dict(name="c06", sources=["c06.cc"], lib=["fx.cc"])],
        technique='exhaustive exploration of update sequences on the real file writer against an array model',
        level="model_checking",
        level_note='All sequences of 17-20 update operations to the bound, three file formats; all slices of all shapes.',
        bounds='sequences <=3 (4), shapes <=3 dimensions of length <=3',
    ),
    "C07": dict(
        programs=[dict(name="c07", sources=["c07.cc"], lib=["fx.cc"])],
        technique='exhaustive fault enumeration: every output/input system call of a run fails in every mode; every source read fails',
        level="model_checking",
        level_note='Real code with interposed system calls; every call position of every run x 4 fault modes; source failures x threads.',
        bounds='4 datasets x 5 formats; all call positions',
    ),
    "C10": dict(
        programs=[dict(name="c10", sources=["c10.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of grids, methods, target positions, windows and slices on the real code against independent interpolation formulas and libproj',
        level="model_checking",
        level_note='All source axes x target positions x methods; oracle computes each target value directly from the source grid.',
        bounds='grids <=4x5, 5 methods, 6 projections; see spaces',
    ),
    "C11": dict(
        programs=[dict(name="c11", sources=["c11.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of cell assignments, undefined patterns, grids, methods and slices on the real code against naive aggregation',
        level="model_checking",
        level_note='Every assignment of 4 source cells to 4 target cells or outside x every undefined pattern x 10 methods; 7x9 grid pairs.',
        bounds='4 source cells x 5 targets exhaustively; grids <=30x25',
    ),
    "C12": dict(
        programs=[dict(name="c12", sources=["c12.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of all undefined-cell masks of all small fields on the real code against the defining equations',
        level="model_checking",
        level_note='All 2^n masks of all fields up to 15 (16) cells x 26 parameter settings; converged fields satisfy the discrete Laplace equation.',
        bounds='fields <=15 (16) cells exhaustively, blocks in fields up to 8x6',
    ),
    "C13": dict(
        programs=[dict(name="c13", sources=["c13.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of projection pairs, output shapes, vectors and datasets on the real code against the angle of true north computed with libproj',
        level="model_checking",
        level_note='All projection pairs x output shapes and orientations x vectors and directions; through interpolated and turned datasets, all slices.',
        bounds='11 grids in 8 projections, output grids <=3x3 (5x5)',
    ),
    "C14": dict(
        programs=[dict(name="c14", sources=["c14.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: vertical coordinates, methods, level orders, missing patterns and slices; oracle written from the CF formulas',
        level="model_checking",
        level_note='real interpolator and converters over in-memory datasets, all combinations in the bounds',
        bounds='29 coordinate/target pairs, 7 methods, 4 packings, both directions, 1-3 times, 2-4 levels in every order',
    ),
    "C30": dict(
        programs=[dict(name="c30", sources=["c30.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: conversions, vertical coordinates, storages, dimension orders and operation sequences; oracle is the published formula',
        level="model_checking",
        level_note='real converters over in-memory datasets; every sequence of operations up to 4',
        bounds='4 conversions x 7 pressure coordinates x storages x 5 dimension orders x 4 time layouts',
    ),
    "C15": dict(
        programs=[dict(name="c15", sources=["c15.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: all days, seconds and milliseconds of ranges in 10 units, all short lists and strings; independent calendar as oracle',
        level="model_checking",
        level_note='real TimeUnit, FimexTime, TimeSpec, SpatialAxisSpec, tokenizeDotted',
        bounds='every day of 1895-2104 (1800-2399), every 7th (every) second of two days, every 3rd (every) ms of two minutes, all lists up to 5 (6) tokens of 5',
    ),
    "C16": dict(
        programs=[dict(name="c16", sources=["c16.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: all pairs and triples of new times at, between and outside source times, all missing patterns, all sequences of axis changes; interpolation formula as oracle',
        level="model_checking",
        level_note='real CDMTimeInterpolator over in-memory readers',
        bounds='2-5 source times, 1-7 new times, sequences up to 3 (4) changes',
    ),
    "C18": dict(
        programs=[dict(name="c18", sources=["c18.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: all inner grid sizes x transition and border widths x storages, all missing patterns, all axis directions and projections; linear outer field as oracle',
        level="model_checking",
        level_note='real CDMBorderSmoothing, CDMOverlay, CDMMerger over in-memory readers',
        bounds='inner grids up to 6x6 (8x8), 512 (4096) missing patterns',
    ),
    "C19": dict(
        programs=[dict(name="c19", sources=["c19.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: all histories of reads up to length 3 (4), all undefined patterns, storages, layouts; reference sums, differences and formulas as oracle',
        level="model_checking",
        level_note='real CDMProcessor over in-memory readers',
        bounds='read histories up to 3 (4), 4 (5) times, 256 (1024) patterns, grids up to 5x5x4 (6x6x4)',
    ),
    "C20": dict(
        programs=[dict(name="c20", sources=["c20.cc"], lib=["fx.cc"])],
        technique='bounded exhaustive enumeration on the real code: all status patterns of 4 points (5 status values) x acceptance rules x storages, layouts, external masks; direct evaluation of the rule as oracle',
        level="model_checking",
        level_note='real CDMQualityExtractor over in-memory readers and NetCDF masks',
        bounds='625 status patterns, 10 rules, 6 layouts, 6 status and 5 data storages',
    ),
    "C21": dict(
        programs=[dict(name="c21", sources=["c21.cc"], lib=["fx.cc"])],
        technique='explicit-state exploration of fill histories on the real code: all sequences of up to 3 fills over a set of blocks, all ordered coordinate selections, packings and units; the reopened file is compared with a reference model after each fill',
        level="model_checking",
        level_note='real FillWriter on real NetCDF classic and netCDF-4 files',
        bounds='12 blocks, depth 3; 4 times x 3 levels ordered selections; 11x11 packings; 4x4 units',
    ),
    "C09": dict(
        programs=[dict(name="c09", sources=["c09.cc"], lib=["fx.cc"])],
        technique='explicit enumeration of all member sequences (up to 3/4 of a library of member datasets) for the three aggregation types on the real code; every sub-array of every variable compared with a reference aggregation',
        level="model_checking",
        level_note='real AggregationReader over in-memory members and NcML documents over NetCDF files',
        bounds='10 (13) member kinds, sequences up to 3 (4), sub-arrays exhaustive',
    ),
    "C08": dict(
        programs=[dict(name="c08", sources=["c08.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of NcML documents on the real code: all subsets of a set of changes, all injective renamings in all document orders, all type pairs; description and all data compared with a reference transformation',
        level="model_checking",
        level_note='real NcmlCDMReader over in-memory readers and NetCDF files',
        bounds='16 changes (subsets up to 4 and from 13; thorough: all), 4 variables, 3 dimensions, 3 attributes, 10 types',
    ),
    "C24": dict(
        programs=[dict(name="c24", sources=["c24.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of projection definitions and of sequences of parameter changes on the real code, positions compared with libproj applied directly to the definition and with an independent CF table',
        level="model_checking",
        level_note='real Projection classes; libproj is the reference',
        bounds='18 projection families, 18+8 earth figures, all listed parameter values; change sequences of length 3 (thorough 4)',
    ),
    "C23": dict(
        programs=[dict(name="c23", sources=["c23.cc"], lib=["fx.cc", "vsched.cc", "libhooks.S"], variant="race", cflags="-fno-builtin",
                       ldflags="-rdynamic -Wl,--no-as-needed -lnetcdf -ludunits2 -lproj -Wl,--version-script=@LIB@/vsched.map")],
        technique='stateless model checking of the real code: all thread schedules within a preemption bound under a controlled scheduler, with happens-before race detection in every execution',
        level="model_checking",
        level_note='real library code, every memory access instrumented; the OpenMP runtime is replaced by a controlled scheduler (lib/vsched.cc); calls of netcdf, udunits and proj count as writes of that library\'s state',
        bounds='42 reader stacks x null, NetCDF-3/4, fill writer; 2 threads with 2 preemptions (1 where more than 1200 executions are expected); thorough: 2 threads/3, 3 threads/2, 4 threads/1',
    ),
    "C22": dict(
        programs=[dict(name="c22", sources=["c22.cc"], lib=["fx.cc"], ldflags="-L@BUILD@/src/io/grib -lfimex-io-grib-2.4 -Wl,-rpath,@BUILD@/src/io/grib -leccodes")],
        technique='exhaustive enumeration of GRIB files (messages, order, presence, grids, times, levels) read with the real GRIB reader; the messages are produced by the codec library alone and its geometry is the oracle',
        level="model_checking",
        level_note='real reader code; the codec library (eccodes) is the reference for encoding and for positions',
        bounds='GRIB 1 and 2; up to 3 times x 3 levels x 2 members in 1-2 files: every presence pattern up to 4 (thorough 6) messages, single gaps beyond, 3 message orders, all sub-arrays over time/level/member; 4 grid types x scan directions x parameters x earth figures (2200 grids per edition); 9 step units x dates x time units; hybrid levels; 13-17 selection rules in pairs x 2 modes; 4 types x scales x missing points; every truncation of a two-message file; index files of 8 grids x layouts, also appended',
    ),
    "C29": dict(
        programs=[dict(name="c29", sources=["c29.cc"], lib=["fx.cc"], ldflags="-leccodes -lnetcdf")],
        technique='exhaustive enumeration of directory trees and patterns, and of contents, names and types of files, through the real search and recognition code, compared with a matcher on the model tree and the kind each file was made as',
        level="model_checking",
        level_note='real code on scratch directories',
        bounds='20 patterns in all 512 subsets of 9 paths (3 levels; thorough: all patterns up to 3 characters); all patterns of up to 5 (thorough: 6) characters of an alphabet of 7 in the full tree, relative and absolute; 16 names with special characters with wildcards at all positions; links, fifos, empty directories; scans with 9 expressions x 5 depths; all names of up to 5 characters; 12 contents x 13 names x 10 types read; 84 names and types written; pairs of 18 names in lists, globs and arguments',
    ),
    "C27": dict(
        programs=[dict(name="c27", sources=["c27.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of datasets, slices, buffer capacities, callbacks, files and error cases through the real C interface, compared with an array model and the C++ interface',
        level="model_checking",
        level_note='real code, under the address sanitizer; guard zones around every buffer',
        bounds='datasets with one variable (11 shapes x 4 packings) and with two variables of all pairs of orders of 3 dimensions (4 dimensions: a sixth of the pairs, thorough: all), with and without lon/lat and mapping; every string function with every capacity; all slices of every variable; 4 callbacks x 16 packings x 5 shapes, chained and in memory; 4 kinds of files x 3 names x 5 types; 17 methods x 24 axis specifications; 144 reference times',
    ),
    "C26": dict(
        programs=[dict(name="c26", sources=["c26.cc"], lib=["fx.cc"])],
        technique='exhaustive enumeration of metadata (attribute combinations, sets of variables, formula terms, orders, names) through the real coordinate-system search, compared with a declarative model of the conventions',
        level="model_checking",
        level_note='real code; the model is a set-valued specification evaluated independently for every enumerated dataset',
        bounds='24 standard names x 26 units x positive x axis, dimension or auxiliary, both orders of attributes; sets of 1 and 2 variables out of 66 (15 shapes, 10 lists of auxiliary coordinates, grid mapping or not), 4 naming schemes, 5 conventions, axes first or last; 8 names of heights; 7 formulas in all orders of terms, 5 shapes of the variable, each term with a foreign dimension; all pairs and triples of formulas in a dataset; 9 sets of vector components in all orders, all combinations of shapes; thorough: all triples of variables',
    ),
    "C25": dict(
        programs=[dict(name="c25", sources=["c25.cc"], lib=["fx.cc"], ldflags="-leccodes")],
        technique='exhaustive enumeration of datasets and writer configurations written with the real GRIB writer; the files are decoded with the codec library alone and compared with the dataset',
        level="model_checking",
        level_note='real writer code; the codec library (eccodes) and libproj are the reference for what a message says',
        bounds='both editions; 6400 grids (longitude-latitude, rotated, polar stereographic, Lambert; directions, origins, units, parallels) of 4x3 points; 1 to 3 times out of 11 steps, 4 reference times, 3 units; 1 to 3 reference times with 1 to 3 steps; 1 to 4 levels in 9 encodings; 9 types, 4 packings, 3 units, all subsets of missing points of a 3x2 field; all sequences of 3 write modes; all orders of dimensions; thorough: all combinations of times and units',
    ),
}

NOT_APPLICABLE = {}
