GVN = "gated value numbering (abstract interpretation over LLVM IR)"
GNOTE = ("Source is compiled to SSA IR by clang 18 and evaluated abstractly in a domain of decision diagrams over value numbers; "
         "an obligation is discharged when the computed and the specified value numbers agree on every path. Exact arithmetic is assumed "
         "(no rounding), external libraries follow the models in DESIGN.md; constructs outside the domain are reported as undecided, never as violations.")
PYT = "abstract interpretation of the Python sources (symbolic values with path splitting, terms compared as value numbers)"
PYNOTE = ("The functions are evaluated from Python's syntax tree over symbolic values; numpy, logging and h5py follow models in sa/pyev.py. "
          "Arithmetic is exact (no rounding); a construct outside the domain leaves the obligation undecided, never a violation.")
CR = "geomodelgrids/create/"
S = "libsrc/geomodelgrids/serial/"
PROPS = [
 dict(id="Q01", title="A point is in a model exactly when it is in the model's box below the top",
  statement="For every point and every model orientation, origin, extent and coordinate system, a model contains the point exactly when, after conversion into the model's coordinate system and rotation and translation into its axes, 0<=x<=dim_x, 0<=y<=dim_y and the logical elevation lies in [-dim_z, 0]. The logical elevation is -dim_z*(z_top-z)/(z_top+dim_z) where z_top is the model's top surface at that point, or 0 without a top surface.",
  over=["inputs", "configurations"], quant="every query point, azimuth, origin, dimensions and surface elevation",
  why="The tests sample a few points of four fixture models; a wrong sign, axis or boundary comparison shows only at particular orientations and edges.",
  files=[S + "Model.cc"], mech=[("Model::contains", S + "Model.cc"), ("Model::toModelXYZ", S + "Model.cc")],
  tech=GVN, note=GNOTE),
 dict(id="Q02", title="Block queries use the block enclosing the point and its own grid indices",
  statement="For every point, a model is queried through a block whose vertical range encloses the point's logical elevation, no enclosing block is passed over, and candidates are visited from the top down. Within the block every axis index is computed from that axis' own coordinate (distance below z_top for the vertical) with that axis' resolution or coordinates.",
  over=["inputs", "configurations"], quant="every point and every stack of blocks with uniform or variable resolution",
  why="Fixture models have few blocks with similar spacing, so selecting a neighbouring block or exchanging two axes goes unnoticed.",
  files=[S + "Model.cc", S + "Block.cc"], mech=[("Model::query", S + "Model.cc"), ("Block::query", S + "Block.cc"), ("Block::loadMetadata", S + "Block.cc")],
  tech=GVN, note=GNOTE),
 dict(id="Q03", title="Surface elevation queries come from the first model containing the point",
  statement="For every location, the top or topography/bathymetry elevation is that of the first listed model containing a point just below that model's surface, evaluated on the requested surface at the location in the model's axes and converted back to the caller's coordinate system. It is NODATA_VALUE when no model contains it, and a model without the surface supplies elevation 0.",
  over=["inputs", "configurations"], quant="every location and every ordered list of models",
  why="Tests query a handful of locations with identical horizontal systems, where exchanged surfaces, coordinates or model order agree.",
  files=[S + "Query.cc", S + "Model.cc", S + "Surface.cc"], mech=[("Query::queryTopElevation", S + "Query.cc"), ("Query::queryTopoBathyElevation", S + "Query.cc"), ("Surface::query", S + "Surface.cc")],
  tech=GVN, note=GNOTE),
 dict(id="Q04", title="The first listed model containing the point supplies all values",
  statement="For every point and every ordered list of models, all requested values come from the first model that contains the point (after any squashing), each taken from the position of its own name in that model. When no model contains the point every value is NODATA_VALUE; the returned status is OK in the first case and a warning in the second. The models of a query are those of the files given to initialize(), in that order, each opened for reading and prepared with the coordinate system given; one value is written for every name requested, and no more.",
  over=["inputs", "configurations", "histories"], quant="every point, list of models and list of requested values",
  why="Tests use two or three models and fixed points; overlap order, partially filled results and value order are sampled only there.",
  files=[S + "Query.cc"], mech=[("Query::query", S + "Query.cc")], tech=GVN, note=GNOTE),
 dict(id="Q05", title="Squashing shifts elevations above the minimum elevation and nothing else",
  statement="With squashing on, a query elevation above the minimum squashing elevation z_s is replaced by s + z*(z_s-s)/z_s, s being the elevation of the selected surface at the point; at or below z_s, and with squashing off, elevations are unchanged. Setting a minimum elevation turns squashing relative to the top surface on if it was off and keeps a mode chosen before; setting a mode keeps the elevation.",
  over=["inputs", "histories"], quant="every elevation, surface elevation, minimum elevation and order of the configuration calls",
  why="The tests check a few points per mode; boundary, sign and call-order errors survive them.",
  files=[S + "Query.cc"], mech=[("Query::query", S + "Query.cc"), ("Query::setSquashMinElev", S + "Query.cc"), ("Query::setSquashing", S + "Query.cc")],
  tech=GVN, note=GNOTE),
 dict(id="Q06", title="Requested values are matched by name, ignoring case, and in the order given",
  statement="Whatever the case of the requested and stored names, requested value i is mapped in every model to the position of the stored value with that name. Initialisation raises an exception when some model lacks a requested value or when two models give the same value in different units, and never otherwise for these reasons.",
  over=["inputs", "configurations"], quant="every list of requested names and every list of models with their value names and units",
  why="Tests initialise with a few spellings and models with equal units and orders.",
  files=[S + "Query.cc"], mech=[("Query::initialize", S + "Query.cc"), ("_Query::toLower", S + "Query.cc")], tech=GVN, note=GNOTE),
 dict(id="Q07", title="Interpolation is multilinear over the corners of the enclosing grid cell",
  statement="For every index inside a grid, the value interpolated for each stored quantity is the sum over the 2^d corners of the cell enclosing the index of the corner value times the product of the distances to the opposite faces (NODATA aside), and the nearest-point query gives the value of the grid point nearest to the index. Both read the grid point they name: no axis, stride or quantity is exchanged and the cell never leaves the data held in memory.",
  over=["inputs", "histories"], quant="every index, grid shape, slab position and number of stored values, for 2-D surfaces and 3-D blocks",
  why="Fixture grids hold linear functions of position, for which many wrong corner or weight choices still give the right number.",
  files=[S + "Hyperslab.cc"], mech=[("Hyperslab::interpolate", S + "Hyperslab.cc"), ("Hyperslab::nearest", S + "Hyperslab.cc")], tech=GVN, note=GNOTE),
 dict(id="Q08", title="NODATA at a corner makes the interpolated value NODATA",
  statement="In three-dimensional blocks, interpolation gives NODATA_VALUE for a stored quantity whenever one of the eight corner values of that quantity is NODATA_VALUE, whether the file stores it in double or in single precision, and never otherwise; the other quantities are not affected. The nearest-point query gives NODATA_VALUE exactly when that grid point holds it.",
  over=["inputs"], quant="every corner and quantity, each combination of NODATA and ordinary corner values",
  why="Fixtures contain no NODATA next to data, so blending -1e20 into an average goes unnoticed.",
  files=[S + "Hyperslab.cc"], mech=[("Hyperslab::interpolate", S + "Hyperslab.cc")], tech=GVN, note=GNOTE + " Every corner is decided for NODATA and for ten ordinary magnitudes; a threshold between those magnitudes and NODATA_VALUE is accepted."),
 dict(id="Q09", title="Data held in memory covers the cell of every queried index",
  statement="For every sequence of queries, the part of a dataset held in memory when values are interpolated contains the whole cell of the queried index along every axis: data kept from an earlier query covers it, and otherwise a slab inside the dataset that covers it is read into the buffer, which is large enough for it.",
  over=["inputs", "histories"], quant="every index in a grid, dataset extent, slab extent and slab position left by earlier queries",
  why="The error appears only after a particular earlier query and for indices at the edge of the slab; tests query few points in small grids held in one slab.",
  files=[S + "Hyperslab.cc"], mech=[("Hyperslab::interpolate", S + "Hyperslab.cc"), ("HDF5::readDatasetHyperslab", S + "HDF5.cc")],
  tech="value numbering of clang LLVM IR; covering decided as entailment of integer linear inequalities (Fourier-Motzkin)", note=GNOTE + " Slabs with a single point along an axis of a larger dataset are outside the property."),
 dict(id="Q10", title="After a slab could not be read the query fails and the next one reads again",
  statement="When reading a slab of a dataset fails, the query that needed it fails, and no later query takes values from the buffer that was not filled: the next query reads its slab again, whatever was held in memory before the failure.",
  over=["inputs", "histories", "fault_sequences"], quant="every sequence of queries in which a read fails",
  why="Tests never let a read fail in the middle of a sequence of queries; stale or unread values are then returned with status OK.",
  files=[S + "Hyperslab.cc"], mech=[("Hyperslab::interpolate", S + "Hyperslab.cc"), ("Hyperslab::nearest", S + "Hyperslab.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE),
 dict(id="Q11", title="Grid index of a distance is linear between grid points for either spacing",
  statement="The index of a distance along an axis is the distance divided by the spacing for uniform axes (whose spacing must be positive), and for axes with listed coordinates is k at coordinate k, in the order the axis is oriented, and linear in between, for every increasing or decreasing list. The coordinates are sorted with a strict ordering.",
  over=["inputs", "configurations"], quant="every spacing, list of coordinates and distance inside them",
  why="Tests use a few short lists; wrong bracketing of an interval or a wrong end shows only for particular lengths and distances.",
  files=["libsrc/geomodelgrids/utils/Indexing.cc"], mech=[("IndexingUniform::getIndex", "libsrc/geomodelgrids/utils/Indexing.cc"), ("IndexingVariable::getIndex", "libsrc/geomodelgrids/utils/Indexing.cc")],
  tech=GVN, note=GNOTE + " Lists of 2 to 6 coordinates are analysed in the quick tier, of 2 to 10 in the thorough tier."),
 dict(id="Q12", title="A query object that is not initialised answers without using any model",
  statement="Before initialisation, after an initialisation that failed at any point, and after finalisation, a point query returns an error and the elevation queries give NODATA_VALUE without touching any model; a failing initialisation is reported by an exception and finalising again is harmless.",
  over=["histories", "fault_sequences"], quant="every point of failure during initialisation and every order of calls",
  why="Tests initialise successfully and query in between; the failure left half-opened models that crash in the next query.",
  files=[S + "Query.cc"], mech=[("Query::initialize", S + "Query.cc"), ("Query::finalize", S + "Query.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE),
 dict(id="H01", title="Handles, arrays and objects are released exactly once on every path",
  statement="Everything the library obtains - HDF5 handles, PROJ and GDAL objects, variable-length strings read from attributes, arrays and objects - is, on every path out of every function, by return or by exception, either released with the matching function, exactly once, and not used afterwards, or kept by an object that releases it. A member that holds something releases it before it is replaced, does not keep it after it was released, and is released once by the destructor; objects that own something are not copied member by member.",
  over=["fault_sequences", "histories", "inputs"], quant="every path of every function of the library and the applications, with every call failing or raising an exception",
  why="Tests never let HDF5, PROJ or GDAL fail in the middle, and a leak or a second release is not visible in the result; a long-running query service opens many files, and a dangling member crashes only in a later call.",
  files=[S + "HDF5.cc", S + "Hyperslab.cc", S + "Block.cc", S + "Surface.cc", "libsrc/geomodelgrids/utils/CRSTransformer.cc", "libsrc/geomodelgrids/utils/GeoTiff.cc"],
  mech=[("HDF5::readAttribute", S + "HDF5.cc"), ("Hyperslab::Hyperslab", S + "Hyperslab.cc"), ("GeoTiff::close", "libsrc/geomodelgrids/utils/GeoTiff.cc")],
  tech="ownership analysis of LLVM IR: gated value numbering with exceptional control flow, release conditions compared with path conditions", note=GNOTE),
 dict(id="H02", title="Failures of HDF5, PROJ and GDAL raise exceptions; files cannot abort",
  statement="Whenever a call of the HDF5, PROJ or GDAL library that opens, creates, describes, selects, reads, writes or closes something fails, the function of the library that made it leaves with an exception (a C++ exception that reaches its caller), and the failed handle, object or size is not passed on to another call of these libraries. Closing in destructors excepted, and lookups excepted where unknown is an answer (whether something exists; units of a CRS). No assertion or abort depends on what a file or these libraries returned: a damaged, incomplete or unreadable file never terminates the program.",
  over=["fault_sequences", "inputs"], quant="every failing library call on every path, and every content of files",
  why="Tests read well-formed fixtures and a few missing files; an ignored error code gives garbage values with status OK, and an assertion takes down the process that embeds the library.",
  files=[S + "HDF5.cc", "libsrc/geomodelgrids/utils/GeoTiff.cc", "libsrc/geomodelgrids/utils/CRSTransformer.cc", S + "Model.cc", S + "Block.cc", S + "Surface.cc", S + "Hyperslab.cc"],
  mech=[("HDF5::readDatasetHyperslab", S + "HDF5.cc"), ("HDF5::open", S + "HDF5.cc"), ("GeoTiff::create", "libsrc/geomodelgrids/utils/GeoTiff.cc"), ("CRSTransformer::initialize", "libsrc/geomodelgrids/utils/CRSTransformer.cc")],
  tech="failure propagation over LLVM IR: gated value numbering with exceptional control flow, and backward slices of assertion conditions", note=GNOTE),
 dict(id="H04", title="Metadata of a model are those of its file; incomplete files are refused",
  statement="After the metadata of a model were loaded, every getter of the model, its description, its blocks and its surfaces returns the value the file has under the documented name: description texts, value names and units, layout, dimensions, origin, azimuth and coordinate system; per block and surface the spacing or the coordinates (all of them, sorted in the order of the axis) and the numbers of points, and top and bottom of a block. A file that lacks one of them, whose coordinates do not match the number of points, or with another layout or rank raises an exception instead of giving a model, whichever block or surface it concerns; a complete file is accepted, and the auxiliary description and the surfaces are optional. Initialising a model prepares every block and each existing surface for queries of its own dataset of that file (with a window in memory of the extents set by setHyperslabDims()), and transforms from the coordinate system of the input to that of the model.",
  over=["inputs", "configurations"], quant="every content of a file (which attributes and datasets exist, their values, extents and ranks, the number of blocks) and every failing reading",
  why="Tests load a few fixtures whose attributes often have equal values and leave out one attribute of one block; exchanged names, one missing attribute that is not noticed or a forgotten block show only with other files.",
  files=[S + "Model.cc", S + "ModelInfo.cc", S + "Block.cc", S + "Surface.cc"],
  mech=[("Model::loadMetadata", S + "Model.cc"), ("ModelInfo::load", S + "ModelInfo.cc"), ("Block::loadMetadata", S + "Block.cc"), ("Surface::loadMetadata", S + "Surface.cc"), ("Model::initialize", S + "Model.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE + " Newly created model, block and surface objects; the functions that read attributes and extents write only what they are given the address of."),
 dict(id="H03", title="The HDF5 wrapper reads exactly what was asked for, complete and in its place",
  statement="The functions of the HDF5 wrapper act on what their arguments name in their own open file. An attribute number is refused unless it is one value and is stored converted to the type asked for; lists come with their count. Texts, of fixed or variable length, come complete, each in its place (a missing text is empty), and are refused unless they are text of one value or a list. getDatasetDims gives rank and extents, getGroupDatasets every name, complete and in order. hasAttribute/Group/Dataset are true exactly for what exists and is of that kind; a missing name is no error. readDatasetHyperslab reads exactly the window asked for without gaps, in the type asked for, refuses another rank and accepts a window inside. open() creates or truncates only when asked, is refused on an open file, and uses the cache settings. Every buffer is large enough and nothing else is written; what meets the conditions is accepted when nothing fails.",
  over=["inputs", "fault_sequences"], quant="every name, rank, extent, type, string length and result of the HDF5 library",
  why="Tests read a few fixtures with short names, fixed-length texts and one type; a name one character longer than a buffer, another type or rank, or a second entry show only with other files.",
  files=[S + "HDF5.cc", S + "HDF5.hh"],
  mech=[("HDF5::readAttribute", S + "HDF5.cc"), ("HDF5::readDatasetHyperslab", S + "HDF5.cc"), ("HDF5::getDatasetDims", S + "HDF5.cc"), ("HDF5::getGroupDatasets", S + "HDF5.cc"), ("HDF5::open", S + "HDF5.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE + " The HDF5 library does what its documentation says."),
 dict(id="C01", title="Coordinate transformations are PROJ's between the systems asked for",
  statement="After initialize(), CRSTransformer::transform() gives the x, y (and, where a place for it is given, z) of PROJ's forward transformation, from the source to the destination system set last, of exactly the point given, with the axis order and units the two systems define; inverse_transform() gives the inverse; nothing else is written, and whatever PROJ can transform is accepted, while a pair of systems for which PROJ has no transformation is an error. createGeoToXYAxisOrder() gives a transformer from the system given to the same system in x/y axis order. getCRSUnits() gives, for each place given, the unit of that axis (metre/meter as meter, kilometre as kilometer, others verbatim) of the system named or, for a bound system, of its source system; an empty text, a text that is no system, or an axis the system does not have gives 'unknown' ('meter (assumed)' for the vertical), and an axis that does not exist is never read.",
  over=["inputs"], quant="every pair of systems, point, set of output places and result of PROJ",
  why="Tests transform a few points between two systems and read the units of three; exchanged axes, a dropped elevation, a missing axis or a bound system show only with other systems.",
  files=["libsrc/geomodelgrids/utils/CRSTransformer.cc", "libsrc/geomodelgrids/utils/CRSTransformer.hh"],
  mech=[("CRSTransformer::transform", "libsrc/geomodelgrids/utils/CRSTransformer.cc"), ("CRSTransformer::initialize", "libsrc/geomodelgrids/utils/CRSTransformer.cc"), ("CRSTransformer::getCRSUnits", "libsrc/geomodelgrids/utils/CRSTransformer.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE + " PROJ does what its documentation says."),
 dict(id="G01", title="GeoTIFF images are written and read as set, the buffer fitting the image",
  statement="A file made by GeoTiff::create() and write() is the GeoTIFF file named, with the number of columns, rows and bands set, single precision values, the coordinate system set, the bounding box set (columns from minX to maxX, rows from maxY down to minY, no rotation), for every band its own label where there is one and the value for no data; its pixels are those of the getBands() buffer, band by band, row by row. getBands() gives the same buffer until the size changes and it always has room for the image of the size now set. read() takes size, coordinate system, bounding box, all band labels and all pixels from the file named, whatever the object was used for before, and refuses rotated images. Setters refuse (exception) a size of zero, NULL or empty coordinate systems and another number of labels than bands, and nothing else; getters give what was set, getBBox() writing only where a place is given. Every failure of GDAL or PROJ is an exception, and nothing else fails.",
  over=["inputs", "histories", "fault_sequences"], quant="every size, box, text, label list, file and result of GDAL and PROJ, and the object used before for another image",
  why="Tests write and read one image with one object; exchanged sizes, an old buffer, a band without its label or a rotated file show only with other images.",
  files=["libsrc/geomodelgrids/utils/GeoTiff.cc", "libsrc/geomodelgrids/utils/GeoTiff.hh"],
  mech=[("GeoTiff::create", "libsrc/geomodelgrids/utils/GeoTiff.cc"), ("GeoTiff::write", "libsrc/geomodelgrids/utils/GeoTiff.cc"), ("GeoTiff::read", "libsrc/geomodelgrids/utils/GeoTiff.cc"), ("GeoTiff::getBands", "libsrc/geomodelgrids/utils/GeoTiff.cc"), ("GeoTiff::setBBox", "libsrc/geomodelgrids/utils/GeoTiff.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE + " GDAL and PROJ do what their documentation says; an image read has at least one pixel and band."),
 dict(id="P01", title="Query programs answer every point of the file, one row per point",
  statement="geomodelgrids_query and geomodelgrids_queryelev query every point of the points file, up to the end of the file or to text that is not a number (the last point with or without a newline after it), in the order of the file, and write one row per point: the coordinates as read, then the values in the order requested (queryelev: the elevation of the top surface or, if asked for, of topography/bathymetry), as numbers separated by white space with at least seven significant digits, for every point also where there are no data. geomodelgrids_borehole queries at its location, from the top of the models at the location (within 1 mm) down in steps of dz as far as the maximum depth, and writes elevation, depth below the first point and values in one row per point; a location outside of the models gives no file and nonzero status. Before the first row is a header of lines starting with '#': the command line and the names of the columns. Models, values, coordinate system, squashing and log are set as requested before the first query. A points file that cannot be opened, or an output file that cannot be opened or written, is reported by an exception; --help prints and does nothing else. The programs exit with the status of the run, and nonzero after any exception.",
  over=["inputs", "configurations", "fault_sequences"], quant="every points file, command line, model, value returned, and failure of reading, writing, or querying",
  why="Tests compare a few columns for a file of a dozen points all of whose lines end in a newline; a point left out, a row cut short by an error, columns running together, or a setting applied too late show only with other files.",
  files=["libsrc/geomodelgrids/apps/Query.cc", "libsrc/geomodelgrids/apps/QueryElev.cc", "libsrc/geomodelgrids/apps/Borehole.cc", "bin/query.cc", "bin/queryelev.cc", "bin/borehole.cc"],
  mech=[("Query::run", "libsrc/geomodelgrids/apps/Query.cc"), ("QueryElev::run", "libsrc/geomodelgrids/apps/QueryElev.cc"), ("Borehole::run", "libsrc/geomodelgrids/apps/Borehole.cc"), ("main", "bin/query.cc")],
  tech=GVN + " with exceptional control flow and a model of iostreams", note=GNOTE + " Streams behave as the C++ standard says; words too long for a column (names of values) only shift the header."),
 dict(id="P02", title="Command line options of the query programs do what the help says",
  statement="geomodelgrids_query, geomodelgrids_queryelev, geomodelgrids_borehole and geomodelgrids_isosurface accept the options of their documentation in any order. An option sets the setting it names to its value and leaves all others as they are; given again, the last one counts (a list replaces the earlier list). File names and coordinate systems are the text as given; lists of files and values are split at commas, in order, with no element dropped or added; elevations, depths, locations, resolutions and the four bounds of --bbox (XMIN,XMAX,YMIN,YMAX) are numbers read with double precision, --num-search-points is a whole number; every --isosurface=NAME,VALUE adds one isosurface; keywords (top_surface, topography_bathymetry, none) select what they name. Without the option the setting has its documented default (coordinates in EPSG:4326, no squashing, minimum elevation of squashing -10 km, top surface, maximum depth 5 km, step 10 m; isosurfaces: vertical resolution 10 m, 10 search points, depth from topography/bathymetry, shallowest isosurface). --squash-min-elev asks for squashing to the top surface unless another surface is chosen. An unknown option, an option without its value, a location that is not two values, an unknown reference of depth, a box that is incomplete or has its bounds exchanged, a resolution or maximum depth that is not positive, fewer than three search points, or a missing required option is an exception before any file is opened or created; a complete command line is accepted. No arguments print the help, as --help does.",
  over=["inputs", "configurations"], quant="every option, every text given with it, every earlier setting, and every set of options given",
  why="Tests pass one good command line for each program; an option repeated, given in another order, with one element or with many, a number needing double precision, or a setting clobbered by another option is not tried.",
  files=["libsrc/geomodelgrids/apps/Query.cc", "libsrc/geomodelgrids/apps/QueryElev.cc", "libsrc/geomodelgrids/apps/Borehole.cc", "libsrc/geomodelgrids/apps/Isosurface.cc"],
  mech=[("Query::run", "libsrc/geomodelgrids/apps/Query.cc"), ("QueryElev::run", "libsrc/geomodelgrids/apps/QueryElev.cc"), ("Borehole::run", "libsrc/geomodelgrids/apps/Borehole.cc"), ("Isosurface::run", "libsrc/geomodelgrids/apps/Isosurface.cc")],
  tech=GVN + " with a model of getopt_long and of string streams", note=GNOTE + " getopt_long behaves as documented; text that is not a number is read as atof does. Abbreviated and one-letter options are not covered."),
 dict(id="P03", title="Isosurface program writes the depth of every isosurface for every pixel",
  statement="geomodelgrids_isosurface writes one image covering the bounding box (given in the axis order of its coordinate system) with square pixels of the horizontal resolution; the number of columns and rows is that extent divided by the resolution, to the nearest whole number, and the box of the image is its lower left corner plus that many pixels. The image has one band for each isosurface in the order given, labelled NAME=VALUE, the coordinate system of the bounding box and the missing value NODATA_VALUE; it is complete when it is written. Row 0 is the northern row. The value of a pixel is that at its centre, queried in the axis order of the coordinate system, and is the depth below the chosen surface (topography/bathymetry by default, or top surface) of the point where the value equals that of the isosurface: the column from the surface (less a fraction of a millimetre) to the maximum depth is searched afresh for every isosurface, in levels; each level divides the interval evenly by the number of search points and goes on with the interval just above the first point, from the top, that reaches the value (default), or just above the first point, from the bottom, whose value is below it (deeper isosurface preferred); where there is none it goes on with the top interval. Points of the finest level are no farther apart than the vertical resolution, with no more levels than that takes. The depth is interpolated linearly in the last interval, is 0 where all values are larger, and the missing value where the value is not reached or there is no surface. It is never NaN. Models are opened once with the names of the isosurfaces in order; the log is written when asked for; help succeeds and opens nothing; errors give a nonzero exit status.",
  over=["inputs", "configurations"], quant="every bounding box, resolution, list of isosurfaces, number of search points, depth and model",
  why="There is no test of the images written: the suite runs the program on one small box with one setting. Values where the search stops at the last point, rows and bands mixed up in other than square images, uniform values, missing surfaces and rounding of the number of pixels are not reached.",
  files=["libsrc/geomodelgrids/apps/Isosurface.cc", "bin/isosurface.cc"],
  mech=[("Isosurface::run", "libsrc/geomodelgrids/apps/Isosurface.cc"), ("main", "bin/isosurface.cc")],
  tech=GVN + " with loop summaries, run once for each search direction", note=GNOTE + " Arithmetic is over the reals. Logarithms and rounding are compared as formulas; a different formula is accepted or rejected by its values for a grid of settings."),
 dict(id="P04", title="Info program shows what each model says, and only what is asked for",
  statement="geomodelgrids_info opens every file of --models (a comma-separated list; a later one replaces an earlier) once for reading, in that order, prints its name, loads its metadata before using any of it, shows what is asked for, and closes it before the next. --description, --coordsys, --values and --blocks each show their part, --all shows all of them, other options leave them out; any of these options or --verify together with --models is accepted, --help prints all options and ends with 0 without opening models, and a missing --models or an unknown option is an error. Without --verify and --all, metadata that cannot be read does not end the program. Description: title, id, description, keywords, history, comment, creator (name, institution, email), authors, references, acknowledgement, repository (name, URL), DOI, version, license, auxiliary information if there is any, the dimensions in x, y, z, and the latitude and longitude of the four corners of the model, counterclockwise from its origin, with at least 6 digits; lists show every element in order with the separator between elements only. Coordinate system: CRS, its units for x, y, z, origin and azimuth. Values: number, name and unit of every value, and whether data are vertex- or cell-based. Blocks: number of points and resolution of each of the two surfaces, or None; the number of blocks and for every block its name, resolution, elevation of its top, number of points, and extent in x, y, z (from its coordinates where the resolution is variable).",
  over=["inputs", "configurations"], quant="every combination of options and every model",
  why="The tests compare the length of the output for a few options and models, so a value shown in place of another of the same length, or a part shown for the wrong option, goes unseen; models with variable resolution, one element in a list, or no surface are shown by few tests.",
  files=["libsrc/geomodelgrids/apps/Info.cc", "bin/info.cc"],
  mech=[("Info::run", "libsrc/geomodelgrids/apps/Info.cc"), ("main", "bin/info.cc")],
  tech=GVN + " with an analysis of the options as in P02", note=GNOTE + " What the members of Model, ModelInfo, Block and Surface give is taken for what the model says (H04)."),
 dict(id="P05", title="Verification by the info program reports OK or FAIL as the model calls for",
  statement="geomodelgrids_info with --verify or --all, and only then, verifies every model and reports each check once, as 'Verifying ...' followed by either OK or FAIL, a FAIL with a text saying what is wrong, a check reported whatever the others gave. The checks and when each is OK: metadata, when it can be loaded (std::runtime_error makes it FAIL and the verification goes on); coordinate system of the model, when its x and y units are equal; each surface the model has ('top surface', 'topography/bathymetry') and each block (by name), when it spans the domain in x and in y: first coordinate 0 and last the dimension of the domain, within 1e-6 of the dimension, where coordinates are those given, or, without, 0 to resolution*(points-1). With both surfaces: their x and y resolutions equal within 1e-4 (relative). A block of a model with a top surface also needs, in each direction in which that has a resolution > 0, a resolution that is an integer multiple of it within 1e-6. Blocks in the vertical: top of the first at 0, bottom of each equal to the top of the next, bottom of the last at -z dimension, within 1e-4; OK without blocks. No coordinate is read that does not exist.",
  over=["inputs", "configurations"], quant="every model (which surfaces, blocks, uniform or variable resolution) and set of options",
  why="The tests compare the length of the output for a few fixtures with one fault each; a check that looks at the other direction, ends with the last gap, compares without absolute value, or fails for variable resolution needs models the tests do not have.",
  files=["libsrc/geomodelgrids/apps/Info.cc"],
  mech=[("Info::run", "libsrc/geomodelgrids/apps/Info.cc"), ("Info::_verify", "libsrc/geomodelgrids/apps/Info.cc")],
  tech=GVN + "; conditions of the outcomes decided for a set of model descriptions", note="The conditions under which each outcome is written are exact for any number of blocks; they are compared with the specification at 818 descriptions of models (each fault, in each direction and place, alone and with others), so a difference that shows for none of these is not seen. Differences close to the tolerances, NaN and the case of one surface with and one without variable resolution are left out. What members of Model, Block and Surface give is taken for what the model says (H04)."),
 dict(id="E01", title="Error handler keeps status and message and writes the log; C functions match",
  statement="A new error handler has status OK, no message, and writes no file. setError(text) makes the status ERROR and setWarning(text) makes it WARNING, whatever it was before, each with exactly that text as the message; resetStatus() makes it OK with no message; nothing else changes status or message, and none of these writes to the log. setLogFilename(name) closes the log in use and starts the file of that name anew; afterwards setLoggingOn(true) closes the log and goes on at the end of the file named last, and setLoggingOn(false) closes it and writes to no file, in every order; getLogFilename() is the name given last. logMessage(text) writes the text to the log in use once, complete and as it is, and nothing else, and leaves the log open. The C functions do the same to the handler given, with the status of the same name (any value but 0 turns logging on); for a NULL handle they do nothing and give OK or NULL.",
  over=["inputs", "histories"], quant="every text, name and order of calls",
  why="The tests set one message and one log; an earlier message or status that is kept, a log that is started anew when logging goes on, text added or lost when it is logged, or a C function that maps another value need other orders of calls.",
  files=["libsrc/geomodelgrids/utils/ErrorHandler.cc", "libsrc/geomodelgrids/utils/ErrorHandler.hh", "libsrc/geomodelgrids/utils/cerrorhandler.cc", "libsrc/geomodelgrids/utils/cerrorhandler.h"],
  mech=[("ErrorHandler", "libsrc/geomodelgrids/utils/ErrorHandler.cc"), ("geomodelgrids_cerrorhandler_*", "libsrc/geomodelgrids/utils/cerrorhandler.cc")],
  tech=GVN, note=GNOTE + " Texts are not NULL. Writing to a file may fail; that is not reported by the program."),
 dict(id="Y01", title="Creation: batches cover every point of a grid exactly once, within the size",
  statement="BatchGenerator2D and BatchGenerator3D can be made for all numbers of points >= 1 and every max_nvalues (None, 0 or >= 1) and never fail. Iterating gives ranges [i*b, min((i+1)*b, n)) in each direction, every combination exactly once with the last direction fastest, ceil(n/b) batches in each direction, then StopIteration: together they hold every point of the grid exactly once and none outside. A batch has at least 1 point in each direction and at most max_nvalues points altogether; when max_nvalues is None or 0, or the grid has no more points than it, there is one batch with all points. Surface.get_batches and Block.get_batches give the batches of their own dimensions (x, y and x, y, z) for the size asked for.",
  over=["inputs", "configurations"], quant="every number of points in each direction and every max_nvalues",
  why="Tests try a few sizes of grids; a size for which a step is zero, a batch too large, or a remainder that is dropped shows only for particular combinations of dimensions and maximum.",
  files=[CR + "utils/batch.py", CR + "core/model.py"],
  mech=[("BatchGenerator2D", CR + "utils/batch.py"), ("BatchGenerator3D", CR + "utils/batch.py"), ("Surface.get_batches, Block.get_batches", CR + "core/model.py")],
  tech=PYT + " with inequality rules for integer roots and quotients", note=PYNOTE + " Sizes are integers; sizes put into the terms only give the witness shown with a violation."),
 dict(id="Y02", title="Creation: points of surfaces and blocks are those of grid and configuration",
  statement="generate_points(batch) of a surface or block gives for each index of the batch (all points without a batch; also with a single row) the point with model coordinates x = resolution*index or x_coordinates[index], likewise y, rotated by y_azimuth about and shifted by the origin of the model. For a block z is zl without top surface and otherwise bot + (top - bot)/(0 - bot)*(zl - bot), where bot = -dim_z, top is the elevation of the surface at the same x and y, and zl = z_top - resolution*index or z_coordinates[index]; z_top_offset is subtracted only at the top layer of the block. The surface's elevation is taken from the surface's row at the same coordinates, the part loaded holding it; a resolution that is not a multiple of the surface's, a coordinate the surface lacks, or one uniform and the other variable raises ValueError. get_dims gives 1 + int(dim/resolution) or the number of coordinates in each direction; arrays have the shape of the batch. Resolutions and coordinates are those of the configuration under their documented names; for variable z, z_top and z_bot are the largest and smallest coordinate.",
  over=["inputs", "configurations"], quant="every batch, configuration of resolutions or coordinates, model domain and surface elevation",
  why="Tests check one small grid per kind with few batches, most without rotation, offset or a coarser block; an error in one term, at a boundary of a batch, or when only one direction is variable is not seen with them.",
  files=[CR + "core/model.py"],
  mech=[("Surface.generate_points", CR + "core/model.py"), ("Block.generate_points", CR + "core/model.py"), ("Block.get_surface", CR + "core/model.py")],
  tech=PYT, note=PYNOTE + " A list of coordinates is a sequence of unknown numbers; searchsorted is modelled by what numpy documents."),
 dict(id="Y03", title="Creation: the file holds configuration and values, each in its own place",
  statement="For every configuration: save_domain and update_metadata give the file the documented attributes (title ... dim_z, auxiliary as JSON), each with the text, number or list of texts of the parameter of that name (lists are in brackets, separated by commas, authors and references by |, blanks around elements removed). Creating a surface or block makes dataset surfaces/NAME or blocks/NAME anew with the extents of its grid (blocks: and one value per name in data values), the chunk_size of its section, floating point values, and its attributes: x/y/z_resolution or x/y/z_coordinates, whichever the configuration has, and z_top for blocks with z_resolution. Saving with a batch writes the values given at the batch's ranges of that dataset and nowhere else, without a batch to all of it. Loading a surface returns the batch's ranges (or all) of it, and raises ValueError when its resolution or coordinates (number or any element) in the file are not those of the configuration, only then. No operation removes or writes another part of the file, or leaves the file open. update_metadata writes the attributes of the domain, of every surface the configuration has and every block, and no values.",
  over=["inputs", "configurations"], quant="every value of every parameter, kind of spacing per axis, batch, and file with or without earlier contents",
  why="Tests create three models from scratch in one order; exchanged attributes with equal test values, a file emptied by a second step, values at a shifted place or of another surface appear only with other configurations and orders of steps.",
  files=[CR + "io/hdf5.py", CR + "core/model.py", CR + "utils/config.py"],
  mech=[("HDF5Storage", CR + "io/hdf5.py"), ("Model, ModelMetadata", CR + "core/model.py"), ("string_to_list", CR + "utils/config.py")],
  tech=PYT + " with a model of h5py files", note=PYNOTE + " Two blocks; block names do not matter. Texts of parameters are what configparser gives."),
 dict(id="Y04", title="Creation: the application does the steps asked for, each batch exactly once",
  statement="App.main reads the comma separated configuration files in their order. --import-domain saves the domain; --import-surfaces creates the top surface and the topography/bathymetry if the configuration has them, and fills each with the data source's elevation (get_top_surface, get_topography_bathymetry) at its own points; --import-blocks creates every block and fills it with get_values(block, top surface, topography/bathymetry or, without it, top surface, batch); --all does these three; --update-metadata updates the metadata after them; nothing is done that was not asked for. With batch_size in section domain every batch of get_batches(batch_size) of the surface or block is generated and saved at its own place exactly once, otherwise everything at once. A surface or block is created before it is filled, surfaces are filled before blocks, the data source named by data_source is made with the configuration and initialised once before it is used. --show-parameters only writes the configuration to stdout. cli hands every option to the parameter of its name (--config required, --quiet turns progress off). get_config reads every file given, keeps the case of names unless told otherwise, and raises an error for a missing one.",
  over=["inputs", "configurations", "histories"], quant="every combination of options, surfaces and batch size",
  why="Tests run --all with few models through App.main and never the command line; a step left out for a combination of options, or a batch saved at another's place without topography, is not seen.",
  files=[CR + "apps/create_model.py", CR + "utils/config.py"],
  mech=[("App.main", CR + "apps/create_model.py"), ("cli", CR + "apps/create_model.py"), ("get_config", CR + "utils/config.py")],
  tech=PYT + " and comparison of the calls made with the steps asked for", note=PYNOTE + " Two blocks; the model and the surfaces are those of Y02 and Y03, seen as objects with effects here."),
 dict(id="A01", title="C functions of a query forward to it and turn exceptions into status",
  statement="Every C function of a query forwards its arguments unchanged and in order to the C++ query method of that name, exactly once, and returns its elevation or the status of the query's own error handler. A C++ exception never escapes: it puts the error handler in the ERROR state (elevations: NODATA_VALUE). A point outside all models gives WARNING, nothing else does. A NULL handle is not used and gives ERROR or NODATA_VALUE. Squashing constants select the type of that name and any other value is an ERROR.",
  over=["inputs", "fault_sequences"], quant="every handle, argument, result and exception of the query",
  why="Tests call the functions with valid handles and a few points; an exception crossing into C terminates the caller, and exchanged arguments or lost status show only in particular cases.",
  files=[S + "cquery.cc", S + "cquery.h"], mech=[("geomodelgrids_squery_query", S + "cquery.cc"), ("geomodelgrids_squery_initialize", S + "cquery.cc")],
  tech=GVN + " with exceptional control flow", note=GNOTE),
 dict(id="A03", title="Python objects hand over every point of an array; names mean the C++ ones",
  statement="The array methods of the Python Model and Query accept exactly the arrays of shape [n,3] (contains, query) or [n,2] (elevations), of any number type and memory layout, and raise an exception for all others. Every point is passed to the C++ method of that name with its coordinates in order, and its result is returned in row i: all values of the model, the elevation, the flag and, for Query.query(), the status. Query.query() raises an exception for a point whose status is ERROR and for no other. Every other Python name, enumerator and constant, and those of the C header, denotes the C++ member of that name.",
  over=["inputs"], quant="every array (dimensions, extents, layout) and every point and value in it",
  why="Tests use one contiguous array for each method with data that hides exchanged coordinates or rows; bindings that name another member compile.",
  files=["modulesrc/Model_wrap.cc", "modulesrc/Query_wrap.cc", "modulesrc/ErrorHandler_wrap.cc"], mech=[("PyQuery::query", "modulesrc/Query_wrap.cc"), ("init_model", "modulesrc/Model_wrap.cc")],
  tech=GVN, note=GNOTE + " pybind11 itself is trusted: array_t with the flags c_style|forcecast gives a contiguous array of doubles."),
]
