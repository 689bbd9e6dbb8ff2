import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Nothing is written unless all input parses; exit status tells the truth",
 "A run creates, replaces or removes no map file unless the user configuration file (if there is one) and every input file named on the command line were accepted. Once all are accepted the maps are made one after another in the order the input names them, each output file being replaced by exactly the map last requested under that name; no other file is made, changed or removed. The exit status is zero if and only if every requested map was made, and every failure is reported with an error message.",
 ["histories","fault_sequences","configurations"],"every sequence of input files, each valid, syntactically wrong, out of range or missing, with zero or more maps, with any combination of good, bad or absent configuration file, pre-existing output files, unwritable targets and maps that fail while being made",
 "The suite runs one good input and single bad inputs; it never mixes good and bad files, never looks at which outputs exist afterwards and never has a map fail after others succeeded.",
 ["src/marc.cpp","src/parse_scan.cpp","src/MapCommand.cpp","src/command_line.cpp"],
 [("parse everything, then execute","src/marc.cpp:main"),("MapCommand::execute","src/MapCommand.cpp")],["exit status","error message","files in the output directory"],
 [("map command list","maps accepted so far, in order","src/parse_scan.h ParseParameter")])
p("C02","A map does not depend on what else is made in the same run",
 "The file produced for a map entry is the same (creation date aside) whether the entry is processed alone or together with any other entries before or after it, in one input file or several. Likewise a plane's pixels do not depend on the other planes of its map, and an option given for one map, plane or image never carries over to one that does not give it.",
 ["histories","programs"],"every pair or longer sequence of map entries, planes and images with every subset of their optional keywords set",
 "Tests run one map per process, so values left behind in the parser by a previous entry are never observed.",
 ["src/parse.yy","src/parse_scan.cpp","src/MapCommand_t.cpp"],
 [("parser globals reset after use","src/parse.yy map_entry, ortho, p_stereo, simple_c, image_setup, lat_plane")],["output files of a batch run compared with those of single-entry runs"],
 [("parser globals","projection options, latitude type, data range, nibbling and image geometry of the entry being read","src/parse.yy prologue")])
p("C03","Out-of-domain input is refused and in-domain input accepted",
 "An input file is accepted exactly when its entries follow the documented order and every value lies in its documented domain: latitudes within 90 degrees (0 to 90 when N or S is given), longitudes and position angles within 360 degrees, radii positive with the polar one not larger than the equatorial one, sizes and plane counts positive, nibbles non-negative, grid intervals and scales positive, emission angle limits between 0 and 90 degrees (both excluded), blank values that fit an integer data type, minimum below maximum, consistent plane numbers. A refused file makes the run end with a non-zero status and a message, without creating a map.",
 ["inputs"],"every input text within the grammar, every numeric value including the boundary values and values next to them",
 "The suite has about thirty single bad files, one per keyword, none on the boundary and none that must be accepted at the boundary.",
 ["src/parse.yy","src/lexer.ll","src/parse_scan.cpp","lib/marc/Validate.h","lib/marc/OblateSpheroid.cpp"],
 [("grammar and semantic checks","src/parse.yy"),("Radii::validate","src/parse_scan.cpp")],["exit status","error message","presence of the output file"])
p("C04","Numbers, angles and distances in the input mean what the manual says",
 "A numeric expression has its usual mathematical value under the documented operators and functions with the usual precedence and associativity. Latitudes are planetocentric unless marked planetographic, N/S fix the sign, E and W longitudes and unmarked ones (west for prograde, east for retrograde bodies) name the same meridian, position angles are counter-clockwise unless marked CW, and ranges are kilometres unless marked AU. The body's missing radius follows from the flattening.",
 ["inputs"],"all expressions and all spellings of an angle, distance or body shape, on prograde and retrograde bodies",
 "No test evaluates an expression or compares two spellings of the same angle.",
 ["src/parse.yy","src/lexer.ll","src/calc.cpp","src/parse_scan.cpp"],
 [("expr, latitude, longitude, position_angle, range rules","src/parse.yy"),("calc functions","src/calc.cpp")],["physical values in computed planes of the output file"])
p("C05","Every map pixel is the in-range source datum or blank",
 "In every plane each pixel holds either the datum the plane's source has at the pixel's latitude and longitude, converted to the map's data type, or the blank value. It is blank exactly when the source has no datum there or the datum lies outside the plane's inclusive physical data range (the user's; where that is open and the plane has a single image, what its file states) or cannot be represented in the map's data type. The blank value of an integer map is the one the user gave, else the first one a source file states, else zero; that of a floating point map is not-a-number.",
 ["inputs","configurations"],"all data types, data ranges (also beyond the limits of the data type), blank values, plane types, source values including NaN and extreme values, and map sizes down to one pixel",
 "Tests never read back a map's pixels.",
 ["lib/marc/MapFactory_t.cpp","lib/marc/Map_traits.h","lib/marc/extrema.h","src/MapCommand_t.cpp","src/SourceImageFactory.cpp"],
 [("plot","lib/marc/MapFactory_t.cpp"),("range limits per type","lib/marc/Map_traits.h")],["pixels of the output file"])
p("C06","Recorded data minimum and maximum match the mapped data",
 "When at least one pixel was mapped, the data minimum and maximum recorded in the map's header are the smallest and the largest value stored in the mapped (non-blank) pixels of all planes. When no pixel of any plane was mapped neither is recorded, and for every plane without any mapped pixel, and no other, the user is warned.",
 ["inputs","histories"],"all maps with any number of planes, each fully, partly or not at all mapped, of all data types",
 "Only the extrema container is unit tested; no test compares the header with the pixels.",
 ["lib/marc/plot_info.h","lib/marc/extrema.h","src/MapCommand_t.cpp","src/FITS_image_t.cpp"],
 [("update_extrema per plotted pixel","lib/marc/MapFactory_t.cpp"),("DATAMIN/DATAMAX written once at the end","src/MapCommand_t.cpp")],["DATAMIN and DATAMAX cards against pixels","warnings on the output"])
p("C07","Computed planes in integer maps decode to the physical value",
 "For a computed plane (latitude, longitude, cosines) stored in an integer map, stored value times the recorded scale plus the recorded zero point is within one recorded scale step of the physical value, for every pixel. Scale and zero point are those in the header of a single plane map, or in the history line of that plane's number in a multi plane map. A data type that cannot hold the quantity is refused rather than written with wrapped values.",
 ["inputs","configurations"],"all integer data types, all computed plane kinds, alone or combined with other planes in any order",
 "The scale computation is tested for a few ranges in isolation; nothing ties it to what the header tells a reader of the file.",
 ["lib/marc/details/scale_and_offset.h","lib/marc/VirtualImage.cpp","src/MapCommand.cpp","src/LatitudeImageFactory.cpp","src/LongitudeImageFactory.cpp","src/MuImageFactory.cpp"],
 [("scale_and_offset","lib/marc/details/scale_and_offset.h"),("write_virtual_image_facts","src/MapCommand.cpp")],["pixels, BSCALE/BZERO cards and HISTORY lines of the output file"])
p("C08","The output file is a complete, self-consistent FITS file",
 "Every map file made has as its primary array the requested samples and lines, one plane per plane entry in input order, in the requested data type, followed by a grid extension if and only if a grid was asked for. Its header carries the object, author, origin, every comment in order, the projection's name, the creator, and the blank value for integer maps that have one; grid comments go to the grid's header. Checksum and datasum of every part verify.",
 ["configurations","inputs"],"all combinations of data type, size, plane count and kinds, optional header entries and grid",
 "Tests only check that marc exits successfully on one sample map.",
 ["src/FITS_file.cpp","src/FITS_image.cpp","src/FITS_image_t.cpp","src/MapCommand.cpp","src/MapCommand_t.cpp"],
 [("FITS::output_file/make_image/write","src/FITS_file.cpp, src/FITS_image_t.cpp")],["bytes of the output file"])
p("C09","User-supplied map facts win; sources fill only the gaps",
 "For each map header fact (data type, blank, scale, offset, author, origin, object, unit, equinox ...) a value the user supplied is never changed by what the source images say (only a computed plane that is alone in an integer map has a scale and offset of its own). A fact the user left open takes the value of the first source that has it, except that the data type becomes the widest needed by any source, floating point winning over integer. Merging the same set of agreeing sources in any order gives the same result.",
 ["histories","inputs"],"every sequence of sources with every subset of facts set, unset or conflicting",
 "The unit test merges one pair of parameter sets.",
 ["src/map_parameters.cpp","src/map_parameters.h","src/MapCommand.cpp","src/PhotoImageFactory.cpp"],
 [("map_parameters::merge","src/map_parameters.cpp"),("populate_map_parameters","src/MapCommand.cpp")],["merged parameter values","BITPIX and header cards of the output file"])
p("C10","Overlap regions combine exactly the images that contribute",
 "In a plane made of several images each map pixel combines exactly the images that have a datum at that point, whatever the other images hold there: the first of them in input order with averaging off, their arithmetic mean for unweighted averaging, and the mean weighted by each one's distance in whole pixels to its nearest edge (one for a pixel on the edge) or, when sky is removed, to the nearest sky in its row or column otherwise. A pixel is mapped if and only if at least one image contributes, and with a single contributor it has that image's value.",
 ["inputs","histories"],"every number and order of images, every subset contributing (outside the frame, nibbled, sky, hidden, not-a-number), every averaging choice",
 "The unit test combines constant images that always contribute; no test has an image fail to contribute before or after one that does.",
 ["lib/marc/MosaicImage.cpp","lib/marc/first_read.cpp","lib/marc/unweighted_average.cpp","lib/marc/weighted_average.cpp","lib/marc/PhotoImage.cpp","src/MosaicImageFactory.cpp"],
 [("composite","lib/marc/*_average.cpp, first_read.cpp"),("read_data/data_weight","lib/marc/PhotoImage.cpp")],["pixels of the output file","return values of the compositing strategies"])
p("C11","Source images are flipped, calibrated and trimmed as asked",
 "A datum taken from an image is the file's physical value at that image position after the requested horizontal and vertical inversion, minus the flat field's value at the same file position. No pixel within the requested number of pixels of an edge of the (inverted) image, no pixel off the body when sky removal is on, and no not-a-number pixel ever contributes, while all other pixels do; with interpolation the datum is the bilinear mean of the up to four usable surrounding pixels. A flat field of a different size is refused.",
 ["inputs","configurations"],"all image sizes, data types and scalings, inversions, nibble values on each side separately, flat fields and sky removal settings, with and without interpolation",
 "No test looks at a mapped image value; the inversion helpers are tested alone.",
 ["src/PhotoImageFactory.cpp","lib/marc/PhotoImage.cpp","lib/marc/PhotoImageParameters.cpp","lib/marc/utility.h","lib/marc/BilinearInterpolation.cpp","src/FITS_image_t.cpp"],
 [("PhotoImageFactory::make","src/PhotoImageFactory.cpp"),("read_data and body mask","lib/marc/PhotoImage.cpp"),("bilinear interpolation","lib/marc/BilinearInterpolation.cpp")],["pixels of the output file for images with distinct pixel values"])
p("C12","A mapped point shows the image position where the observer saw it",
 "The image position used for a point of the body is where the straight line from the observer (sub-observer point, range) to that point crosses the image plane, given the position angle, image scale, body centre (or the point given as centre) and optical axis, to sub-pixel accuracy. Points facing away from the observer, beyond the emission angle limit, or, when asked for, on the night side are never mapped; every other point falling in the usable frame is.",
 ["inputs","configurations"],"all body shapes, prograde and retrograde, all observer positions and ranges, all ways to give scale and centre",
 "The unit test exercises a handful of setters and one geometry.",
 ["lib/marc/ViewingGeometry.cpp","lib/marc/OblateSpheroid.cpp","lib/marc/Geometry.cpp","lib/marc/GLLGeometricCorrection.cpp","lib/marc/PhotoImage.cpp"],
 [("latlon2pix, visible, rot_matrices, finalize_setup","lib/marc/ViewingGeometry.cpp")],["pixels of maps of images whose value encodes the position"])
p("C13","Emission, incidence and phase planes hold the true cosines",
 "Each pixel of an emission, incidence or phase plane is the cosine of the angle between, respectively, the surface normal of the oblate body and the direction to the observer at its finite range, the surface normal and the direction to the sun, and the two directions, at that pixel's point; never outside -1 to 1. Cosines are given on the far and night side too.",
 ["inputs"],"all oblate bodies, sub-observer and sub-solar points, ranges and points",
 "The unit test evaluates the formulas at a few special points.",
 ["lib/marc/OblateSpheroid.cpp","lib/marc/MuImage.cpp","lib/marc/Mu0Image.cpp","lib/marc/CosPhaseImage.cpp"],
 [("mu, mu0, cos_phase","lib/marc/OblateSpheroid.cpp")],["pixels of double precision MU, MU0 and PHASE planes"])
p("C14","Simple cylindrical maps place latitudes and longitudes uniformly",
 "In a simple cylindrical map line k and sample i hold the latitude (of the chosen kind) and longitude that lie at the centres of equal subdivisions of the requested ranges: latitude increases with the line number from the low to the high bound, longitude runs from the low bound eastward or westward according to the rotation, wrapping through 360 when the low bound exceeds the high one, and covers the full circle when they are equal.",
 ["inputs","configurations"],"all ranges, latitude kinds, bodies, rotations and map sizes",
 "The sample map is only checked for a successful exit.",
 ["lib/marc/SimpleCylindrical.cpp","lib/marc/SimpleCylindrical.h","src/parse.yy"],[("plot_map","lib/marc/SimpleCylindrical.cpp")],["LATITUDE and LONGITUDE planes"])
p("C15","Mercator maps are conformal on the ellipsoid",
 "In a Mercator map the pixel centres are equally spaced in longitude over the full circle and in the ellipsoid's isometric latitude, with the same spacing in both directions and the equator in the middle; latitude increases with the line number and longitude runs according to the body's rotation. No aspect ratio makes the map produce a latitude beyond the poles, or fail unless its latitudes cannot be told from the poles in double precision.",
 ["inputs"],"all oblate bodies, rotations and map sizes and shapes",
 "The unit test compares the scale factor at some latitudes only.",
 ["lib/marc/Mercator.cpp","lib/marc/root_find.cpp"],[("plot_map via root_find","lib/marc/Mercator.cpp")],["LATITUDE and LONGITUDE planes"])
p("C16","Polar stereographic maps are conformal about the chosen pole",
 "In a polar stereographic map each pixel's distance from the map centre is proportional to the ellipsoidal stereographic radius of its latitude, the maximum latitude lying on the edge of the smaller dimension, with the chosen pole at the centre. Its longitude is the direction from the centre, measured from the top of the line axis with the sense that suits the pole and the body's rotation.",
 ["inputs"],"all oblate bodies, rotations, poles, maximum latitudes (positive, negative, default) and map sizes and shapes",
 "The unit test compares the scale factor at some latitudes only.",
 ["lib/marc/PolarStereographic.cpp","lib/marc/root_find.cpp"],[("plot_map","lib/marc/PolarStereographic.cpp")],["LATITUDE and LONGITUDE planes"])
p("C17","Orthographic maps show the near side of the body, and all of it",
 "In an orthographic map a pixel is mapped if and only if its parallel line of sight meets the body, and then it holds the nearer of the two intersections for the given sub-observer point, position angle, scale and centre. Without a scale the body's equatorial diameter spans 90 percent of the smaller dimension; without a centre the body is centred; a requested latitude and longitude at the centre is what the map centre shows, and is refused if it is not visible.",
 ["inputs","configurations"],"all oblate bodies, rotations, sub-observer points including the poles, position angles, scales, centres and map sizes",
 "The unit test compares a scale factor only.",
 ["lib/marc/Orthographic.cpp","lib/marc/Mathematics.h"],[("plot_map, map_parameters","lib/marc/Orthographic.cpp")],["LATITUDE and LONGITUDE planes"])
p("C18","The grid overlay traces the requested parallels and meridians of the map",
 "The grid extension has the map's size and holds only 0 and 255. Every 255 pixel is, or is a neighbour of, a pixel of that very map through which a requested parallel or meridian passes, and every requested parallel and meridian that crosses the interior of the map is drawn along its course without gaps, to the same accuracy. Parallels are planetocentric, except in a map of evenly spaced planetographic latitudes, and counted from the south pole; meridians are counted from the prime meridian; intervals not given come from the configuration or default to ten degrees.",
 ["inputs","configurations"],"all projections and options, all positive intervals, rotations and map sizes",
 "No test looks at the grid.",
 ["lib/marc/MapFactory.cpp","lib/marc/SimpleCylindrical.cpp","lib/marc/Mercator.cpp","lib/marc/PolarStereographic.cpp","lib/marc/Orthographic.cpp","src/MapCommand.cpp"],
 [("plot_grid","lib/marc/*.cpp")],["GRID extension against LATITUDE/LONGITUDE planes"])
p("C19","Progress reports count every pixel once and always finish",
 "For every plane the observers of a map are told exactly once of each pixel that shows a point of the body, with the map size, and then exactly once that the plane is done, after which counting restarts. The console shows for each plane a monotone progress line that ends in 100 percent exactly once, for every map size.",
 ["inputs","histories"],"all map sizes from one pixel up, any number of planes and observers, observers subscribed at any time",
 "There is no test of the notifier or the progress console.",
 ["lib/marc/Notifier.cpp","lib/marc/MapFactory_t.cpp","src/ProgressConsole.cpp","src/MapCommand_t.cpp"],
 [("Notifier::notify_plotted/notify_done","lib/marc/Notifier.cpp"),("Console::visit_i","src/ProgressConsole.cpp")],["calls received by an observer","standard output"])
p("C20","The bracketing root finder returns a root inside its bracket or says no",
 "Given a continuous monotone function and a bracket whose end values straddle the target, the solver returns a point inside the bracket at which the function equals the target to within floating point resolution, whichever end is larger and also when the root is an end point. A bracket that does not straddle the target is refused with an error and never answered.",
 ["inputs"],"all monotone functions of the kinds used by the projections, brackets and targets",
 "The unit test solves a few equations with comfortable brackets.",
 ["lib/marc/root_find.cpp","lib/marc/Mathematics.h"],[("root_find (bracketed)","lib/marc/root_find.cpp")],["return value or exception of the public function"])
p("C21","Configuration file values are the defaults, and only the defaults",
 "Each value set in the user configuration file (grid intervals, data range, nibbling) applies to every map, plane and image that does not give its own, and to no other. A value not set there leaves the built-in default in force, and a configuration file changes nothing else about a map.",
 ["configurations","histories"],"every subset of configuration entries combined with every subset of overriding entries in the input, over several maps in one run",
 "One test parses a configuration file; none looks at its effect.",
 ["src/parse.yy","src/parse_scan.cpp","src/marc.cpp"],
 [("user_file_parse","src/parse.yy"),("ParseParameter defaults","src/parse_scan.h")],["pixels, grid extension and nibbling of the output files"])
p("C22","A map that could not be written in full is never reported as made",
 "If writing any part of a map file fails (disk full, size limit, missing directory, unreadable or malformed source image), the run says so in an error message and ends with a non-zero status. A file left under a map's name after a zero exit status is complete and readable.",
 ["fault_sequences","crash_points"],"a write or read failure at every point of the file being made",
 "No test injects an I/O failure.",
 ["src/FITS_file.cpp","src/FITS_image_t.cpp","src/FITS_image.cpp","src/marc.cpp"],
 [("throw_on_fits_error","src/FITS_file.cpp")],["exit status, error message and file after a run with a limited file size or broken source"])
p("C23","Image positions and body coordinates are inverse to each other",
 "For any observation, turning a visible point of the body into an image position and back yields the same latitude and longitude, and turning an image position on the body into coordinates and back yields the same position. Positions off the body are recognised as such, and the set of image pixels classed as body is exactly the set whose centre's line of sight meets it.",
 ["inputs"],"all body shapes, observation geometries and image positions, with and without lens correction",
 "The unit test does not convert any coordinates.",
 ["lib/marc/ViewingGeometry.cpp","lib/marc/OblateSpheroid.cpp","lib/marc/GLLGeometricCorrection.cpp"],
 [("pix2latlon, latlon2pix, body_mask","lib/marc/ViewingGeometry.cpp"),("ellipse_intersection","lib/marc/OblateSpheroid.cpp")],["results of the public conversion functions"])
p("C24","The command line and the environment select exactly what is read",
 "The input files read are the arguments that are not options, in the order given, options being recognised anywhere before a lone \"--\" and every argument after it being a file name; each of them is read and its maps are made after those of the files before it. Asking for help, usage or the version prints that, makes no map and ends with status zero; an unknown option, or no file, makes no map and ends with an error message and a non-zero status. The configuration in force is the file marc in $XDG_CONFIG_HOME or, where that variable is unset or empty, in ~/.config, and no other file; where that file is there but cannot be read or is not a configuration, no map is made and the run fails with an error message.",
 ["inputs","configurations"],"every sequence of arguments, every setting of the two variables, configuration files present in any combination of places",
 "No test runs the program with more than input files or looks at where its configuration comes from.",
 ["src/command_line.cpp","src/marc.cpp"],[("command_line::parse","src/command_line.cpp"),("get_config_filename, main","src/marc.cpp")],["exit status, standard output, maps made and the configured defaults in effect in them"])
p("C25","A source image that fails its own checksum is never used silently",
 "When a source image or flat field stores a data sum or a checksum that does not match its content, the user is warned by a message that names the file; when the stored sums match, or none are stored, there is no such warning. The map made is in either case the one that the same image without stored sums would give.",
 ["inputs"],"source images and flat fields of every data type that store none, one or both sums, with any value, header entry or stored sum altered",
 "No test reads a source image with a stored checksum.",
 ["src/FITS_file.cpp"],[("input_file constructor","src/FITS_file.cpp")],["warnings printed by the program; the map"])
p("C26","A statement out of place is reported with its file and line",
 "When reading an input file stops at a statement that cannot follow those before it (an unknown, misplaced, repeated or wrongly worded statement), the error message names that file, whichever of the files on the command line it is, and the line on which the first such statement stands, however the lines before it are spaced, indented or commented; when a file ends before it is complete the message points at its end. No message points at a place in a file that is in order.",
 ["inputs"],"every kind of statement at every position of the grammar, any layout, any number of input files",
 "No test looks at an error message.",
 ["src/lexer.ll","src/parse.yy","src/marc.cpp"],[("YY_USER_ACTION","src/lexer.ll"),("yyerror","src/parse.yy"),("parse_file","src/marc.cpp")],["error messages of the program"])
p("C27","Vectors, matrices, rotations and the spheroid obey their mathematics",
 "For all arguments the library's linear algebra and body model give the mathematically right result to floating point accuracy: sums, multiples, products, transposes, lengths (never negative), unit vectors and element access of vectors and matrices of any size; rotations of the coordinate system counterclockwise about each axis, alike as vector and matrix; the real roots of a quadratic equation, including double and zero roots and roots of very different size, and none where there are none; an image mirrored left to right or top to bottom, or refused where its size does not match. A spheroid with a radius that is not positive or a polar radius above the equatorial one is refused; otherwise its radius, its conversions between planetocentric and planetographic latitude, its radii of curvature and the cosines of the emission, incidence and phase angles (always within -1 and 1) are those of the spheroid, and a line of sight from outside meets it at the nearer intersection ahead of the observer, or is said to miss it. The distortion stated for a Mercator map, and for a polar stereographic map of a sphere, is the factor by which lengths at that latitude are enlarged.",
 ["inputs"],"all vectors and matrices, angles, coefficients, image sizes, spheroids, positions of observer and sun, points of the surface and lines of sight",
 "The unit tests try a handful of values, vectors of three rows, one spheroid.",
 ["lib/marc/OblateSpheroid.cpp","lib/marc/Geometry.cpp","lib/marc/Vector.h","lib/marc/details/vector.h","lib/marc/Matrix.h","lib/marc/Mathematics.h","lib/marc/utility.h"],
 [("OblateSpheroid","lib/marc/OblateSpheroid.cpp"),("RotX, RotY, RotZ","lib/marc/Geometry.cpp"),("quadratic_roots","lib/marc/Mathematics.h"),("invert_samples, invert_lines","lib/marc/utility.h")],["results of the public functions"])
p("C28","No input, however damaged, makes the program crash, hang or misuse memory",
 "Whatever the bytes of the input file, the configuration file, the source images and the flat fields are, a run comes to an end by itself, in a time in proportion to the sizes asked for or claimed, and never by a signal or an exception that nobody catches, and it touches no memory that is not its own and performs no undefined operation on the way. A run that ends with a non-zero status has printed an error message; one that ends with status zero leaves complete, readable maps only.",
 ["inputs","fault_sequences"],"all byte sequences as input, configuration, source image and flat field, including damaged headers, absurd sizes and data cut short, and sound images of every size",
 "The tests read well-formed files only, of one size.",
 ["src/lexer.ll","src/parse.yy","src/FITS_file.cpp","src/SourceImage.cpp","src/PhotoImageFactory.cpp","lib/marc/PhotoImage.cpp","lib/marc/PhotoImageParameters.cpp","lib/marc/BilinearInterpolation.cpp","src/marc.cpp"],
 [("main","src/marc.cpp"),("PhotoImageFactory::make","src/PhotoImageFactory.cpp"),("BilinearInterpolation::interpolate","lib/marc/BilinearInterpolation.cpp")],["how a run ends, its messages, the files it leaves, sanitizer reports"])
p("C29","Ranges of values, scales and angles the library keeps or accepts are exact",
 "A range of values (extrema) always spans exactly the values it was given since it was created empty, made or reset, whatever the sequence and route by which they came: single values, other ranges merged into it (also into or from a range that is empty or has one bound only), bounds set one by one, copies, assignments, exchanges and conversions between data types. A bound that is not a number, or a range that would begin above its end, is refused and leaves the range as it was; a bound beyond the data type becomes the type's closest limit; a range says it is valid exactly when it has both bounds in order, and a value is in such a range exactly when it lies between the bounds, these included. What is known of a map being plotted counts and spans the data plotted. Latitudes beyond 90 degrees, longitudes and position angles beyond 360 degrees either way and NaN are refused, all others become radians. The scale and offset proposed for storing a range of data in an integer type are a power of ten, not below one, and an offset, zero where none is needed, under which all of the data fit the type and the range, unless it has no length, spans at least 10^(d-1) of its values, d being the number of decimal digits the type can hold in every case; they are found for every range no longer than that of the type and for no longer one; floating point types are given one and zero.",
 ["inputs","histories"],"all sequences of operations on ranges of all data types, all values including NaN and infinities, all data ranges, all angles",
 "The unit tests try a handful of values of one data type, and scales of four symmetric or zero-based ranges.",
 ["lib/marc/extrema.h","lib/marc/Map_traits.h","lib/marc/plot_info.h","lib/marc/details/scale_and_offset.h","lib/marc/Validate.h"],
 [("extrema","lib/marc/extrema.h"),("Map_traits::minimum, maximum","lib/marc/Map_traits.h"),("scale_and_offset","lib/marc/details/scale_and_offset.h"),("validate_latitude, validate_longitude, validate_position_angle","lib/marc/Validate.h")],["results of the public functions and classes"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'),'w').write("".join(json.dumps(x)+"\n" for x in P))
