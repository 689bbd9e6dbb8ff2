NOT_YET = "check not built yet"
_T = "TLA+ trace validation with TLC of maps recorded from the program"
NOTES = {
 "C05": (_T, "Every pixel of recorded maps of images and of computed planes is checked against Sources.tla and MapMaking.tla (which datum, in range, conversion, blank); data values at type limits, ranges at data values; sampled parameters."),
 "C06": (_T, "The trace specification accumulates the extrema of the mapped pixels and the number of mapped pixels per plane and requires header and warnings to agree; one to five planes."),
 "C07": (_T, "Every pixel of computed planes in integer maps is decoded with the recorded scale and zero point and compared with the specified value."),
 "C10": (_T, "Every pixel of recorded mosaics is checked against the combination rule in Sources.tla; two to five overlapping images."),
 "C11": (_T, "Every pixel of recorded maps is checked against the specified pixel value (inversion, flat field, nibbling, sky, interpolation)."),
 "C12": (_T, "Images with distinct pixel values: each mapped pixel reveals the image position used, which must be where ViewGeom.tla sees the point."),
 "C13": (_T, "Every pixel of emission, incidence and phase planes is compared with the cosine defined in ViewGeom.tla."),
 "C14": (_T, "Every pixel of randomly generated maps is checked against the projection relation in Projections.tla; bounds: map sizes and parameters sampled."),
 "C15": (_T, "As C14, for the Mercator relation (isometric latitude of the ellipsoid)."),
 "C16": (_T, "As C14, for the polar stereographic relation."),
 "C17": (_T, "As C14, for the orthographic relation including blank sky and refusal of invisible centres."),
 "C20": ("TLC model of the bracketing algorithm and TLA+ trace validation of recorded calls", "The discrete algorithm model is exhaustive for 41 abscissae; the real solver is sampled over seven families of monotone functions."),
 "C01": ("Exhaustive TLC model of a session and TLA+ trace validation of recorded runs", "SessionMC.tla is exhaustive for two inputs of two maps and three names; recorded runs (files created, replaced, removed in order; exit status; what is on the disk afterwards) are checked against Session.tla; sampled."),
 "C02": ("Exhaustive TLC model of reading settings and TLA+ trace validation of recorded batches", "SettingsMC.tla is exhaustive for two maps with every subset of a few settings; in recorded runs the meaning Settings.tla gives to each entry and plane read determines a map and its pixels, which must be the same wherever that meaning occurs; entries, their variants, orders and splits sampled."),
 "C21": ("Exhaustive TLC model of reading settings and TLA+ trace validation of recorded runs with configurations", "SettingsMC.tla is exhaustive for every subset of configured and given settings of two maps; recorded runs in which an entry means the same, by its own or by configured settings, must make the same map; sampled."),
 "C22": ("Exhaustive TLC model of a session with write faults and TLA+ trace validation of runs with injected faults", "The n-th write, flush, close or creation of a map file is made to fail (once or from then on), file sizes are limited, sources are missing or malformed; sampled."),
 "C23": ("TLA+ trace validation with TLC of conversions recorded from the library", "Conversions in both directions of recorded viewing geometries, and every pixel of body masks, are checked against ViewGeom.tla; geometries sampled."),
 "C08": ("TLA+ trace validation with TLC of map files recorded from the program", "Every header and the order of planes of recorded map files are checked against MapFile.tla; requests sampled."),
 "C09": ("Exhaustive TLC model of merging and TLA+ trace validation of recorded merges and map files", "FactsMC.tla is exhaustive for three sources; merges of the library and headers of maps whose source files state facts are checked against Facts.tla; sampled."),
 "C03": ("Exhaustive TLC enumeration of the input grammar, replayed into the program, and TLA+ trace validation", "GrammarMC.tla enumerates every position (state of the grammar's derivative and the statements allowed there); a file reaching each position is replayed with every statement kind next; boundary values of every entry and sampled whole files are checked against Input.tla."),
 "C04": ("TLA+ trace validation with TLC of values recorded from the program", "Expr.tla gives every token sequence its value; sampled expressions, angle, distance and body spellings are read back from maps the program makes."),
 "C19": ("Exhaustive TLC model of notifications and the console and TLA+ trace validation", "ProgressMC.tla is exhaustive for maps up to 30 pixels and two planes; notifications recorded by observers of real maps, a console told of counts with gaps, and the output of runs are checked against Progress.tla; sampled."),
 "C18": ("TLA+ trace validation with TLC of grids recorded from the program", "Drawn pixels (with a witness point on a line asked for) and points of lines asked for that cross the interior of the map are checked against Grid.tla; up to 150 pixels and 200 points per map; maps up to 130 by 130 pixels sampled."),
 "C24": ("Exhaustive TLC model of invocations and TLA+ trace validation of recorded runs", "InvocationMC.tla is exhaustive for every command line of up to three arguments in every environment; longer command lines sampled, replayed into the program and checked against Invocation.tla."),
 "C25": ("Exhaustive TLC model of altered units and TLA+ trace validation of recorded runs over source files with stored sums", "Integrity.tla computes the sums of the recorded words itself; files, sums and alterations sampled."),
 "C26": ("TLC enumeration of the positions of the grammar, a TLC model of reading and TLA+ trace validation of error messages", "Files with a statement out of place, built from the positions GrammarMC.tla enumerates, are replayed into the program; the place its message points at must be the one at which Locate.tla stops; sampled."),
 "C27": ("Exhaustive TLC model of quarter turns, mirrored images and a walk over spheroids, and TLA+ trace validation of calls of the library", "GeometryMC.tla checks the laws (inverse, sense of rotation, curvature as arc per turn of the normal) that Geometry.tla is built on; calls of the public functions with sampled arguments are checked against Geometry.tla."),
 "C29": ("Exhaustive TLC model of histories of operations on ranges and TLA+ trace validation of calls of the library", "RangesMC.tla is exhaustive for histories of four operations on three ranges of two small types and shows that a range is the span of what it was given; recorded histories of 40 calls on eighteen ranges of six types, with angles, scales and plotting information, are checked against Ranges.tla; sampled."),
 "C28": ("Exhaustive TLC model of a run over unknown files and TLA+ trace validation of runs of an instrumented build over damaged files", "RobustMC.tla is exhaustive for two maps; runs over damaged texts, images, flat fields and configurations, of a build with the address and undefined behaviour sanitizers, must end as some behaviour of Robust.tla does; a sanitizer report, a signal or a run that does not end is a behaviour of none; damage sampled."),
}
