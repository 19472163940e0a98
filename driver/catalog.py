"""Texts of the properties; gen.py writes properties.jsonl and MANIFEST.json from them."""
CAT = []


def prop(id, title, statement, over, text, why, files, mech, state=(), na=None):
    CAT.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, na=na))


T = "The bundled test programs only print results for a few hard-coded values and check no output"
H = "common/include/rofl/common/"
G = "geometry/include/rofl/geometry/"

prop("C01", "Bit functions: leading zeros and neighbouring powers of two",
     "For every integer of 8, 16, 32 or 64 bits, the leading-zero count equals the number of zero bits above the highest set bit (the full width for zero), the floor power is the largest power of two not above a nonzero value (0 for 0), and the ceiling power is the smallest power of two not below it modulo the word size.",
     ["inputs"], "every value of every supported width", T + "; 2^64 values cannot be sampled.",
     [H + "bit_manip.h", "common/src/bit_manip.cpp"], [("nlz8/16/32/64, flp2u8.., clp2u8..", "common/src/bit_manip.cpp")])
prop("C02", "Integer traits agree with integer arithmetic",
     "For every value of the eight integer types (8 to 64 bits, signed and unsigned), the integer traits give the floor of the binary logarithm of the magnitude bits, the floor/ceiling power of two, the modular remainder/ratio by a power of two and the midpoint consistently with exact integer arithmetic of that type.",
     ["inputs"], "every value of every integer type", T + "; only a few 32-bit values are printed.",
     [H + "numeric_traits.h", "common/src/bit_manip.cpp"], [("IntegerTraits<T>::log2Mod, floorPow2, ceilPow2, remainderPow2, ratioPow2, midrange...", H + "numeric_traits.h")])
prop("C03", "Float decomposition is exact and invertible",
     "Decomposing any floating point number (single or double precision) gives its sign, unbiased exponent and mantissa as defined by IEEE 754, and composing these parts gives back a number with exactly the same bits; every part triple within the format composes to the number that decomposes to it.",
     ["inputs"], "every bit pattern of float and double, every sign/exponent/mantissa triple", T + "; a handful of decimal constants.",
     [H + "numeric_traits.h", H + "bit_manip.h"], [("FloatTraits<float/double>::decompose/compose", H + "numeric_traits.h")])
prop("C04", "Morton order of integer vectors is the Z-order",
     "For every pair of integer vectors the Morton comparison tells exactly whether the first precedes the second in the bit-interleaved (Z-order) code of the order-preserving unsigned images of their components; hence it is a strict weak order, and equal vectors precede each other in no direction.",
     ["inputs"], "every pair of vectors of int8..int64 and uint8..uint64 components, several dimensions", T + "; the sort test uses random points and does not check the order.",
     [H + "morton_sort.h", H + "numeric_traits.h"], [("mortonCmpInt, msb comparison, MortonCmp functors", H + "morton_sort.h")])
prop("C05", "Morton order of floating point vectors is the Z-order",
     "For every pair of finite floating point vectors the Morton comparison agrees with the Z-order of their exact binary expansions (for zero and normal coordinates), and over all finite coordinates it is irreflexive, asymmetric and transitive; the Morton distance is symmetric and reflects the highest differing binary digit.",
     ["inputs"], "every pair/triple of finite float and double vectors", T + "; sorting random points never checks the order.",
     [H + "morton_sort.h", H + "numeric_traits.h"], [("xorFloat, msbFloat, mortonCmpFloat, mortonDistanceFloat", H + "morton_sort.h")])
prop("C06", "Dyadic intervals and Morton split enclose their data",
     "For every pair of values the computed power-of-two interval contains both values, is aligned to its own size, is the smallest one that does, and its midpoint separates them; the Morton split of a box gives two sub-boxes that contain every point of the box on the proper side in Z-order.",
     ["inputs"], "every pair of component values per type; every box and every point inside it", T + ".",
     [H + "morton_sort.h", H + "numeric_traits.h"], [("intervalPow2Int, intervalPow2Float, mortonSplit", H + "morton_sort.h")])
prop("C07", "Morton tree stores, finds and range-searches exactly",
     "A Morton tree holds exactly the items inserted (with insertion rank or user id), sorted in Morton order after any query; finding returns the first item not before the query, the level of a range is the smallest dyadic level containing it, and a box search returns exactly the items inside the box, each once.",
     ["inputs", "histories"], "every sequence of insertions, every query point and box", T + "; one fixed set of points is printed.",
     [H + "morton_tree.h", H + "morton_sort.h"], [("MortonTree::insert/sort/findItem/searchInBox/computeLevel", H + "morton_tree.h")], [("items and sorted flag", "content of the tree", H + "morton_tree.h")])
prop("C08", "Disjoint set is the equivalence closure of the joins",
     "After any sequence of set creations and joins, two elements have the same representative exactly when the joins connect them; set count, node count, set sizes and the representative list match the partition, and invalid ids never join, crash or corrupt anything.",
     ["inputs", "histories"], "every sequence of makeSet/join with arbitrary ids", "There is no test of the disjoint set.",
     [H + "disjoint_set.h", "common/src/disjoint_set.cpp"], [("DisjointSet::join/find/makeSet/size/parents", "common/src/disjoint_set.cpp")], [("parent/rank/size nodes", "union-find forest", H + "disjoint_set.h")])
prop("C09", "Min-max heap always gives both extremes",
     "After any sequence of insertions and of removals from either end, the heap contains exactly the inserted items not removed, its top and bottom are the first and last of them in the order of the comparator, and the next-top and next-bottom are the second ones.",
     ["inputs", "histories"], "every sequence of pushes and pops, every value", T + "; two fixed sequences are printed.",
     [H + "min_max_heap.h"], [("MinMaxHeap::push/popTop/popBottom/nextTop/nextBottom", H + "min_max_heap.h")], [("binary tree array", "alternate min and max levels", H + "min_max_heap.h")])
prop("C10", "Index boxes and raster order",
     "Operations on multi-dimensional index intervals (membership, emptiness, intersection, construction from bounds, min/max or centre, stacking, translation) contain exactly the cells their definition says, and raster order is a bijection between positions 0..size-1 and cells with dimension 0 varying fastest, followed by the iterators from begin to end.",
     ["inputs"], "every box, probe cell, position and cell", T + "; two fixed intervals are printed.",
     [H + "interval_indices.h"], [("IntervalIndices, RasterIndexer, StaticRasterIndexer, RasterIterator", H + "interval_indices.h")])
prop("C11", "Boustrophedon order visits adjacent cells once",
     "In any dimension, boustrophedon order starts at the minimum corner, visits every cell of the interval exactly once, and each step moves by one along exactly one coordinate.",
     ["inputs"], "every interval, every position", T + "; a two-dimensional example is printed.",
     [H + "interval_indices.h"], [("BoustrophedonIndexer, BoustrophedonIterator", H + "interval_indices.h")])
prop("C12", "Grid cells are independent storage with consistent addressing",
     "A grid holds one independent value per cell of its domain: reading a cell returns the last value written to that cell by whatever accessor (indices, pointer, linear position) or fill, writing never changes another cell, and linear position and indices convert into each other.",
     ["inputs", "histories"], "every domain, every pair of written cells and read cell, every value", "There is no test of the grid class.",
     [H + "grid.h", H + "interval_indices.h"], [("Grid::value/getPos/getIndices/fill/init*", H + "grid.h")])
prop("C13", "Peak finder returns exactly the windowed peaks",
     "The peak finder reports exactly those cells of the domain that are strictly better, according to the comparator, than every other cell of the window centred on them clipped to the domain, and better than the threshold when the filter is enabled; each peak is reported once and the best ones come first.",
     ["inputs"], "every histogram content, threshold, window and domain", T + "; two fixed histograms are printed.",
     [H + "peak_finder_d.h", H + "min_max_heap.h", H + "interval_indices.h"], [("PeakFinderD::detect", H + "peak_finder_d.h")])
prop("C14", "Label sets obey set algebra",
     "A label set contains exactly the labels inserted and not removed, in increasing order; union, intersection, difference, membership and (in)equality give the results of set algebra on the contents and leave their operands unchanged.",
     ["inputs", "histories"], "every pair of sets and every probe label", T + "; two fixed sets are printed.",
     [H + "label_set.h", "common/src/label_set.cpp"], [("LabelSet", "common/src/label_set.cpp")])
prop("C18", "Angle normalisation keeps the direction",
     "For every angle, the 360 degree normalisation gives an angle in [0, 2 pi) that differs from it by whole turns, and the 180 degree one gives an angle in [0, pi) that differs from it by whole half turns, up to rounding.",
     ["inputs"], "every angle of the stated ranges, positive and negative", T + "; a few constants are printed.",
     [H + "functions.h", "common/src/functions.cpp"], [("normalize360, normalize180", "common/src/functions.cpp")])
prop("C19", "Fast trigonometric functions keep their stated accuracy",
     "The fast cosine and sine (double and single precision) differ from the true ones by no more than 0.0013 for every angle in every period, the fast arctangent by no more than 2e-5 on [-1,1], and the fast two-argument arctangent by no more than 2.5e-5 in every octant, sign of zero aside.",
     ["inputs"], "every angle and direction", T + "; values are printed for visual comparison.",
     [H + "functions.h", "common/src/functions.cpp"], [("fastCosSin, fastCosSinf, fastAtan, fastAtanf, fastAtan2, fastAtan2f", "common/src/functions.cpp")])
prop("C20", "Fourier series and PNEBI functions equal their definitions",
     "Evaluating a Fourier series gives a_0 + sum_k a_k cos(k t) + b_k sin(k t) for all coefficients and angles; the PNEBI functions (polynomial of order 0, vector of orders 0..n, look-up table) approximate 2 exp(-|x|) I_k(|x|) within 2e-6, 5e-6 and the table tolerance, for arguments of both signs, with one value per order 0..n.",
     ["inputs"], "every coefficient, angle and argument of the stated ranges", T + "; a look-up table is built and printed.",
     [H + "functions.h", "common/src/functions.cpp"], [("evaluateFourier, evaluatePnebi0Polynom, evaluatePnebiVector, PnebiLUT", "common/src/functions.cpp")])
prop("C21", "Bounds of cosine and Fourier series enclose the function",
     "For every interval of angles, the lower and upper bound computed for the cosine enclose the cosine on the interval and are attained in it; the bounds computed for a Fourier series enclose the series at every angle of the interval.",
     ["inputs"], "every interval and every angle in it", "There is no test of the bounds.",
     [H + "functions.h", "common/src/functions.cpp"], [("findLUCos, findLUFourier", "common/src/functions.cpp")])
prop("C17", "Profiler statistics and scoped timers",
     "After any history of measures inserted under any labels, the profiler reports one row per label with the mean, unbiased variance, minimum, maximum and number of exactly the measures of that label; a scoped timer adds exactly one measure, equal to the time elapsed from its construction to its destruction, to its own label.",
     ["inputs", "histories"], "every sequence of measures and labels, every clock reading", "There is no test of the profiler.",
     [H + "profiler.h", "common/src/profiler.cpp"], [("Profiler::updateStat, printStats; ScopedTimer", "common/src/profiler.cpp")], [("statistics per label", "running mean, sum of squared deviations, extremes, count", H + "profiler.h")])
prop("C22", "Truncated least squares consensus finds the best consensus set",
     "Given values with acceptance ranges, the estimate of the scalar consensus is the weighted mean (weights: inverse squared ranges) of that consensus set, among all sets of intervals overlapping at some point of the line, whose truncated cost (squared residuals of the members plus ranges of the others) is minimum; the inlier flags (one per value) mark exactly the values closer to the estimate than their range.",
     ["inputs"], "every list of values, in any order", T + "; one list of values is printed.",
     [H + "tls_scalar_consensus.h"], [("estimateTranslationTls", H + "tls_scalar_consensus.h")])
prop("C23", "Planar primitives: poses, angle intervals, orientation",
     "The pose to isometry conversion gives the rotation by theta followed by the translation (x, y); the angle normalisation gives an angle in [0, 2 pi] that differs by whole turns; an angle is inside an angle interval exactly when it is met before its end turning counter-clockwise from its begin, whatever whole turns are added; the orientation of three points is twice the signed area of their triangle.",
     ["inputs"], "every pose, angle, interval and triangle", T + "; no output is checked.",
     [G + "base_geometry2.h", "geometry/src/base_geometry2.cpp"], [("poseToIsometry2, normalizeAngle2Pi, insideAngleInterval(Eq), ccw", "geometry/src/base_geometry2.cpp")])
prop("C24", "Box registration associates the nearest point of the box surface",
     "For a box of any size centred in the origin and any query point, the associated point lies on the surface of the box and no point of the surface is closer to the query: outside the box each coordinate is clamped to the box, inside it the point moves along one axis to the closest face.",
     ["inputs"], "every box size and query point, dimension 2 and 3, float and double", T + "; one box with random points is printed.",
     [G + "box_registration.h"], [("BoxRegistration::associate", G + "box_registration.h")])
prop("C25", "Geographic conversions",
     "Latitude, longitude and altitude convert to the geocentric coordinates of the WGS84 ellipsoid; the lengths of a degree of latitude and longitude follow their series in the latitude; local coordinates are the latitude/longitude differences from the origin scaled by the degree lengths at the latitude of the origin, and converting back recovers latitude and longitude.",
     ["inputs"], "every latitude, longitude, altitude and origin of the stated ranges", "There is no test of these conversions.",
     [G + "gis.h", "geometry/src/gis.cpp"], [("convertLatLonAltToECEF, meterPerDegLat/Lon, convertLatLonToLocalXY, convertLocalXYToLatLon", "geometry/src/gis.cpp")])
prop("C31", "Vector arrays compute component by component",
     "The arithmetic operators of vector arrays (sum, difference, product and quotient by component, product by a scalar, and the assigning forms, also with itself as operand) give in every component the result of the operation on that component, and leave their operands unchanged.",
     ["inputs"], "every component value and scalar", "There is no test of vector arrays.",
     [H + "vector_array.h"], [("VectorArray operators", H + "vector_array.h")])
prop("C15", "Command line parameters and typed access",
     "After reading any command line, the parameter map holds, besides what it held, exactly the values that follow their option (an argument starting with '-' and a letter; a value is any other argument), the last one of each option; a stored value is given back as the text, number or list of numbers it denotes, leaves the variable unchanged when it denotes none, and a missing parameter gets and stores the default.",
     ["inputs", "histories"], "every argument list, every stored text and value", T + "; no program checks the values read.",
     [H + "param_map.h", "common/src/param_map.cpp"], [("ParamMap::read(argc, argv), setParam, getParam, getParamContainer, getParamContainerInserter", H + "param_map.h")], [("table_", "map from names to texts", H + "param_map.h")])
prop("C16", "Parameter files are read line by line and written losslessly",
     "Reading any text sets one parameter per line with two words or more (first word the name, second the value), except lines starting with '#', the last line of each name winning; writing gives one line per parameter in the order of the names, after the prefix if any; parameters without blanks written to a stream or file are read back unchanged, and files that cannot be opened are reported.",
     ["inputs", "histories"], "every text, every set of parameters", T + "; no program checks the values read.",
     [H + "param_map.h", "common/src/param_map.cpp"], [("ParamMap::read(stream/file), write(stream/prefix/file)", "common/src/param_map.cpp")], [("table_", "map from names to texts", H + "param_map.h")])
prop("C32", "Tilde expansion of parameter values",
     "Expanding tildes replaces the tilde of every value that starts with '~/' by the home folder and changes nothing else: no other value, no other tilde, and nothing when the home folder is not set; the map is never corrupted.",
     ["inputs"], "every set of values, with and without a home folder", "There is no test of tilde expansion.",
     [H + "param_map.h", "common/src/param_map.cpp"], [("ParamMap::adaptTildeInPaths", "common/src/param_map.cpp")])
prop("C26", "Hough plane detection counts points and returns the peaks",
     "For any grid of directions and distances, the normal and plane of a cell are those of its angles and distance; after inserting points, each cell counts the points whose distance along its direction falls in its bin (points below the first bin by less than a bin may count in it), the spectrum is the sum of the squared counters along the distance, the directions returned are the windowed peaks of the spectrum, and the planes returned are the windowed peaks along those directions, the most voted first.",
     ["inputs"], "every point set, grid range and window", "The test program only prints planes of a random cloud.",
     [G + "hough_plane_detector.h", "geometry/src/hough_plane_detector.cpp"], [("HoughPlaneDetector::init/insert/getPlaneParam/findSpectrumMax/findPlanes/findParallelPlanes", "geometry/src/hough_plane_detector.cpp")], [("houghTransform_, houghSpectrum_", "vote counters", G + "hough_plane_detector.h")])
prop("C27", "Hough line detection counts points and returns the peaks",
     "For any grid of angles and distances, after inserting points each cell counts the points whose distance along its normal falls in its bin (points below the first bin by less than a bin may count in it), the spectrum is the sum of the squared counters along the distance, the directions returned (indices, angles, normals) are the windowed peaks of the spectrum, and the lines returned are the windowed peaks along those directions.",
     ["inputs"], "every point set, grid range and window", "There is no test of line detection.",
     [G + "hough_line_detector.h", "geometry/src/hough_line_detector.cpp"], [("HoughLineDetector::init/insert/findSpectrum*/findNormalMax/findLines", "geometry/src/hough_line_detector.cpp")], [("houghTransform_, houghSpectrum_", "vote counters", G + "hough_line_detector.h")])
prop("C28", "Correspondence graph gives every largest coherent association",
     "For any pair distances of the source and destination items, the association hypotheses returned are exactly the largest sets of source-destination pairs that are mutually coherent (different sources and destinations, source distance above the minimum and within the tolerance of the destination distance), each given once, however often the association is computed.",
     ["inputs", "histories"], "all pair distances of both sets", "The test program only prints the hypotheses of one example.",
     [G + "correspondence_graph_association.h", "geometry/src/correspondence_graph_association.cpp", H + "label_set.h"], [("CorrespondenceGraphAssociation::associate, executeBronKerbosch", "geometry/src/correspondence_graph_association.cpp")], [("nodes_", "correspondence graph", G + "correspondence_graph_association.h")])
prop("C29", "Folder listing and time-stamped names",
     "Listing any folder gives exactly the paths (folder path and name) of its regular files, links to files included, sorted and each once, and no folders; a time-stamped name is the prefix, the local time as year, month, day, hour, minute and second digits (YYYYMMDD_HHMM_SS), and the postfix.",
     ["inputs"], "every folder content, every local time, prefix and postfix", "The test program only prints one listing and one name.",
     [H + "io.h", "common/src/io.cpp"], [("getDirectoryFiles, generateStampedString", "common/src/io.cpp")])
prop("C33", "Box registration: initial guess and best alignment step",
     "The initial guess puts the centre of the box in the centroid of the cloud, with its sides along the principal directions of the cloud, longer sides along directions of larger variance (the identity for less than two points); a registration step associates each point of the cloud, seen from the current pose of the box, with its nearest point of the box, and gives the rotation (never a reflection) and translation for which no other rigid motion brings these points closer to the cloud in the sense of least squares.",
     ["inputs"], "every cloud and current pose, dimension 2 and 3", "There is no test of box registration.",
     [G + "box_registration.h"], [("BoxRegistration::setDimension, estimateInitTranform, computeTransform", G + "box_registration.h")])
prop("C30", "Point cloud plane alignment",
     "The plane aligner estimates the dominant plane of a point cloud and the rotation that makes it horizontal.",
     ["inputs"], "every point cloud", "There is no test; the module is not built here.",
     ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "pcl/src/point_cloud_plane_aligner.cpp"], [("PointCloudPlaneAligner", "pcl/src/point_cloud_plane_aligner.cpp")],
     na="It is written on the Point Cloud Library, which is not installed: the module neither compiles nor can be encoded here.")
