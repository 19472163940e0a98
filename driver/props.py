"""Property -> harnesses, entries, bounds."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 front end without optimisation passes plus sroa/early-cse/simplifycfg/instsimplify preserves the source semantics; x86-64 data layout",
    "signed integer overflow wraps and shift counts are taken modulo the operand width, as the x86-64 build does",
    "memory allocation never fails; single thread",
    "iostream output is stubbed (no effect); libstdc++ red-black-tree and C string routines are replaced by re-implementations in engine/runtime.cpp",
    "z3 answers are correct; sampled path models are replayed against a native g++ build and their observations compared",
]
PROPS = {}


def P(pid, **kw):
    PROPS[pid] = kw


def E(entry, quick=None, thorough=None, **kw):
    d = {"entry": entry}
    if quick is not None:
        d["params"] = {"quick": quick, "thorough": quick + [p for p in (thorough or []) if p not in quick]}
    d.update(kw)
    return d


P("C01",
  bounds="all 2^8/2^16/2^32/2^64 argument values of each function; no bound on inputs",
  units=[dict(harness="bits.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("nlz_all"), E("flp2_all"), E("clp2_all")])])
P("C02",
  bounds="every value of int8/16/32/64 and uint8/16/32/64; no bound on inputs",
  units=[dict(harness="bits.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("traits_" + t) for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64")])])
P("C03",
  bounds="every 32-bit float and 64-bit double bit pattern; every mantissa/exponent/sign triple of the formats",
  units=[dict(harness="bits.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("decomp_f"), E("decomp_d"), E("comp_f"), E("comp_d")])])
P("C04",
  bounds="every pair of vectors of int8..int64/uint8..uint64 components, dimension 2 and 3 (16-bit: also 4); no bound on component values",
  units=[dict(harness="morton.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("cmp_" + t) for t in ("i8_2", "u8_2", "i16_2", "u16_2", "i32_2", "u32_2", "i64_2", "u64_2", "i8_3", "i32_3", "u64_3", "i64_3", "i16_4")] + [E("msb_" + t) for t in ("u8", "u16", "u32", "u64")])])
P("C06",
  bounds="every pair of component values of each integer type (interval), every pair of vectors of dimension 2/3 plus an arbitrary third point of the box (split)",
  units=[dict(harness="morton.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("interval_" + t) for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64")] + [E("split_" + t) for t in ("i8_2", "u8_2", "i16_2", "i32_2", "u32_2", "u64_2", "i64_2", "i8_3", "u16_3", "i32_3", "f_2", "d_2")] + [E("interval_f"), E("interval_d")])])
P("C05",
  bounds="compare/distance: every pair of points of dimension 1..3 whose float or double coordinates are zero (either sign) or normal; order axioms: every finite coordinate",
  outside="infinities and NaN; the exact Z-order position of subnormal coordinates (only the order axioms are checked there)",
  units=[dict(harness="morton.cpp", src=["common/src/bit_manip.cpp"], speculate=True,
              entries=[E("cmp_f_1"), E("cmp_f_2"), E("cmp_f_3", thorough_only=True), E("cmp_d_2"), E("dist_f_2"), E("dist_d_2"), E("swo_f_2"), E("swo_d_2")])])
P("C07",
  bounds="trees of up to 4 (quick 3) items of two int coordinates, every 32-bit value, any query point or box; all insertion functions; histories of insertions, a query, further insertions and a query on up to 3 items; trees of up to 12 (quick 9) concrete items in dimension 2 and 3, int and long, with any box of coordinates in [-9,18]",
  outside="more items of any value; floating point coordinates (the order itself is C04/C05)",
  units=[dict(harness="containers.cpp", src=["common/src/bit_manip.cpp", "common/src/disjoint_set.cpp"], speculate=True,
              entries=[E("tree_find", quick=[{"n": 3, "mode": m} for m in (0, 1)] + [{"n": 1, "mode": 0}] + [{"n": 2, "mode": m} for m in range(7)], thorough=[{"n": 3, "mode": m} for m in range(7)] + [{"n": 4, "mode": 0}]),
                       E("tree_history", quick=[{"n": 2, "k": 1, "mode": m, "how": m} for m in range(3)], thorough=[{"n": 3, "k": 2, "mode": m, "how": h} for m in range(3) for h in (0, 1)]),
                       E("cloud_i2", quick=[{"n": 6}, {"n": 9, "first": 4, "pre": 2}], thorough=[{"n": 9}, {"n": 12}]), E("cloud_i3", quick=[{"n": 2}], thorough=[{"n": 4}]), E("cloud_l2", thorough=[{"n": 6}]),
                       E("tree_level", quick=[{"n": 1}, {"n": 2}, {"n": 3}], thorough=[{"n": 4}]),
                       E("tree_box", quick=[{"n": 1}, {"n": 2}, {"n": 2, "center": 1}], thorough=[{"n": 3}, {"n": 2, "center": 1}])])])
P("C08",
  bounds="every sequence of up to 3 joins (thorough 4) on 3-4 nodes with ids in [-2, n+1], with a makeSet at any point, for all constructors; forests of nine items after 5-7 concrete pairwise joins (depth 3) followed by any join (thorough any two)",
  units=[dict(harness="containers.cpp", src=["common/src/bit_manip.cpp", "common/src/disjoint_set.cpp"],
              entries=[E("dset", quick=[{"n": 3, "k": 2, "conc": 1}, {"n": 2, "k": 2, "look": 1}, {"n": 3, "k": 2, "mk": 0, "how": 1}, {"n": 4, "k": 3, "mk": 0, "inv": 0, "conc": 1}], thorough=[{"n": 3, "k": 2}, {"n": 3, "k": 3, "conc": 1}, {"n": 4, "k": 3, "mk": 0}, {"n": 4, "k": 4, "mk": 0, "inv": 0, "conc": 1}, {"n": 5, "k": 3, "mk": 0, "how": 1, "conc": 1}]),
                       E("dset_deep", quick=[{"how": 0, "joins": 6, "k": 2}, {"how": 1, "joins": 4, "k": 2}, {"how": 0, "joins": 7, "k": 1}, {"how": 1, "joins": 6, "k": 1}, {"how": 2, "joins": 5, "k": 1}], thorough=[{"how": h, "joins": j, "k": 2} for h in range(3) for j in (4, 6, 7)])])])
P("C09",
  bounds="histories: up to 4 pushes (thorough 5-6) of arbitrary 32-bit values followed by pops from both ends in every order; single step: one push or pop from every valid heap of up to 8 items (thorough 10) with ties and up to 17 (thorough 25) distinct items",
  units=[dict(harness="containers.cpp", src=["common/src/bit_manip.cpp", "common/src/disjoint_set.cpp"],
              entries=[E("heap", quick=[{"n": n, "seq": s, "late": int(s == 0)} for n in (1, 2, 3, 4) for s in range(1 << n)],
                         thorough=[{"n": 5, "seq": s} for s in range(32)] + [{"n": 6, "seq": s, "pops": 2} for s in range(4)]),
                       E("heap_step", quick=[{"n": n, "op": o} for n in (4, 6, 8) for o in range(3)] + [{"n": n, "op": o, "distinct": 1} for n in (9, 11, 12, 14, 16, 17) for o in range(3)], thorough=[{"n": n, "op": o} for n in (7, 9, 10) for o in range(3)] + [{"n": n, "op": o, "distinct": 1} for n in range(9, 26) for o in range(3)])])])
P("C10",
  bounds="box algebra: every box with min in [-2^20,2^20], sizes in [-2,2^20], any probe cell, dimension 1..3; raster order: every min, sizes up to 5 per dimension, every position/cell, dimension 1..4",
  outside="index types other than int; index arithmetic that overflows int",
  units=[dict(harness="grids.cpp", speculate=True,
              entries=[*[E("box_%d" % d, quick=[{"op": o} for o in range(5)]) for d in (1, 2, 3)], E("stack_1"), E("stack_2"), E("stack_3"),
                       E("raster_1", quick=[{"dims": d} for d in (0, 1, 5)]),
                       E("raster_2", quick=[{"dims": d} for d in (11, 12, 23, 43, 20, 2)], thorough=[{"dims": 10 * a + b} for a in range(6) for b in range(6)]),
                       E("raster_3", quick=[{"dims": d} for d in (232, 341, 113, 302)], thorough=[{"dims": 100 * a + 10 * b + c} for a in range(5) for b in range(5) for c in range(5)]),
                       E("raster_4", quick=[{"dims": 2132}], thorough=[{"dims": 2323}, {"dims": 3232}])])])
P("C11",
  bounds="every min corner in [-2^20,2^20], sizes up to 4 per dimension, every position pair, dimension 1..4",
  outside="index types other than int",
  units=[dict(harness="grids.cpp", speculate=True,
              entries=[E("zigzag_1", quick=[{"dims": d} for d in (1, 4)]),
                       E("zigzag_2", quick=[{"dims": d} for d in (11, 12, 23, 33, 43)], thorough=[{"dims": 10 * a + b} for a in range(1, 6) for b in range(1, 6)]),
                       E("zigzag_3", quick=[{"dims": d} for d in (222, 232, 332, 333, 323, 212)], thorough=[{"dims": 100 * a + 10 * b + c} for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)]),
                       E("zigzag_4", quick=[{"dims": 2332}, {"dims": 2222}], thorough=[{"dims": 2323}, {"dims": 3332}])])])
P("C12",
  bounds="grids of dimension 1..3 with sizes up to 4, every min corner, every pair of written cells, every read cell and every value; all initialisations",
  units=[dict(harness="grids.cpp", speculate=True,
              entries=[E("grid_1", quick=[{"dims": 4, "mode": m} for m in range(6)]),
                       E("grid_2", quick=[{"dims": 32, "mode": m} for m in (0, 1, 2, 3, 5)] + [{"dims": 13, "mode": 4}, {"dims": 20, "mode": 3}], thorough=[{"dims": d, "mode": m} for d in (23, 33, 42) for m in range(6)]),
                       E("grid_3", quick=[{"dims": 212, "mode": 0}, {"dims": 122, "mode": 1}, {"dims": 221, "mode": 5}], thorough=[{"dims": 232, "mode": m} for m in range(6)])])])
P("C13",
  bounds="histograms of up to 6 cells (thorough 9) in dimension 1..3 with arbitrary values in [-2^20,2^20], windows 0..2, with and without threshold, maxima and minima",
  outside="larger histograms; non-integer values",
  units=[dict(harness="grids.cpp",
              entries=[E("peaks_1", quick=[{"dims": 4, "win": 1, "mode": 0}, {"dims": 4, "win": 1, "mode": 1, "filter": 1}, {"dims": 4, "win": 2}, {"dims": 3, "win": 0}, {"dims": 3, "win": 1, "mode": 2}, {"dims": 5, "win": 1}, {"dims": 5, "win": 2, "mode": 2}],
                         thorough=[{"dims": 6, "win": 1}, {"dims": 6, "win": 2}, {"dims": 5, "win": 1, "filter": 1}, {"dims": 5, "win": 3}]),
                       E("peaks_2", quick=[{"dims": 22, "win": 11}, {"dims": 22, "win": 1}, {"dims": 13, "win": 11, "filter": 1}, {"dims": 22, "win": 10}, {"dims": 32, "win": 11}], thorough=[{"dims": 23, "win": 11}, {"dims": 32, "win": 11}, {"dims": 32, "win": 1}, {"dims": 23, "win": 10}]),
                       E("peaks_less_1", quick=[{"dims": 4, "win": 1}], thorough=[{"dims": 5, "win": 1}]), E("peaks_less_2", thorough_only=True, quick=[{"dims": 23, "win": 11}]),
                       E("peaks_3", quick=[{"dims": 121, "win": 1}], thorough=[{"dims": 122, "win": 1}, {"dims": 212, "win": 111}])])])
P("C14",
  bounds="sets of up to 3 + 3 arbitrary 32-bit labels, any probe label",
  outside="larger sets",
  units=[dict(harness="labels.cpp",
              entries=[E("label_basic", quick=[{"n": n} for n in range(4)], thorough=[{"n": 4}]),
                       E("label_algebra", quick=[{"n": n, "m": m, "op": o} for (n, m) in ((0, 2), (2, 0), (1, 2), (2, 1), (2, 2)) for o in range(4)], thorough=[{"n": n, "m": m, "op": o} for (n, m) in ((3, 2), (2, 3), (3, 3), (1, 3)) for o in range(4)])])])
FSRC = ["common/src/functions.cpp"]
REAL = {"logic": "real"}
P("C18",
  bounds="every angle in [-1000, 1000] and within 7 rad of +-500, +-12345, +-159154, +-3e9 and 1e12 periods (double)", outside="other angles beyond 1000 rad, infinities and NaN",
  units=[dict(harness="funcs.cpp", src=FSRC, opts=REAL,
              entries=[E("norm360", quick=[{"far": f} for f in (0, 500, -500, 12345, -12345, 159154, -159154, 3000000000, -3000000000, 1000000000000)]), E("norm180", quick=[{"far": f} for f in (0, 500, -500, 12345, -12345, 159154, -159154, 3000000000, -3000000000, 1000000000000)])])])
P("C19",
  bounds="cosine/sine: angles of the periods 0, 1, -1, 7, -1000, 3e9, -5e9 (single precision 0, -1, 3), every value, error below 0.0013; arctangent: [-1,1], error below 2e-5; atan2: every direction at five magnitudes",
  outside="other magnitudes of atan2 arguments, (0,0)",
  units=[dict(harness="funcs.cpp", src=FSRC, opts=dict(REAL, tm=9),
              entries=[E("cossin_d", quick=[{"period": p} for p in (0, -1, 1, 7, -1000, 3000000000, -5000000000)]), E("cossin_f", quick=[{"period": p} for p in (0, -1, 3)]),
                       E("atan_d"), E("atan_f"), E("atan2_d", quick=[{"mag": m} for m in (0, 3)], thorough=[{"mag": m} for m in range(5)]), E("atan2_f", quick=[{"mag": m} for m in (1, 2)], thorough=[{"mag": m} for m in range(5)])])])
P("C20",
  bounds="Fourier: up to 3 harmonics, every coefficient in [-10,10], every angle in [-100,100]; PNEBI order 0: every |x| in (0,24]; orders up to 3: every |x| of segments of total length 0.2 at 1,2,3,8,20,40,100 (thorough: [1,12] and more); tables of tolerance 0.1-0.25, orders 0..2, segments of the argument; monotonicity on [0,100]",
  outside="accuracy elsewhere; tables of other tolerances", assumptions=["exp, sin, cos of libm are within 4 ulp; sin and cos are related only by the unit circle and multiple-angle formulas; narrow ranges are enclosed by Taylor polynomials with remainder"],
  units=[dict(harness="funcs.cpp", src=FSRC, opts=dict(REAL, tm=7),
              entries=[E("fourier", quick=[{"n": n} for n in (0, 1, 2, 3)] + [{"n": 3, "at": a} for a in (700, -2300, 50100)]),
                       E("pnebi0", quick=[{"from": f, "segs": 128} for f in range(0, 24, 4)], thorough=[{"from": f, "segs": 128} for f in range(0, 60, 4)]),
                       E("pnebiv", quick=[{"n": n, "from": f, "ih": 256, "segs": 24} for (n, f) in ((1, 1), (2, 2), (1, 3), (3, 3), (1, 8), (2, 20), (1, 40), (1, 100))] + [{"n": 0, "from": 1, "segs": 64}, {"n": 2, "from": 0, "ih": 2200000, "segs": 1}],
                         thorough=[{"n": n, "from": f, "ih": 256, "segs": 128} for n in (1, 2, 4) for f in range(1, 12)] + [{"n": n, "from": f, "ih": 256, "segs": 16} for n in (1, 3) for f in (20, 30, 40, 80, 120)]),
                       E("lut", quick=[{"n": n, "mode": m, "itol": t, "lo8": l} for (n, m, t, l) in ((0, 1, 5, 0), (1, 0, 5, 0), (2, 1, 10, 4), (1, 0, 10, 16), (2, 1, 5, 40), (1, 0, 4, 100))], thorough=[{"n": n, "mode": m, "itol": 20, "lo8": l} for n in (0, 2) for m in (0, 1) for l in range(0, 100, 2)]), E("lut_shape")])])
P("C21",
  bounds="cosine: every interval of end points in [-3 pi, 7 pi] up to 4 pi long and every point of it, excluding end points within 1e-6 of multiples of pi and lengths within 1e-6 of 2 pi (where rounding selects the branch); Fourier bounds: five coefficient sets of one or two harmonics, every interval over three periods",
  assumptions=["the cosine is even, 2 pi periodic and decreasing on [0, pi]; libm cosine is within 4 ulp"],
  units=[dict(harness="funcs.cpp", src=FSRC, opts=dict(REAL, cosfold=True),
              entries=[E("lucos", quick=[{"K": 3, "span": 3}]), E("lufourier", quick=[{"which": w} for w in range(5)])])])
P("C17",
  bounds="up to 4 measures (thorough 5) of any value in [0,1000] ms spread over up to 3 labels in every way; timers: two nested scopes and a repeated one over 75 combinations of clock readings",
  outside="longer histories; concurrent use", assumptions=["output streams are modelled by shadow/io (numbers are recorded as written)"],
  units=[dict(harness="profiler.cpp", src=["common/src/profiler.cpp"], irinc=["shadow/io"], irsrc=["rsio.cpp"], opts=dict(REAL, io=True),
              entries=[E("stats", quick=[{"n": 1, "labels": 1}, {"n": 2, "labels": 2}, {"n": 3, "labels": 3}, {"n": 4, "labels": 1}], thorough=[{"n": 4, "labels": 2}, {"n": 5, "labels": 1}, {"n": 6, "labels": 1}]), E("timer")])])
P("C31",
  bounds="integer components of 8, 16 and 32 bits in dimension 2..4, every value and scalar; real components in [-100,100] in dimension 3; self-assignment a+=a, a*=a",
  outside="signed division overflow",
  units=[dict(harness="vecarr.cpp", entries=[E(e, quick=[{"op": o} for o in range(10)]) for e in ("vec_u32_3", "vec_i16_2", "vec_u8_4")]),
         dict(harness="vecarr.cpp", opts=REAL, entries=[E("vec_real", quick=[{"op": o} for o in range(8)])])])
GEO = ["geometry/src/base_geometry2.cpp", "geometry/src/gis.cpp"]
P("C23",
  bounds="poses of |x|,|y| <= 1000 and |theta| <= 100; angles in [-1000,1000]; intervals of every begin in [-7,7] and width in (0.001, 2 pi - 0.001), angles not closer than 1e-4 to the limits, with up to one whole turn added; triangles of coordinates in [-100,100]",
  outside="angles within 1e-4 of the interval limits (single precision rounding)",
  units=[dict(harness="geo.cpp", src=GEO, opts=REAL, entries=[E("pose", quick=[{}] + [{"at": a} for a in (700, -2300, 50100)]), E("norm2pi", quick=[{"L": 10}, {"L": 1000}]), E("interval", quick=[{"form": f} for f in range(3)]), E("ccw_area")])])
P("C25",
  bounds="latitude in [-90,90], longitude in [-180,180], altitude in [-1000,10000] m (10 m tolerance, single precision); local coordinates with origin latitude in [-85,85] and offsets up to 1 degree",
  outside="origins near the poles, larger offsets",
  units=[dict(harness="geo.cpp", src=GEO, opts=REAL, entries=[E("ecef", quick=[{}] + [{"at": a} for a in (1, 2, 3)]), E("scale", quick=[{}] + [{"at": a} for a in (1, 2, 3, 4)]), E("local", quick=[{}] + [{"at": a} for a in (1, 2, 3)]), E("roundtrip", quick=[{"LN": 2, "tolu": 200, "n": 32, "from": f, "segs": 4} for f in range(0, 32, 4)], thorough=[{"LN": 180, "tolu": 3000, "n": 34, "from": f, "segs": 2} for f in range(0, 34, 2)])])])
P("C24",
  bounds="boxes of sizes in [0.01,100] in dimension 2 and 3, every query point in [-200,200]^D, float and double, up to rounding (1e-4, 1e-9)",
  outside="query points closer than ten times the tolerance to a face plane need only be answered by a point of the boundary",
  units=[dict(harness="box.cpp", opts=REAL, entries=[E("assoc_d2"), E("assoc_d3"), E("assoc_f2"), E("assoc_f3")])])
P("C22",
  bounds="up to 3 values of any value in [-10,10] in any order, several concrete ranges among 0.25, 0.5, 1 and 2, interval end points at least 1e-3 apart, double",
  outside="ranges below 1e-6 or with inverse squares that are not exact, coinciding end points, more values",
  units=[dict(harness="tls.cpp", opts=REAL, entries=[E("tls", quick=[{"n": 1, "old": 1}, {"n": 2, "old": 1}, {"n": 2, "r0": 2, "r1": 8}] + [{"n": 3, "r0": 2, "r1": 8, "r2": 4, "ord": o} for o in range(1, 7)],
    thorough=[{"n": 3, "r0": a, "r1": b, "r2": c, "ord": o} for a in (2, 8) for b in (4, 16) for c in (2, 4, 8) for o in range(1, 7)])])])
PM = dict(harness="params.cpp", src=["common/src/param_map.cpp"], irinc=["shadow/io"], irsrc=["rsio.cpp"], opts=dict(io=True))
PMA = ["iostreams, boost::lexical_cast (integers, booleans, text) and boost::tokenizer are replaced by the models of shadow/io on the symbolic side; sampled paths are replayed with the real libraries"]
P("C15",
  bounds="up to 3 arguments (thorough 4) of up to 3 characters of any value; integers in [-4096,4096]; texts of up to 3 characters; lists of up to 5 characters (thorough 7)",
  outside="floating point parameters (text keeps six digits), longer arguments", assumptions=PMA,
  units=[dict(PM, entries=[E("args", quick=[{"n": 0}, {"n": 1}, {"n": 2, "len": 3}, {"n": 3, "len": 2}], thorough=[{"n": 3, "len": 3}, {"n": 4, "len": 2}]), E("typed"),
                           E("container", quick=[{"n": n, "size": z} for n in (0, 3, 4) for z in (1, 3)], thorough=[{"n": n, "size": z} for n in (5, 6) for z in (1, 2, 4)]), E("inserter", quick=[{"n": 0}, {"n": 3}, {"n": 4}], thorough=[{"n": 6}])])])
P("C16",
  bounds="texts of up to 5 characters of any value (thorough 7); up to 2 structured lines (thorough 3) with names and values of up to 2 characters; round trips of 2 parameters (thorough 3) through streams and files",
  outside="lines of 2000 characters and more", assumptions=PMA,
  units=[dict(PM, entries=[E("read_text", quick=[{"n": n} for n in (0, 3, 4, 5)], thorough=[{"n": 6}, {"n": 7}]), E("read_lines", quick=[{"lines": 2, "lead": l} for l in range(4)], thorough=[{"lines": 3, "lead": l} for l in range(8)]),
                           E("roundtrip", quick=[{"n": 2, "form": f} for f in range(3)], thorough=[{"n": 3, "form": f} for f in range(3)])])])
P("C32",
  bounds="2 parameters with values of up to 3 characters of any value (thorough 3 parameters, 4 characters), with HOME set or not",
  outside="values that start with a tilde followed by anything but a slash", assumptions=PMA,
  units=[dict(PM, entries=[E("tilde", quick=[{"n": 2, "len": 3}], thorough=[{"n": 3, "len": 3}, {"n": 2, "len": 5}])])])
HG = dict(harness="hough.cpp", src=["geometry/src/hough_line_detector.cpp", "geometry/src/hough_plane_detector.cpp", "common/src/profiler.cpp"], opts=REAL)
P("C26",
  bounds="grids of up to 2x2x3 cells at several concrete angles, every distance range for the geometry; every position in [-3,3]^3 of one point (thorough two points), not closer than 1e-3 bins to a bin limit; windows 0, 1, 2",
  outside="other grids, more points",
  units=[dict(HG, entries=[E("plane_geom", quick=[{"T": 2, "P": 3, "R": 3}, {"T": 3, "P": 2, "R": 2, "t0": -8, "p0": 4}, {"T": 2, "P": 4, "R": 3, "dflt": 1}]),
                           E("plane_votes", quick=[{"T": 1, "P": 2, "R": 3, "t0": 5, "p0": -9}, {"T": 2, "P": 1, "R": 3, "form": 2, "t0": -3, "p0": 14}, {"T": 1, "P": 3, "R": 2, "form": 1, "wp": 2}, {"T": 1, "P": 3, "R": 2, "form": 2}, {"T": 1, "P": 1, "R": 3, "n": 3, "wr": 0}, {"T": 1, "P": 1, "R": 4, "n": 2, "r0": 0, "form": 2, "wr": 2}, {"T": 2, "P": 1, "R": 2, "n": 2, "L": 2}], thorough=[{"T": 1, "P": 2, "R": 3, "n": 2}, {"T": 2, "P": 2, "R": 2, "form": 1, "wt": 0}, {"T": 2, "P": 2, "R": 3, "wp": 0}])])])
P("C27",
  bounds="grids of up to 3x3 cells at several concrete angles; every position in [-3,3]^2 of one or two points, not closer than 1e-3 bins to a bin limit; windows 0, 1, 2",
  outside="other grids, more points",
  units=[dict(HG, entries=[E("line_votes", quick=[{"n": 1, "t0": 7}, {"n": 1, "T": 3, "R": 3, "wt": 2, "t0": -20, "tr": 7}, {"n": 1, "T": 3, "R": 2, "t0": 12, "r0": 4, "tr": 5}, {"n": 1, "T": 4, "R": 2, "dflt": 2}, {"n": 1, "T": 5, "R": 2, "wt": 2, "t0": 4, "tr": 4}, {"n": 1, "T": 4, "R": 2, "form": 2, "dflt": 1}, {"n": 2, "T": 1, "R": 4, "form": 1, "wr": 2}, {"n": 3, "T": 1, "R": 3, "wr": 0}, {"n": 2, "T": 2, "R": 2, "L": 2}], thorough=[{"n": 2, "T": 2, "R": 3}, {"n": 2, "T": 3, "R": 2}])])])
P("C28",
  bounds="2x2, 2x3, 3x2 items (thorough 3x3, 2x4), every pair distance in [0,10] of both sets, tolerance 0.5 and minimum distance 1 or 0, distance differences not closer than 1e-3 to the tolerance",
  outside="more items; inserting items twice in the same object",
  units=[dict(harness="corr.cpp", opts=REAL, entries=[
    E("corr", quick=[{"S": 0, "D": 2}, {"S": 1, "D": 2}, {"S": 2, "D": 2, "twice": 1}, {"S": 2, "D": 3}, {"S": 3, "D": 2, "dmin": 0}, {"S": 3, "D": 3, "ord": 1}], thorough=[{"S": 2, "D": 4}, {"S": 3, "D": 3}])])])
P("C29",
  bounds="folders of up to 3 entries (thorough 4) with names of up to 2 characters of any value (0 and / excluded), each a file, a folder or a link to either; local times of the years 1970-9999, prefix and postfix of up to 3 characters",
  outside="missing or unreadable folders, special files", assumptions=["std::filesystem, streams and time formatting are replaced by the models of shadow/io on the symbolic side; sampled paths are replayed on a real scratch folder with the real library"],
  units=[dict(harness="files.cpp", src=["common/src/io.cpp"], irinc=["shadow/io"], irsrc=["rsio.cpp"], opts=dict(io=True), entries=[E("listing", quick=[{"n": 0}, {"n": 1}, {"n": 2, "slash": 1}, {"n": 3, "len": 1}], thorough=[{"n": 3, "len": 2}, {"n": 4, "len": 1}]), E("stamp")])])
P("C33",
  bounds="2D and 3D, clouds of 3 to 6 points beyond one corner of a box each, every position in [-30,30]^D for which the cross covariance has one of several concrete pairs of singular vectors (both orientations) and distinct singular values; initial guess: every centroid and box size, several concrete orientations of the cloud; double and float",
  outside="clouds with other singular vectors or with coinciding singular values",
  assumptions=["Eigen's JacobiSVD and SelfAdjointEigenSolver are replaced on the symbolic side by their specification (factors that decompose the given matrix); sampled paths and counterexamples are replayed with the real Eigen"],
  units=[dict(harness="boxreg.cpp", opts=REAL, entries=[
    E("step_d2", quick=[{"q": q, "u": u, "n": n} for q, u, n in ((2, 0, 3), (3, 2, 4), (2, 1000, 4), (3, 4, 3), (7, 0, 4))], thorough=[{"q": q, "u": u, "n": n} for q in (2, 3, 5, 6) for u in (0, 2, 4, 1000) for n in (3, 4)]),
    E("step_f2", quick=[{"q": 3, "u": 0}, {"q": 4, "u": 2}]),
    E("step_d3", quick=[{"q": q, "u": u} for q, u in ((2, 2), (21, 0), (21, 1000), (21, 2000))] + [{"q": 20, "u": 0, "n": 6}], thorough=[{"q": q, "u": u} for q in (2, 21, 39) for u in (0, 2, 20, 1000, 2000)]),
    E("step_f3", quick=[{"q": 3, "u": 0}]),
    E("init_d2", quick=[{"v": 2}, {"v": 3, "perm": 1}, {"n": 1}, {"n": 0}]), E("init_f2", quick=[{"v": 4}]),
    E("init_d3", quick=[{"v": v, "perm": p} for v, p in ((20, 0), (2, 1), (39, 2), (85, 1))]), E("init_f3", quick=[{"v": 21, "perm": 1}])])])
