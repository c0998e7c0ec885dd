"""What each check builds and explores."""
STD = ["-std=c++17", "-w"]
VARIANTS = {
    # optimised build without assertions: full bounds
    "rel": {"cc": ["g++", *STD, "-O2", "-DNDEBUG"]},
    # assertions, checked containers, address + undefined behaviour sanitizers
    "dbg": {"cc": ["g++", *STD, "-O1", "-g1", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined",
                   "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "san": True},
    # the same without assertions
    "chk": {"cc": ["g++", *STD, "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined",
                   "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "san": True},
    # logging compiled in, assertions on
    "log": {"cc": ["g++", *STD, "-O1", "-DENABLE_LOGGING"]},
    # logging compiled in, no assertions
    "logrel": {"cc": ["g++", *STD, "-O1", "-DNDEBUG", "-DENABLE_LOGGING"]},
    # uninitialised memory
    "msan": {"cc": ["clang++", *STD, "-Wno-c++11-narrowing", "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS",
                    "-fsanitize=memory", "-fsanitize-memory-param-retval", "-fno-omit-frame-pointer"], "san": True},
}
# variant: (quick level, thorough level); level 0 reduced, 1 quick, 2 thorough
RD = {"rel": (1, 2), "dbg": (0, 1)}

CHECKS = {
    "C01": {
        "harness": [{"src": "c01.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..29, 2D <=6 (12 thorough), 3D <=3 (5), 4D <=2 (3) plus extreme shapes; "
                  "12 control point patterns and all unit vectors; unisolvent grids and special parameters; "
                  "all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 2 (more in single directions)",
        "oracle": "Bernstein sum in long double",
    },
    "C02": {
        "harness": [{"src": "c02.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..29, 2D <=5 (10 thorough), 3D <=2 (4), 4D <=1 (2) plus extreme shapes; "
                  "7 control point x 8 weight patterns; unisolvent grids and special parameters; "
                  "all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "weighted Bernstein quotient in long double from the data handed to the constructor",
    },
    "C03": {
        "harness": [{"src": "c03.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..29, 2D <=4 (8 thorough), 3D <=2 (4), 4D <=1 (2) plus extreme shapes; all order "
                  "tuples up to degree + 2; 8 control point patterns and all unit vectors; unisolvent grids; "
                  "all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "differentiated Bernstein basis in long double",
    },
    "C04": {
        "harness": [{"src": "c04.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..10 (20 thorough), 2D <=3 (5), 3D <=2 (3), 4D <=1 (2) plus extreme shapes; total order "
                  "<= 8 (1D), up to (4,4) in 2D, (2,2,2) in 3D, (1,1,1,1) in 4D and 5D, closed form where the degree fits the binomial table; 7 weight x 5 "
                  "control point patterns; all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "quotient of truncated Taylor series in long double, for the spline and for every single basis function",
    },
    "C05": {
        "harness": [{"src": "c05.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..28, 2D <=5 (10 thorough), 3D <=3 (5), 4D <=2 (3) plus extreme shapes; all elevation "
                  "chains to length 8/4/3/3, periodic ones to length 40; degrees around powers of two to 256; 7 control point and 6 weight patterns, all unit vectors; grids "
                  "unisolvent for the elevated degree; all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 2 (more in single directions)",
        "oracle": "the function before elevation, Bernstein sum in long double",
    },
    "C06": {
        "harness": [{"src": "c06.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "1D degree 0..29, 2D <=4 (8 thorough), 3D <=2 (4), 4D <=1 (2) plus extreme shapes; every direction; "
                  "10 single positions, all subsets of 8 positions with up to 4 (8) members, the empty list, lists of every length to 36 (130); degrees around powers of two to 256; "
                  "all operation histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "original at a + (b - a) x in long double on unisolvent grids",
    },
    "C07": {
        "harness": [{"src": "c07.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "all ordered pairs of degrees: 1D 0..28, 2D <=4 (6 thorough), 3D <=2 (3), 4D <=1 (2) plus extreme "
                  "shapes and degrees around powers of two to 257; all forms, both operand orders, the spline itself and each of its control points as argument; "
                  "all sequences of 18+ in-place operations to depth 3 (4) against a model; all histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "value tables of the operands on grids unisolvent for the result degree, long double",
    },
    "C08": {
        "harness": [{"src": "c08.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "all ordered pairs of degrees: 1D degree sum <= 29, 2D <=3 (5 thorough), 3D <=1 (2), 4D <=1 plus extreme "
                  "shapes; scalar/point/inner products; all pairs of unit splines for small shapes (the product is "
                  "bilinear); powers 0..29 with degree <= 29, of degree 0 to 70; all sequences of 15 operations to depth 3 (5) against a "
                  "model; all histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "products of operand values on grids unisolvent for the result degree, long double",
    },
    "C09": {
        "harness": [{"src": "c09.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "all ordered pairs of degrees: 1D <=9 (14 thorough), 2D <=2 (3), 3D, 4D <=1 plus extreme shapes; weights "
                  "of the operands equal, proportional, different in the last one, nearly equal, elevated, equal as lists but "
                  "of other degree, unrelated; all forms incl. self and own control points/weights as argument; all "
                  "sequences of 17 in-place operations to depth 3 (4) against a model; all histories to depth 2 (3), also from states of degree up to 29; in 5D degree <= 1 (more in single directions)",
        "oracle": "operand values combined pointwise on unisolvent grids, long double",
    },
    "C10": {
        "harness": [{"src": "c10.cpp", "parts": [1, 2, 3, 4, 11, 12, 13], "variants": RD}],
        "bounds": "outer dimension 1..4 x inner dimension 1..3, all degree tuples up to 1D 5 of 5 (7 thorough), 2D of 1D 3 "
                  "of 3, 2D of 2D 2 of 2, 3D/4D 1 of 1..3, extreme 1D degrees with product <= 29; 6 inner and 4 outer "
                  "point patterns, 5 weight patterns per side, 4 polynomial/rational combinations; all groups of up to "
                  "3 of 4 inner splines, groups of every size to 20 (40); states of all histories to depth 1-2 as outer and inner function; all combinations of float, double and long double operands the library accepts",
        "oracle": "outer reference evaluated at the inner reference on grids unisolvent for the composed degree, long double",
    },
    "C11": {
        "harness": [{"src": "c11.cpp", "parts": [1, 2, 3, 4, 11, 12, 13], "variants": RD}],
        "bounds": "shapes, patterns, weights, combinations and histories of C10 (incl. mixed scalar types); every entry of every sensitivity list",
        "oracle": "(weighted) basis functions of the outer spline evaluated at the inner reference, and the composed "
                  "spline as their linear combination, long double",
    },
    "C12": {
        "harness": [{"src": "c12.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "every assignment of 7 value alphabets (all negative, all positive, mixed, on and beyond the faces, "
                  "flat) to up to 6 (8 thorough) control points and 3 weights to up to 4; every single control point "
                  "coordinate at 10 values around the faces for all degrees 1D <=12, 2D <=3 (5), 3D <=2, 4D <=1; 12 "
                  "data and 8 weight patterns; each pair of own control points as shift and scale; all histories to depth 2 (3), also from states of degree up to 29. "
                  "Extents whose reciprocal overflows are outside the bounds; in 5D degree <= 1 (more in single directions)",
        "oracle": "component-wise extrema and the affine map in long double",
    },
    "C13": {
        "harness": [{"src": "c13.cpp", "parts": [1, 2, 3, 4, 5], "variants": RD}],
        "bounds": "all degrees 1D <=29, 2D <=8, 3D <=4 (6 thorough), 4D <=2 (3), every index tuple and accessor form; all "
                  "constructors, assignments and results of every operation; all sequences of degree updates, "
                  "elevations, copies, moves, splits, derivatives to depth 4 (5) starting from the empty spline; shapes of up to 90000 control points "
                  "around powers of two in 1D to 5D; all histories to depth 2 (3), also from states of degree up to 29",
        "oracle": "mixed radix numbers with the first index fastest, addresses of the stored control points",
    },
    "C14": {
        "harness": [{"src": "c14.cpp", "parts": [1, 2], "variants": RD}],
        "bounds": "every list of up to three bytes; entries of 1..11 and 16 bytes (integers, floating point numbers, "
                  "structures) in lists of up to 40 bytes or 13 entries (4 times thorough) with every byte value at every "
                  "position up to 24 bytes; points of 1..5 coordinates of 6 types; two memory contents behind the list; 6 entry sizes in lists of every "
                  "length up to 512 to 8192 and of every length within 5 of 2^9..2^22 bytes of data or text",
        "oracle": "independent base64 reference",
    },
    "C25": {
        "harness": [{"src": "c25.cpp", "variants": {"rel": (1, 2), "chk": (1, 2), "dbg": (0, 1)}}],
        "bounds": "every text of one group over 14 representatives of all character classes; every text of two groups over 6 "
                  "characters (first 3 and last 4 positions; all 8 thorough); every one of 256 characters at every "
                  "position of texts up to 16 groups (40) with all paddings; decoded as 12 entry types; without "
                  "assertions also truncated texts of every length up to 400 (2000) of 5 characters with up to 4 "
                  "trailing paddings as 7 entry types. Truncated texts and point texts with incomplete points in "
                  "assertion-enabled builds are outside the bounds (documented assertions)",
        "oracle": "independent base64 reference, address and undefined behaviour sanitizer, checked containers",
    },
    "C15": {
        "harness": [{"src": "c15.cpp", "parts": [1, 2], "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "all programs of 1 to 3 (thorough 4) instructions over three registers (two variables, one constant) from "
                  "8 input points: every function, every operator with values and scalars on either side, in-place and "
                  "aliased; fixed and run-time size 1, 3, 6 in lock-step, single instructions with 127 to 70000 derivatives; float, double, long double; every operation on arguments of "
                  "all magnitudes (1e-300..1e300 where linear, around 80 incl. neighbours of 0, 1, pi/2) to relative accuracy; all "
                  "comparisons of 16 values of each type incl. signed zero, infinities, NaN",
        "oracle": "truncated Taylor series in long double with running rounding error bounds",
    },
    "C16": {
        "harness": [{"src": "c16.cpp", "parts": [1, 2, 3], "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "all programs of 1 to 3 instructions over three registers of nested types from 8 input points; splines over "
                  "differentiable control points, parameters, weights, fixed, run-time-size and nested types: 1D degree <= 6 "
                  "(14 thorough), 2D <= 2 (4), 3D <= 1 (2), every control point and weight active in turn, grids of 5 "
                  "parameters per direction, and after every operation the types support",
        "oracle": "second order Taylor series in long double with running rounding error bounds",
    },
    "C20": {
        "harness": [{"src": "c20.cpp", "parts": [1, 2], "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "all sequences of 19 operations to depth 3 (4) over two points of dimension 1..4 and 6, components from 4 "
                  "values (all combinations up to dimension 2), double, float, long double, int, unsigned, long long; all "
                  "forms over 11 special values incl. signed zero, denormals, infinities, NaN; mixed and differentiable components",
        "oracle": "component-wise model: exact integers, long double with running rounding error bounds",
    },
    "C26": {
        "harness": [{"src": "c26.cpp", "parts": [1, 2], "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "sort: all lists over 2 values to length 17 (20 thorough), 3 to 10 (12), 5 to 7 (8), all permutations of 9 "
                  "(10), periodic lists to length 400 (1200), six entry types; combination: all tuples of list lengths for 1 to "
                  "6 lists incl. empty ones, five entry types, all assignments of 0, 1, -1 and others to up to 7 (9) entries; power: all bases and exponents of 8 and 16 bit types, of 32 "
                  "bit types for exponents >= 2, 64 bit bases to 400000 (2700000) and around every k-th root of the limits; "
                  "traits of some 600 types",
        "oracle": "definition: sorted stable permutation; product of one entry per list; 128 bit integer powers",
    },
    "C19": {
        "harness": [{"src": "c19.cpp", "parts": [1, 2, 8, 30, 68], "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "all tables of size 1 to the largest the entry type can hold (68 for size_t), five entry types; library "
                  "built with table sizes 1, 2, 8, 30, 68: every degree below the size, every derivative order to "
                  "degree + 3, 30 (74 thorough) parameters inside and outside of the unit interval, float, double, long double",
        "oracle": "exact multiplicative binomials in 128 bit integers; differentiated definition in long double",
    },
    "C17": {
        "harness": [{"src": "c17.cpp", "variants": {"log": (1, 2), "rel": (1, 2)}}],
        "bounds": "all 512 output levels x 3 ways of setting them x all message kinds; 8 texts (empty, line breaks, zero byte, "
                  "format characters, larger than the stream buffers) x kinds x levels; all three-fold changes of the file "
                  "sinks; all sequences of 15 operations to depth 4 (5), without logging 3 (4), all pairs of them 40 (300) times over; ended by exit, "
                  "death after the last call, uncaught error, kill, and death before, in the middle of and after "
                  "every write (sequences two shorter)",
        "oracle": "model of the four sinks; content compared after the process has ended",
        "technique": "exhaustive exploration of operation sequences and crash points on the real file system against a sink model",
        "assumptions": ["a completed write system call survives the death of the process",
                        "log files are created in the working directory and can be written"],
    },
    "C18": {
        "harness": [{"src": "c18.cpp", "parts": [1, 2], "variants": {"rel": (1, 2)},
                     "sh": "clang++ -std=c++17 -O2 -c {here}/mc/sched.cpp -o {bin}.sched.o && clang++ -std=c++17 -w -Wno-c++11-narrowing -O1 -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 "
                           "-DPART={part} -Xclang -fsanitize=thread -I {here} -I {inc} {src} {bin}.sched.o -o {bin} -lpthread"},
                    {"src": "c18.cpp", "parts": [3, 4], "variants": {"dbg": (0, 1)},
                     "sh": "clang++ -std=c++17 -O2 -c {here}/mc/sched.cpp -o {bin}.sched.o && clang++ -std=c++17 -w -Wno-c++11-narrowing -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0 "
                           "-DPART={part} -Xclang -fsanitize=thread -I {here} -I {inc} {src} {bin}.sched.o -o {bin} -lpthread"},
                    {"src": "c18s.cpp", "parts": [1, 2, 3], "variants": RD}],
        "bounds": "61 operations on constant operands. Concurrent: all pairs of operations on the same operands in 2 threads "
                  "(thorough: also on different operands), triples in 3 threads; degrees up to 3 in 1D, 2 in 2D, 1 in 3D; all "
                  "interleavings of non-commuting accesses and synchronisation up to 2 (3) preemptions, 1 for more "
                  "than 40 scheduling points. Sequential: all sequences a, b, a and a, b over all operations and 3-7 "
                  "operand sets, operands kept, overwritten in place, rebuilt in the same memory; everything twice in one sequence with each operation in between; operands that differ from others in the first, middle or last number by rounding only",
        "oracle": "bitwise the result of the operation alone in a process of its own; no conflicting unsynchronised accesses "
                  "(vector clocks over every instrumented load and store); operands bitwise unchanged",
        "technique": "stateless model checking of the real code under a controlled scheduler with partial-order reduction and "
                     "preemption bounding; exhaustive operation sequences",
        "assumptions": ["memory accesses inside the precompiled C and C++ libraries are not instrumented",
                        "sequential consistency; weak memory effects are covered by reporting every data race",
                        "output level 0: console output of rejected requests is not part of the claim"],
    },
    "C21": {
        "harness": [{"src": "c21.cpp", "parts": [1, 2, 3, 11, 12, 13], "variants": RD}],
        "bounds": "all sequences of 72 assignments, moves, swaps, writes through accessors, in-place and out-of-place operations "
                  "over five variables to depth 3 (1D; 4 thorough), 3 (2D), 2 (3D; 3 thorough) from four starting states; 40 "
                  "in-place/out-of-place pairs incl. the spline itself and its own control points and weights in every state "
                  "of depth 2; equality with every single coordinate changed by one ulp and more for all degrees 1D <=29, "
                  "2D <=6, 3D <=2 with up to 40 (400) control points, scalars and points, three scalar types; all 57 "
                  "operations on constant operands of 8 degree pairs",
        "oracle": "the same step on objects rebuilt from plain data with arguments that share nothing; equality of the numbers",
    },
    "C22": {
        "harness": [{"src": "c22.cpp", "parts": [1, 2, 3, 4], "variants": {"rel": (1, 2), "dbg": (0, 1), "log": (0, 2), "logrel": (0, 1)}}],
        "bounds": "polynomial, scalar and rational splines of dimension 1..3, 4-5 degree tuples each, float, double, long double: 16 "
                  "invalid and 8 valid single positions, all lists of up to 4 (1D; 5 thorough), 3 (2D), 2 (3D) of 8 positions; "
                  "inner functions of dimension 1, 2 with every single coordinate of every control point at 10 values outside "
                  "(weights hiding it) and 5 values on or inside the faces x 4 bases x 9 compositions and sensitivities and "
                  "groups; 7 coordinates, 7 powers, 6 undefined corners; 6 output levels, with logging up to all 512; builds "
                  "with and without assertions and logging",
        "oracle": "validity of the request by definition; runtime error exactly when invalid; operands bitwise unchanged and "
                  "yielding the same results afterwards",
    },
    "C23": {
        "harness": [{"src": "c23.cpp", "parts": [1, 2, 3], "variants": {"rel": (1, 2)},
                     "sh": "sh {here}/harness/c23.sh {part} {here} {inc} {src} {bin}"}],
        "bounds": "23 configurations: g++ -O0, -O1, -O2, -O3, clang -O0, -O1, -O2, C++17 and C++20, with and without assertions, checked containers, "
                  "logging (levels 0, 39, 511 and every single bit; thorough all 512), binomial tables of 30, 31, 62, 67 rows, "
                  "unsigned char, float, double, long double; the catalogue of 61 operations on 5-10 pairs of degree tuples each "
                  "in 1D, 2D, 3D; all histories of 37 state changing operations of depth 1 followed by the catalogue, of depth 2 "
                  "(3 thorough) followed by a summary; every table entry and every degree a table admits at 17 parameters",
        "oracle": "the long double release build (same numbers up to rounding of the scalar type, same sizes, degrees, truth "
                  "values, rejections); for the tables and high degrees Pascal's triangle and Bernstein sums",
    },
    "C24": {
        "harness": [{"src": "c24.cpp", "parts": [1, 2, 3, 10], "variants": {"rel": (1, 2), "dbg": (1, 2), "chk": (0, 1), "msan": (0, 1)}}],
        "bounds": "the catalogue of 61 operations on 5-10 pairs of degree tuples each in 1D, 2D, 3D for float, double, long double; "
                  "all histories of 37 state changing operations of depth 1 followed by the catalogue, of depth 2 (3 thorough) "
                  "followed by a summary; every degree 0..29 in every direction; base64 of 0..20 (70) entries of 8 types; all "
                  "sequences of 3 (4) of 22 operations over run-time-size differentiation variables; short lists, factor lists, "
                  "powers, binomials, Bernstein polynomials, points",
        "oracle": "no report of the address, undefined behaviour and memory sanitizers and the checked containers, every number "
                  "handed out computed from initialised memory, allocations balanced",
        "assumptions": ["functions precompiled in the C++ library are not instrumented for uninitialised memory"],
    },
    "C27": {
        "harness": [{"src": "c27.cpp", "variants": {"rel": (1, 2), "dbg": (0, 1)}}],
        "bounds": "points of 1 to 5 and 7 coordinates of 6 component types; about 150 values (all limits, signed zero, "
                  "infinities, NaN, borders of decimal rounding, powers of ten and two) in every combination of one "
                  "coordinate with the others; 14 precisions; 6 stream formats; differentiable numbers of 5 types",
        "oracle": "numbers read back from the text against correctly rounded decimals",
    },
}
