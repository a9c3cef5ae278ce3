"""What each property's check runs.  A unit: harness, which components of
/repo are executed symbolically (sym) and which natively (native)."""


def unit(name, **kw):
    kw.setdefault("harness", name + ".cpp")
    return dict(name=name, **kw)


INT = dict(sym=["intervals"], lazy=())
PROPS = {
    "P01": dict(units=[unit("p01_dyadic", **INT,
                            bounds="multipliers |k|<2^22 (comparison), |k|<2000 (rational_equals), all k that fit after "
                                   "rescaling (rebase), powers in [-8,8], resolutions in [-16,16]")]),
    "P02": dict(units=[unit("p02_dyadic_from_real", **INT,
                            bounds="reals: multiples of 2^-16 in [-1024,1024]; dyadics |k|<=2^16 (no overflow of the 32-bit multiplier), powers in [-3,9]; "
                                   "resolutions in [-6,12]; both interval types")]),
    "P03": dict(units=[unit("p03_dyadic_tree", **INT,
                            bounds="|k|<=2^16, powers in [-4,6], both interval types, shrink by <=5, expand by <=4 levels")]),
    "P04": dict(units=[unit("p04_dissection", **INT,
                            bounds="end points: multiples of 2^-(tol+2) in [-4,4] (narrower for large tol); tolerance "
                                   "0..3 (quick), 0..5 (thorough); all combinations of source and target types")]),
}
PROPS["P05"] = dict(units=[unit("p05_interval_sets", **INT,
                                bounds="end points multiples of 2^-8 and the tested point a multiple of 2^-9 in [-64,64]; every combination of types")])
PROPS["P06"] = dict(units=[unit("p06_partition", **INT,
                                bounds="end and cut points multiples of 1/4 in [-4,4] (inserted point 1/8, [-6,6]), at most 3 cut points "
                                       "given at construction, 2 before insert/refine, 2+2 in a merge (3 in total in quick)")])
PROPS["P07"] = dict(units=[unit("p07_segment", **INT,
                                bounds="depth <= 3 (quick) / 5 (thorough); lengths 1/2,1,2; two predicate families with two symbolic "
                                       "thresholds at multiples of len*2^-(depth+1)")])
ALL = ("platform", "lal", "algebra", "scalars", "intervals", "streams")
QA = dict(lazy=ALL, q=True, native_harness=True, kind="q")
PROPS["P11"] = dict(units=[unit("p11_free_tensor", **QA,
                                bounds="(width,depth) in {(2,3),(3,2)} (quick) and {(2,4),(1,4)} (thorough); 20 operation forms; dense/sparse operands; 9 support "
                                       "shapes per operand, aliased or not; coefficients arbitrary rationals, zero tests on polynomials of more than 4 terms follow the generic "
                                       "branch, at most 0 (quick) / 1 (thorough) coincidental cancellations per path")])

PROPS["P12"] = dict(units=[unit("p12_exp_log", **QA,
                                bounds="(width,depth) in {(2,3),(3,2),(2,4),(1,5)} for series, also (2,7),(2,8) for the antipode (quick); (4,3),(2,5),(3,6) (thorough); "
                                       "9 support shapes, dense or sparse; arbitrary rational coefficients, generic branch on zero tests of polynomials (thorough: one coincidence per path)")])
PROPS["P13"] = dict(units=[unit("p13_shuffle", **QA,
                                bounds="(width,depth) in {(2,3),(3,2)} (quick), also (2,4),(1,5),(4,2) (thorough); the 20 operation forms of P11 plus shuffle, half shuffle, free product and "
                                       "adjoint for every class and storage of both operands; 9 x 4 (quick) / 9 x 9 support shapes; the character identity for exponentials of Lie elements of degree <= 2 "
                                       "and every pair of words; arbitrary rational coefficients, generic branch on zero tests of polynomials of more than 4 terms")])
PROPS["P14"] = dict(units=[unit("p14_lie", **QA,
                                bounds="(width,depth) in {(2,4),(3,2)}, a few shapes of (2,5) (quick), all of (2,5),(3,3),(4,2),(1,3) (thorough); the 20 operation forms of P11; 9 x 4 (quick) / 9 x 9 support shapes; "
                                       "arbitrary rational coefficients, generic branch on zero tests of polynomials of more than 4 terms")])
PROPS["P15"] = dict(units=[unit("p15_cbh", **QA,
                                bounds="(width,depth) in {(2,3),(3,2)} (quick), also (2,4),(3,3) (thorough); up to 3 Lie elements, each dense or sparse, 5/3 support shapes; result dense or sparse; "
                                       "arbitrary rational coefficients, generic branch on zero tests of polynomials of more than 3 terms")])
PROPS["P16"] = dict(units=[unit("p16_derivative", **QA,
                                bounds="(width,depth) in {(2,3),(3,2)}, single intervals in (2,4) (quick), also all of (2,4),(3,3) (thorough); up to 3 intervals; increments and perturbations dense or sparse with 4 (one interval) or "
                                       "2 support shapes; result dense or sparse; arbitrary rational coefficients, generic branch on zero tests of polynomials of more than 3 terms")])
PROPS["P17"] = dict(units=[unit("p17_convert", **QA,
                                bounds="from (width,depth) in {(2,3),(3,2)} (quick), also (2,4),(3,3),(1,4) (thorough), to depths one less, the same, one and two more; 9 support shapes, both storages, "
                                       "every requested storage; arbitrary rational coefficients, generic branch on zero tests of polynomials of more than 4 terms")])

IV = [f"intervals/src/{f}.cpp" for f in ("dyadic", "dyadic_interval", "interval", "real_interval")]


def ST(*f):
    return dict(sym_files=[f"streams/src/{x}.cpp" for x in f] + IV, lazy=ALL, q=True, kind="mixed")


PROPS["P22"] = dict(units=[unit("p22_increments", **ST("lie_increment_stream", "dyadic_caching_layer", "stream_base", "stream"),
                                bounds="1..2 (quick) / 1..3 (thorough) increments with distinct times, multiples of 1/8 in [-1,2], dense or sparse, arbitrary rational coefficients, width 2 depth 2, Clopen or Opencl; "
                                       "one or two direct dyadic queries of power 0..resolution in a window around the data")])
PROPS["P23"] = dict(units=[unit("p23_history", **ST("lie_increment_stream", "dyadic_caching_layer", "stream_base", "stream"),
                                bounds="two increments at multiples of 1/4 in [0,1], dense or sparse, arbitrary rational coefficients; two queries over intervals with end points multiples of 1/2 in [0,2], at resolutions "
                                       "RES-1 or RES, each in a context of depth 1, 2 or 3; the first query from two intervals in quick")])
PROPS["P24"] = dict(units=[unit("p24_piecewise", **ST("piecewise_abelian_stream", "stream_base", "stream"),
                                bounds="1 or 2 pieces of length 1/2, 1 or 2, gaps 0 or 1/2, dense or sparse, arbitrary rational coefficients, width 2 depth 2; queries with end points multiples of 1/4 in [-1/2,9/2], resolutions 1..2, "
                                       "with or without own support in the schema")])
PROPS["P25"] = dict(units=[unit("p25_ticks", **ST("tick_stream", "stream_construction_helper", "stream_base", "stream"),
                                bounds="1..2 (quick) / 1..3 (thorough) ticks at multiples of 1/4 in [-3/4,1] (ties included) on two increment channels, dense or sparse storage, arbitrary rational values; direct dyadic queries, queries through "
                                       "Stream and queries in a context of another depth")])
PROPS["P08"] = dict(units=[unit("p08_schema", sym_files=["streams/src/schema.cpp", "streams/src/stream_construction_helper.cpp"] +
                                [f"streams/src/channels/{f}.cpp" for f in ("categorical_channel", "lead_laggable_channel", "stream_channel")], lazy=ALL, q=True, kind="mixed",
                                bounds="1..3 (quick) / 1..4 (thorough) channels of any of 6 shapes (increment, value, lead-lag value, categorical with 1..3 variants); every channel, variant, dimension and label, "
                                       "indices up to two past the end; arbitrary rational values")])
PROPS["P18"] = dict(units=[unit("p18_scalar", sym_files=["scalars/src/scalar.cpp"] + [f"scalars/src/scalar/{f}.cpp" for f in ("arithmetic", "casts", "comparison", "type_promotion")],
                                lazy=ALL, q=True, kind="mixed",
                                bounds="every ordered pair of int8/32/64, uint8/32/64, float, double, rational and rational polynomial (one term); +,-,*,/ in 4 forms with values and references on either side; integers over the "
                                       "whole range of 8 and 32 bit types, |x|<=2^40 for 64 bit (products: one factor from {0,+-1,2,100,-7} unless both are 8 bit); sums, differences and products of float/double multiples of 1/4 in [-8,8] (thorough: of 1/8 in [-64,64]; with an integer of a float: 1/4 in [-4,4]); equality over every bit "
                                       "pattern of float/double and every integer (same-sign integers of different widths and integers against rationals: 12 boundary values); arbitrary rational coefficients")])
PROPS["P09"] = dict(units=[unit("p09_words", sym_files=["vendored/libalgebra_lite/basis/tensor_basis.cpp", "vendored/libalgebra_lite/basis/unpacked_tensor_word.cpp"], lazy=ALL, kind="int",
                                bounds="width 1..5 and depth <= 8 (width 1), 7 (width 2), 4 (widths 3, 4), 3 (width 5) in quick; width <= 7, depth <= 11/6/5/4 in thorough; every word of every degree (the index is symbolic within "
                                       "its degree), every pair of degrees for products, every letter")])
PROPS["P10"] = dict(units=[unit("p10_hall", sym_files=["vendored/libalgebra_lite/basis/hall_set.cpp", "algebra/src/hall_set_size.cpp"], lazy=ALL, kind="int",
                                bounds="width <= 4; depth 8 (width 2; pairs of elements 6), 5 (4) for width 3, 3 (2) for width 4, 5 for width 1 in quick; 10 (8), 6 (5), 4 (3) in thorough; every element and pair (symbolic indices within "
                                       "a degree); Witt's formula to depth 60 (width <= 2), 30 (<= 4), 20 (5..8); default sizes of contexts to depth 20")])
PROPS["P19"] = dict(units=[unit("p19_arrays", sym_files=[f"scalars/src/{f}.cpp" for f in ("scalar_array", "key_scalar_array", "scalar_stream", "key_scalar_stream", "scalar")] +
                                [f"scalars/src/scalar/{f}.cpp" for f in ("arithmetic", "casts", "comparison", "type_promotion")], lazy=ALL, q=True, kind="mixed",
                                bounds="arrays of 1..3 (quick) / 1..4 (thorough) elements of int32, int64, float, double or rational (by type or by description), owned or borrowed, const or not; targets of assignment of the same or another type "
                                       "(thorough: any) and size; keys none, borrowed or owned; streams of 1..2 / 1..3 rows of 1..2 columns, each with or without keys; integers |x| <= 1000, floating point multiples of 1/4 in [-16,16], "
                                       "arbitrary rationals, key values 0..1000")])
PROPS["P21"] = dict(units=[unit("p21_polynomial", **QA,
                                bounds="polynomials of at most 3 terms in 3 indeterminates of degree <= 3 (10 supports for either operand, also the same object on both sides), every pair of monomials of degree <= 3 with exponents <= 2; "
                                       "arbitrary rational coefficients and values; zero tests on polynomials of at most 2 terms both ways, at most 2 (quick) / 3 (thorough) coincidental cancellations per path")])
PROPS["P29"] = dict(units=[unit("p29_compute", **QA,
                                bounds="(width,depth) in {(2,3),(1,4),(3,2)} (quick), also (2,4) (thorough); every maximum degree of each operand, minimum degree 0..2 where the kernel takes one, contiguous or strided data, with or without a "
                                       "scaling; sparse matrices up to 2x3 (quick) / 3x3 (thorough) with every pattern, by rows and by columns; iterators check their bounds; arbitrary rational entries")])
PROPS["P28"] = dict(units=[unit("p28_values", sym_files=[f"streams/src/{f}.cpp" for f in ("tensor_valued_stream", "lie_increment_stream", "dyadic_caching_layer", "piecewise_abelian_stream", "stream_base", "stream")] +
                                [f"intervals/src/{f}.cpp" for f in ("dyadic", "dyadic_interval", "interval", "real_interval", "partition", "intersection_and_union")], lazy=ALL, q=True, kind="mixed",
                                bounds="width 2, stream depth 2; piecewise (1 piece of length 1/2 or 1; thorough: 2) or Lie increment streams (1; thorough: 2 increments at multiples of 1/4 in [0,2]); initial value in a context of depth 1..3, dense or "
                                       "sparse; domains, queries and (thorough) nested queries with end points multiples of 1/2; simplification over partitions of [0,2] at multiples of 1/2; arbitrary rational coefficients")])
PROPS["P27"] = dict(units=[unit("p27_dynamic", sym_files=[f"streams/src/{f}.cpp" for f in ("dynamically_constructed_stream", "brownian_stream", "stream_base", "stream")] +
                                [f"intervals/src/{f}.cpp" for f in ("dyadic", "dyadic_interval", "interval", "real_interval")], lazy=ALL, q=True, kind="mixed",
                                bounds="width 2, depth 2, resolution 2; every history of up to 2 (quick; 1 for Brownian streams) / 3 (thorough; 2) queries over dyadic intervals of length 2, 1, 1/2 or 1/4 in [-2,2], each at resolution 1 or 2, followed by an interval of "
                                       "length 2, 1 or 1/2 and its halves in 3 orders; dense or sparse; contexts of depth 1..3; arbitrary rational increments")])
