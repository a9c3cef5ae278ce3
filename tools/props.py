#!/usr/bin/env python3
"""The properties, and the generator of properties.jsonl and MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(id, title, statement, over, qtext, why, files, mech, obs=(), na=None, note=""):
    P[id] = dict(json=dict(id=id, title=title, statement=statement,
                           quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                        observe_at=list(obs), hook_needed=None)), na=na, note=note)


prop("P01", "Dyadic numbers compare and rebase like the numbers they denote",
     "Comparing two dyadic numbers k1/2^n1 and k2/2^n2 with <, <=, >, >= agrees with the order of the real numbers they denote, and the rational equality test is true exactly when they are equal as numbers. "
     "Rebasing to a finer resolution keeps the value, and reports failure without changing the number when the resolution is too coarse.",
     ["inputs"], "all pairs (k1,n1), (k2,n2) and resolutions within machine range",
     "tests compare a handful of pairs, nearly all with equal powers; the rescaling between different powers is never sampled on both sides",
     ["intervals/src/dyadic.cpp", "intervals/include/roughpy/intervals/dyadic.h"],
     [("comparison on a common denominator", "intervals/src/dyadic.cpp operator<, <=, >, >="), ("rebase", "Dyadic::rebase"), ("rational_equals", "dyadic_equals/rational_equals")],
     ["Dyadic operators", "rebase result"])
prop("P02", "A dyadic interval built from a real or a dyadic contains it",
     "The dyadic interval of resolution n built from a real x (or from a finer dyadic) is the unique interval of length 2^-n, of the requested type, that contains x, and its end points are exact. "
     "Building it from a dyadic coarser than n starts (or for the open-closed type, ends) at that dyadic.",
     ["inputs", "configurations"], "all reals on a grid, all dyadics, resolutions, and both interval types",
     "rounding at the boundary (x an end point, negative x, open-closed type) is decided by floor/ceil and tests sample only a few positive points",
     ["intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic_interval.h"],
     [("floor/ceil choice by interval type", "DyadicInterval constructors")], ["DyadicInterval(x, resolution, type)", "inf/sup/included_end"])
prop("P03", "Dyadic intervals form a binary tree that agrees with set inclusion",
     "The two halves of a dyadic interval partition it, expanding gives the ancestor that contains it, flipping gives its sibling, and all keep the interval type. "
     "Containment, ordering and end points computed on dyadic intervals agree with those of the sets of reals they denote.",
     ["inputs", "configurations"], "all multipliers, powers, expansion and shrink depths and both types within the bound",
     "tests walk one interval one level; sign of the multiplier, depth and the open-closed type all interact",
     ["intervals/src/dyadic_interval.cpp"], [("shrink/expand/flip/aligned/contains", "DyadicInterval members")], ["DyadicInterval public members"])
prop("P04", "Dyadic dissection of an interval tiles its rounding exactly",
     "Dissecting an interval at resolution n returns consecutive disjoint dyadic intervals, in order, of the requested type and of length at least 2^-n, whose union is the interval with its end points rounded to the resolution. "
     "The dissection terminates for every interval and no two of the returned siblings could be merged into one.",
     ["inputs", "configurations"], "all intervals with end points on a grid finer than the resolution, all resolutions and type combinations in bounds",
     "tests compare three fixed dissections for one interval type; signature correctness everywhere depends on the tiling being exact",
     ["intervals/src/dyadic_interval.cpp"], [("greedy dissection", "to_dyadic_intervals")], ["to_dyadic_intervals"])
prop("P05", "Interval containment, intersection and union agree with point sets",
     "An interval contains a point (or another interval) exactly when the point set it denotes does, and the intersection of two overlapping intervals of one type contains exactly the common points. "
     "The union of two overlapping or adjacent intervals contains exactly the points of either, and end-point queries never depend on how the interval is represented.",
     ["inputs", "configurations"], "all end points on a grid, points on a finer grid, and all type combinations",
     "half-open boundaries are where answers change; tests sample interior points of closed-open intervals",
     ["intervals/src/interval.cpp", "intervals/src/intersection_and_union.cpp", "intervals/src/real_interval.cpp"],
     [("contains/intersects_with/equality", "Interval members"), ("intersection/union", "intersection, interval_union")], ["Interval::contains", "intersection()", "interval_union()"])
prop("P06", "A partition stays a sorted tiling of its interval under every edit",
     "After construction from cut points in any order, refinement at a midpoint, insertion of an interior point, or merging with another partition, the pieces of a partition are consecutive, non-degenerate, of the interval's type and tile it exactly. "
     "The cut points are exactly the given ones (plus the inserted or merged ones) and the mesh is the length of its shortest piece.",
     ["inputs", "histories"], "all intervals and cut points on a grid, any order, and sequences construct / insert / refine / merge within the bound",
     "tests use one interval and one list of points already sorted; merging and repeated insertion are history dependent",
     ["intervals/src/partition.cpp", "intervals/include/roughpy/intervals/partition.h"],
     [("sorted unique intermediates", "Partition constructor"), ("insert_intermediate, refine_midpoints, merge", "Partition members")], ["Partition::size/operator[]/mesh/merge"])
prop("P07", "Segmenting an interval returns disjoint pieces where the predicate holds",
     "Segmenting an interval by a monotone predicate returns ordered, disjoint pieces that stay inside the interval, on each of which the predicate holds. "
     "Every dyadic sub-interval at the search depth on which the predicate holds lies in some returned piece.",
     ["inputs"], "all predicates of two threshold families, intervals and depths in the bound",
     "tests use one predicate and one interval; overlaps appear only at particular thresholds",
     ["intervals/src/segmentation.cpp"], [("dyadic search and merge", "segment")], ["segment()"])
prop("P11", "Free tensor arithmetic is that of the truncated free algebra",
     "Addition, subtraction, scaling, multiplication (concatenation of words, truncated at the depth), and every in-place and fused form agree with the truncated free associative algebra over the coefficients, "
     "whatever the storage (dense or sparse) and supports of the operands, including an operand used twice and default-constructed (zero) operands. Operands other than the target stay unchanged, copies are independent, equality is equality of coefficients, "
     "element access reads and writes the coefficient of its word, and conversion of storage keeps the value.",
     ["inputs", "configurations"], "all rational coefficients, support patterns, storage combinations, operations and aliasings within the bound",
     "the product takes different code paths per storage pair, degree, tile size and truncation; tests sample a few dense products",
     ["algebra/src/free_tensor.cpp", "algebra/include/roughpy/algebra/algebra_base_impl.h", "vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/sparse_vector.h", "vendored/libalgebra_lite/dense_vector.h"],
     [("operation dispatch and storage mixing", "algebra_impl.h"), ("multiplication", "vendored/libalgebra_lite/free_tensor.h"), ("vector operations", "vendored/libalgebra_lite/{sparse,dense}_vector.h")],
     ["FreeTensor public members"])
prop("P12", "Exponential, logarithm and antipode are the truncated power series",
     "exp(x) is the truncated exponential series of x without its constant term, log the truncated logarithm series of 1 plus the non-constant part, and they are inverse to each other. "
     "Fused multiply-exponential a.fmexp(x) equals a*exp(x). The antipode reverses every word with sign (-1)^length and inverts group-like tensors, and none of them modifies its argument.",
     ["inputs", "configurations"], "all rational coefficients, support patterns, storages, widths and depths within the bound",
     "the identities hold for infinitely many tensors; loops are truncated per degree with fused Horner steps, tests sample one exponential",
     ["algebra/src/free_tensor.cpp", "vendored/libalgebra_lite/free_tensor.h", "algebra/src/lite_context.h"],
     [("Horner loops", "vendored/libalgebra_lite/free_tensor.h exp, log, fmexp, antipode")], ["FreeTensor::exp/log/fmexp/antipode"])
prop("P13", "Shuffle, half shuffle and adjoint products are the combinatorial ones",
     "Shuffle tensors add, scale and multiply like words under the shuffle product truncated at the depth. The half shuffle takes the first letter from its left operand, and the adjoint of left multiplication by M satisfies <adj_M(A), T> = <A, M T>. "
     "Each product offered by the context gives the same answer for every class (free or shuffle tensor) and storage of its operands, and pairing with the exponential of a Lie element turns shuffles into products of numbers.",
     ["inputs", "configurations"], "all rational coefficients, support patterns, classes, storages and pairs of words within the bound",
     "each storage pair has its own code path for the adjoint, the products of words are built recursively and cached; tests shuffle a few dense tensors of low degree",
     ["vendored/libalgebra_lite/shuffle_tensor.h", "vendored/libalgebra_lite/algebra/left_half_shuffle_tensor_multiplier.cpp", "vendored/libalgebra_lite/free_tensor.h", "algebra/src/lite_context.h", "algebra/include/roughpy/algebra/algebra_base_impl.h"],
     [("recursive half shuffle with cache", "left_half_shuffle_tensor_multiplier"), ("adjoint per storage pair", "vendored/libalgebra_lite/free_tensor.h left_ftm_adjoint"), ("class dispatch", "UnspecifiedFunctionInvoker")],
     ["ShuffleTensor members", "Context::shuffle_multiply/half_shuffle_multiply/free_multiply/adjoint_to_left_multiply_by"])
prop("P14", "Lie arithmetic is that of the free nilpotent Lie algebra inside the tensors",
     "The product of Lie elements is the commutator of their expansions into words, every sum, scaling, in-place and fused form agrees with it, and it is antisymmetric and satisfies the Jacobi identity. "
     "Converting to a tensor gives the expansion, converting back recovers the element, and the logarithm of the exponential of a Lie element is that element, for every storage.",
     ["inputs", "configurations"], "all rational coefficients, support patterns, storages and aliasings within the bound",
     "brackets are rewritten recursively in the Hall basis and cached; a wrong rewriting rule shows only for particular pairs of basis elements of high degree",
     ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp", "vendored/libalgebra_lite/maps.h", "vendored/libalgebra_lite/maps.cpp", "algebra/src/lite_context.h"],
     [("Hall basis rewriting with cache", "lie_multiplier"), ("Dynkin map", "maps::rbracketing, maps::tensor_to_lie"), ("expansion", "maps::expand, lie_to_tensor")],
     ["Lie members", "Context::lie_to_tensor/tensor_to_lie"])
prop("P15", "The CBH product is the logarithm of the product of exponentials",
     "The Campbell-Baker-Hausdorff product of any number of Lie elements, given as a pair, a list or pointers, is the truncated logarithm of the product of their exponentials in order. "
     "It is associative with zero as neutral element and x, -x as inverses; the signature computed from rows of increments is the ordered product of their exponentials and its log signature the CBH product.",
     ["inputs", "configurations", "histories"], "all lists of Lie elements with rational coefficients, supports and storages within the bound",
     "fused exponentials are accumulated in order and tests compare two-term products of letters only",
     ["algebra/src/context.cpp", "algebra/src/lite_context.h", "vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/maps.h"],
     [("fold with fused multiply-exponential", "Context::cbh_fallback, cbh"), ("increments", "LiteContext::compute_signature, log_signature")], ["Context::cbh/signature/log_signature/to_signature"])
prop("P16", "The signature derivative is the derivative of the exponential",
     "The derivative of the signature over one interval in the direction of a perturbation p of its log signature x is d/dt exp(x + t p) at t = 0, linear in p, for every storage of the arguments and result. "
     "Over several intervals it is folded as D*S_i + D_i in order, and it never changes its arguments.",
     ["inputs", "configurations"], "all rational coefficients, supports, storages and up to three intervals within the bound",
     "the series of iterated commutators carries signs and factorials that only show at higher degree; tests use depth two and one storage",
     ["algebra/src/lite_context.h", "streams/src/stream.cpp"],
     [("commutator series", "LiteContext::derive_series_compute"), ("fold over intervals", "LiteContext::sig_derivative_impl")], ["Context::sig_derivative", "Stream::signature_derivative"])
prop("P17", "Conversion between contexts and storages keeps the element, truncated",
     "Converting a free tensor, shuffle tensor or Lie element to a context of another depth or to another storage gives the same element truncated at the new depth, owned by the new context and in the requested storage, and never changes the argument. "
     "Raising the depth and converting back is the identity; maps and CBH products across contexts agree with converting first, and construction from dense or keyed data keeps exactly the terms that exist in the context.",
     ["inputs", "configurations"], "all rational coefficients, supports, storages, and depths within the bound",
     "conversions copy raw arrays or keys; only elements with terms beyond the new depth, in sparse form, show a wrong truncation",
     ["algebra/src/lite_context.h", "vendored/libalgebra_lite/maps.h", "algebra/src/context.cpp"],
     [("convert_impl, tensor_populate_vcd", "algebra/src/lite_context.h"), ("construct_impl", "algebra/src/lite_context.h")], ["Context::convert/construct_*/lie_to_tensor/tensor_to_lie/cbh"])
prop("P22", "The log signature of an increment stream is that of the increments inside the interval, in order",
     "For every set of Lie increments with distinct time stamps and every dyadic interval the stream answers the logarithm of the ordered product of the exponentials of exactly the increments whose time lies in the interval (end points by the interval type), the signature is its exponential, "
     "and the stream calls the interval empty only if no increment lies in it. The order in which the data was given does not matter.",
     ["inputs", "configurations", "histories"], "all time stamps, increments with rational coefficients, storages, interval types and pairs of queries within the bound",
     "times meet interval end points in finitely many special ways that random data in tests does not produce; answers are assembled recursively from cached pieces",
     ["streams/src/lie_increment_stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/stream_base.cpp"],
     [("range of increments of a query", "LieIncrementStream::log_signature_impl"), ("dyadic cache", "DyadicCachingLayer::log_signature")], ["StreamInterface::log_signature/signature/empty"])
prop("P23", "A query on a stream is answered as if it were the first",
     "Whatever was asked before, over whatever intervals, resolutions and contexts, the signature and log signature of a stream over an interval in a context are those a fresh stream over the same data gives, and equal the ordered product over the dyadic dissection of the interval.",
     ["histories", "inputs", "configurations"], "all pairs of queries (interval, resolution, context depth, kind) and all data within the bound",
     "the cache is keyed by the dyadic interval only; stale or truncated entries show only after a particular earlier query",
     ["streams/src/dyadic_caching_layer.cpp", "streams/src/stream_base.cpp", "streams/src/stream.cpp", "streams/src/lie_increment_stream.cpp"],
     [("cache lookup and store", "DyadicCachingLayer::log_signature"), ("dissection and fold", "StreamInterface::log_signature(interval, resolution, ctx)")], ["Stream::log_signature/signature"])
prop("P24", "Each piece of a piecewise abelian stream contributes the fraction inside the query",
     "For every list of adjacent or separated pieces and every query the signature is the ordered product of the exponentials of each piece scaled by the fraction of its length inside the query; intervals that meet no piece give the unit, and adjacent queries multiply.",
     ["inputs", "configurations"], "all pieces, gaps, queries, storages and resolutions within the bound",
     "only queries that cut a piece somewhere in its middle on either side exercise the scaling; tests query whole pieces",
     ["streams/src/piecewise_abelian_stream.cpp", "streams/src/stream_base.cpp"],
     [("scaling of the first and last piece", "PiecewiseAbelianStream::log_signature_impl"), ("lookup", "to_multiplier_upper/lower")], ["StreamInterface::log_signature/signature"])
prop("P25", "A tick stream answers with the ticks inside the interval, in order of time",
     "For every set of ticks, including simultaneous ones and times at or before zero, building the stream terminates, and the log signature over any dyadic interval not finer than its resolution, and the answers through Stream over any interval, are the logarithm of the ordered product of the exponentials of the ticks inside "
     "(simultaneous ones combined); intervals without ticks are empty.",
     ["inputs", "configurations", "histories"], "all tick times and values, storages, queries and context depths within the bound",
     "the tree of dyadic pieces is built top down from the data once; wrong placement shows only for ticks at special times relative to dyadic end points",
     ["streams/src/tick_stream.cpp", "streams/src/stream_construction_helper.cpp", "streams/src/stream_base.cpp"],
     [("tree construction", "TickStream::recursive_logsig"), ("granular lookup", "TickStream::log_signature_impl")], ["StreamInterface::log_signature/signature/empty"])
prop("P08", "Channels, variants, stream dimensions and labels correspond one to one",
     "In every schema the (channel, variant) pairs correspond one to one and in order to the stream dimensions 0..width-1 and to distinct labels; every conversion between channel, variant, dimension, label and Lie key inverts the others, unknown labels and indices out of range are refused, and finalising pads to the requested width. "
     "The construction helper puts increments, values (as differences from the previous value, twice for lead-lag) and categorical events at the dimension of their channel and variant, whether named by number or label.",
     ["inputs", "configurations"], "all schemas of channel types and variants, indices and rational values within the bound",
     "offsets only differ when an earlier channel has several variants and a later one is addressed in a particular way; tests use one channel kind at a time",
     ["streams/src/schema.cpp", "streams/src/stream_construction_helper.cpp", "streams/include/roughpy/streams/stream_construction_helper.h", "streams/src/channels/categorical_channel.cpp", "streams/src/channels/lead_laggable_channel.cpp"],
     [("prefix sums of variants", "StreamSchema::width_to_iterator, stream_dim_to_channel_it"), ("label prefix matching", "StreamSchema::compare_labels"), ("data placement", "StreamConstructionHelper::add_*")], ["StreamSchema members", "StreamConstructionHelper::add_increment/add_value/add_categorical"])
prop("P18", "Scalars of any types combine, compare and convert exactly whenever the result type can hold the answer",
     "Adding, subtracting, multiplying or dividing two scalars of any pair of types (integers of either sign and any width, single and double precision, rationals, polynomials) gives the exact answer whenever the type of the result "
     "can represent it, that type holds both operands when any type does, the operands are not changed, and a reference scalar keeps its type and writes through. Equality is mathematical equality between any two types, symmetric, and agrees with !=. "
     "Negation, conversion, copies, assignment and the typeless zero behave like the numbers; dividing by any zero is refused and leaves the dividend alone.",
     ["inputs", "configurations"], "all pairs of types, operation forms (value, reference, in place, self) and values within the bounds",
     "there are a hundred type pairs times operation forms, with dispatch by type code and size on both sides; tests try a few values of one or two types",
     ["scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/comparison.cpp", "scalars/src/scalar/casts.cpp", "scalars/src/scalar/type_promotion.cpp"],
     [("type promotion", "compute_type_promotion"), ("dispatch on type", "do_macro.h DO_FOR_EACH_X"), ("inline/owned/reference storage", "Scalar copy, move, assignment")],
     ["Scalar operators", "scalar_cast", "Scalar::is_zero, operator=="])
prop("P09", "Tensor words, their keys and their positions correspond one to one",
     "For every width and depth, positions 0..dimension-1 and keys of the tensor basis correspond one to one in order of degree and then of letters; degree, letters, first letter and parent word, the child of a letter and a word, the product and the splitting of packed words, "
     "reversal, sizes of all degrees and the printed form are those of the word that the position denotes, and stepping through keys visits every position once in order.",
     ["inputs", "configurations"], "all widths, depths, words and letters within the bound",
     "the arithmetic on packed keys and powers of the width only goes wrong at particular degrees, letters and widths; tests use one width and depth",
     ["vendored/libalgebra_lite/basis/tensor_basis.cpp", "vendored/libalgebra_lite/basis/unpacked_tensor_word.cpp", "vendored/libalgebra_lite/tensor_basis.h", "vendored/libalgebra_lite/packed_integer.h"],
     [("key packing", "TensorBasis::key_to_index, index_to_key"), ("word arithmetic", "TensorBasis::lparent/rparent, unpacked_tensor_word")], ["tensor_basis members"])
prop("P10", "The Hall basis is a Hall basis",
     "For every width and depth the Lie basis has, in each degree, exactly as many elements as Witt's formula says; elements are ordered by degree; every bracket [a,b] in it satisfies a < b and the Hall condition on the parents of b; degrees add; every pair that satisfies the conditions within the depth is an element, found from its parents, "
     "and no other pair is; keys, positions, parents, letters and printed forms invert one another. The default sizes of a context are the dimensions of its algebras.",
     ["inputs", "configurations"], "all widths, depths, elements and pairs within the bound; Witt counts to far larger depth",
     "a basis with a wrong element still multiplies consistently in low degrees; tests look at widths and depths where the Hall condition hardly matters",
     ["vendored/libalgebra_lite/basis/hall_set.cpp", "algebra/src/hall_set_size.cpp", "algebra/src/context.cpp"],
     [("growing the set", "hall_set::grow_up"), ("Hall condition", "hall_set"), ("Witt formula", "HallSetSizeHelper")], ["hall_basis members", "context::lie_size, tensor_size"])
prop("P19", "Arrays and streams of scalars keep their values, types, keys and ownership",
     "Whatever its element type and whether it owns or borrows its memory, an array of scalars gives back the values put in, in copies, moves, assignments over any other array, slices, borrowed views and conversions to another type; an assigned copy is independent of its source; constant data cannot be changed through it, out-of-range indices are refused, "
     "and what it borrowed is untouched. Keyed arrays keep their keys with their values, and streams of arrays give each row back with its own keys.",
     ["inputs", "configurations", "histories"], "all element types, storage modes, sizes, operations and values within the bound",
     "the storage is a hand-written tagged union with a packed type pointer, and most combinations of source mode, target mode and type are never reached by a test",
     ["scalars/src/scalar_array.cpp", "scalars/src/key_scalar_array.cpp", "scalars/src/scalar_stream.cpp", "scalars/src/key_scalar_stream.cpp", "scalars/src/scalar_type.cpp"],
     [("tagged union", "ScalarArray constructors and assignment"), ("key ownership", "KeyScalarArray"), ("rows", "ScalarStream, KeyScalarStream::push_back")], ["ScalarArray, KeyScalarArray, ScalarStream, KeyScalarStream members"])
prop("P21", "Polynomial scalars are the ring of polynomials over the rationals",
     "Polynomials with rational coefficients, both those used as scalars and the generic polynomial type, add, subtract, multiply, scale, divide by a number, negate, compare, report coefficients and degrees, and evaluate exactly as polynomials do, also when an operand is used on both sides; products of monomials add exponents, "
     "the order on monomials is a total order, and dividing by zero is refused.",
     ["inputs", "configurations"], "all coefficients and values and all supports within the bound",
     "products and sums insert into containers while walking them, which goes wrong only when terms collide in a particular order",
     ["vendored/libalgebra_lite/polynomial.h", "vendored/libalgebra_lite/polynomial_basis.h", "platform/src/generics/polynomial_type/polynomial_arithmetic.cpp", "platform/src/generics/polynomial_type/monomial.cpp"],
     [("term merging", "poly_add_inplace, poly_mul"), ("monomial product", "monomial operator*")], ["polynomial operators", "monomial operators"])
prop("P29", "The dense kernels of the compute module compute the algebra operations for every pair of degrees and layout",
     "Free tensor products (accumulating and in place), antipode, adjoint of left multiplication, shuffle product and its adjoint, exponential, logarithm and multiplication by an exponential, vector addition and scaling, and the application of a sparse matrix give, for operands of any maximum and minimum degree, contiguous or strided, with or without scaling, "
     "the result of the definition truncated to the degrees of the output, and read and write nothing outside the operands.",
     ["inputs", "configurations"], "all entries, degree bounds, strides and sparsity patterns within the bound",
     "the tests call the kernels with operands of one and the same degree and contiguous data; loop limits are wrong only for other combinations",
     ["roughpy_compute/dense/basic/*.hpp", "roughpy_compute/dense/intermediate/*.hpp", "roughpy_compute/dense/views.hpp", "roughpy_compute/common/sparse_matrix.hpp"],
     [("degree ranges", "ft_fma, st_fma, ft_adj_lmul loops"), ("strided iteration", "StridedDenseIterator")], ["the v1 kernel templates"])
prop("P28", "Tensor valued, restricted and simplified streams agree with the stream they come from",
     "The value of a tensor valued stream at a time is its initial value times the signature of its increment stream up to that time; its initial and terminal values are the values at the ends of its domain, also of the streams queries return (and queries of queries); "
     "a query outside the support is refused or empty; the signature of a tensor valued stream is that of its increments. A restricted stream answers every query as the original does on the intersection with the restriction (also when restricted twice), and the "
     "original is unaffected; a simplified stream has the signature of the original over every union of intervals of the partition.",
     ["inputs", "histories", "configurations"], "all coefficients, times, domains and queries within the bound",
     "the tests compare a handful of queries for one path; values depend on which part of which domain is queried",
     ["streams/src/tensor_valued_stream.cpp", "streams/src/tensor_valued_stream.h", "streams/src/stream.cpp"],
     [("value", "TensorValuedStream::value_at, query, initial_value, terminal_value"), ("restriction", "Stream::restrict"), ("simplify", "Stream::simplify")], [])
prop("P27", "Streams constructed on demand are consistent whatever was queried before",
     "For a stream whose increments are made up when they are asked for (function and Brownian streams), and after every history of queries: the signature over an interval is the product of the signatures over its halves at the same resolution; a query gives the same answer "
     "when repeated, and its first level never changes at any resolution; queries on either side of zero return; the answer over a real interval is that over the dyadic one in every context. A Brownian stream draws the increment over an interval with mean zero and the variance of "
     "its length, and the midpoint given the increment with variance half the length of one half.",
     ["inputs", "histories"], "all increments and all query histories within the bound",
     "the tests make one or two queries in one order; consistency depends on the tree built by all earlier queries",
     ["streams/src/dynamically_constructed_stream.cpp", "streams/src/brownian_stream.cpp"],
     [("refinement", "refine_accuracy, update_parents, insert_children_and_refine"), ("expansion", "expand_root_until_contains"), ("Brownian law", "BrownianStream::gaussian_increment, compute_child_lie_increments")],
     ["the quality of the random generator", "rounding of floating point coefficients"])
#--PROPS--


def main():
    from registry import PROPS
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]["json"]) + "\n")
    checks, na = [], []
    for k in sorted(P):
        p = P[k]
        if k in PROPS and not p["na"]:
            s = PROPS[k]
            kinds = {u.get("kind", "sym") for u in s["units"]}
            tech = s.get("technique") or (
                "symbolic execution of the compiled LLVM IR, z3" if kinds == {"sym"} else
                "symbolic execution of the real code on symbolic rationals, z3" if kinds == {"q"} else
                "symbolic execution (LLVM IR and symbolic rationals), z3")
            checks.append(dict(property=k, quick_cmd=f"python3 tools/check.py {k} --tier quick",
                               thorough_cmd=f"python3 tools/check.py {k} --tier thorough",
                               technique=tech, level=s.get("level", "model_checking"),
                               level_note="Bounded: " + "; ".join(f"{u['name']}: {u.get('bounds', '')}" for u in s["units"])[:1500]
                                          + ". Counterexamples are replayed on the natively compiled code. Trusts clang, z3 and the "
                                            "engine's memory and libc models (DESIGN.md). " + p["note"]))
        else:
            na.append(dict(property=k, reason=p["na"] or "check not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
             notes="Checks build from VERIF_REPO or /repo's working tree into /verif/build; see DESIGN.md.")
    with open(f"{VERIF}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
