"""Writes /verif/properties.jsonl (kept here so that the text is readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})


p("P01", "Dyadic dissections tile the rounded interval exactly",
  "Dissecting an interval at a resolution gives dyadic intervals of the requested type that follow each other without gap or overlap from the interval's lower end to its upper end, both rounded to the grid of that resolution (down for clopen, up for opencl). No piece is finer than the resolution, no two neighbouring pieces are the two halves of one dyadic interval, and an interval that rounds to nothing gives no pieces.",
  ["inputs"], "every interval (real, dyadic, partition; any end points, signs and type), every resolution",
  "The tests dissect a handful of intervals near [0,1); end points on and next to grid lines, negative times, opencl and long intervals are not reached.",
  ["intervals/src/dyadic_interval.cpp", "roughpy/src/intervals/dyadic_interval.cpp"],
  [("to_dyadic_intervals", "intervals/src/dyadic_interval.cpp")])

p("P02", "Dyadic numbers and dyadic intervals behave as exact numbers and grid cells",
  "A dyadic number k/2^n compares, rebases and moves exactly as the rational number it denotes, and rebasing tells whether the requested power was reached without changing the value. A dyadic interval is the grid cell of its type: its end points, contained and omitted halves, shrinking, expansion, flipping, advancing, containment and order agree with the cell's end points for every power, sign and type.",
  ["inputs", "programs"], "all dyadic numbers with moderate powers, all sequences of operations on them, both interval types",
  "Tests use small positive multiples at a few powers, mostly clopen; comparisons across powers, negative multiples and chains of in-place operations are samples only.",
  ["intervals/src/dyadic.cpp", "intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic.h"],
  [("Dyadic::rebase, comparisons", "intervals/src/dyadic.cpp"), ("DyadicInterval operations", "intervals/src/dyadic_interval.cpp")])

p("P03", "Interval predicates agree with the set of points of the interval",
  "Whether an interval contains a point or another interval, meets or intersects another, and equals another agrees with the half-open set of points it denotes and with its type, for real intervals, dyadic intervals and partitions alike. Conversions between the interval classes keep the end points and the type.",
  ["inputs"], "all pairs of intervals, touching, nested, disjoint or equal, and points at, next to and away from their ends",
  "Existing tests check a few pairs; boundary points and intervals that touch at one end are where half-open conventions go wrong.",
  ["intervals/src/interval.cpp", "intervals/src/real_interval.cpp", "intervals/include/roughpy/intervals/interval.h"],
  [("Interval::contains_point, intersects_with, operator==", "intervals/src/interval.cpp")])

p("P04", "Partitions keep exactly their cut points under refinement and merging",
  "A partition's pieces tile its interval at its cut points in increasing order, its mesh is the length of its smallest piece, and inserting a point, refining by midpoints and copying add exactly the cuts they name. Merging two partitions of one type gives the partition of the smallest interval containing both whose cuts are all the cuts and end points of both, each once.",
  ["inputs", "programs"], "all sequences of construction, insertion, refinement and merging of partitions, overlapping, nested, touching or separated",
  "Tests merge a fixed set of partitions; separated partitions, shared ends and repeated operations are not covered.",
  ["intervals/src/partition.cpp", "intervals/include/roughpy/intervals/partition.h"],
  [("Partition::merge, refine_midpoints, insert_intermediate", "intervals/src/partition.cpp")],
  [("intermediates", "sorted inner cut points", "intervals/include/roughpy/intervals/partition.h")])

p("P05", "Segmentation returns exactly the maximal intervals where a predicate holds",
  "Segmenting an interval with a predicate that holds on an interval iff it holds on its parts returns, at the requested tolerance, the maximal runs of cells of the interval on which the predicate holds, in increasing order, pairwise disjoint and inside the interval. The answer is the same from C++ and from Python.",
  ["inputs"], "all clopen intervals, tolerances and predicates that are determined by a set of forbidden ranges",
  "Segmentation has no test beyond its existence; which cells are joined depends on the whole pattern of good and bad cells.",
  ["intervals/src/segmentation.cpp", "intervals/src/dyadic_searcher.cpp", "intervals/src/scaled_predicate.h", "roughpy/src/intervals/segmentation.cpp"],
  [("DyadicSearcher", "intervals/src/dyadic_searcher.cpp"), ("ScaledPredicate", "intervals/src/scaled_predicate.h")])

p("P06", "Signatures over adjacent intervals multiply (Chen) for every kind of stream",
  "For any stream and any interval cut at points of the query resolution, the signature over the whole is the product in order of the signatures over the parts, and the log-signature is the logarithm of that product. This holds for every kind of stream, width, depth, coefficient type and for queries mixing resolutions at which the cut points are grid points.",
  ["inputs", "histories"], "all streams (increments, ticks, piecewise abelian, function, restricted), all intervals and cut points",
  "Tests compare a few whole-interval signatures with an exponential; multiplicativity over arbitrary cuts is not tested.",
  ["streams/src/stream_base.cpp", "streams/src/stream.cpp", "streams/src/dyadic_caching_layer.cpp"],
  [("StreamInterface::signature, log_signature", "streams/src/stream_base.cpp"), ("DyadicCachingLayer::log_signature", "streams/src/dyadic_caching_layer.cpp")],
  observe=["Stream.signature", "Stream.log_signature"])

p("P07", "A query answers for exactly the data in the rounded interval, in time order",
  "A stream's log-signature over an interval is the Campbell-Baker-Hausdorff product, in time order, of the increments whose times lie in the interval with its ends rounded down to the query resolution (times rounded to the stream's own resolution), cut to the support; its signature is the exponential of it and it is zero, or one, when there are none. No increment is lost, repeated, reordered or attributed to another time, whatever the interval and resolution.",
  ["inputs"], "all data sets (times, order of increments, repeated times), intervals, resolutions, widths, depths and coefficient types",
  "Tests query a few intervals of small paths with floating point; exact coefficients at end points, coincident times and resolution boundaries are not tested.",
  ["streams/src/lie_increment_stream.cpp", "streams/src/tick_stream.cpp", "streams/src/stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/stream_base.cpp"],
  [("LieIncrementStream::log_signature_impl", "streams/src/lie_increment_stream.cpp"), ("TickStream::recursive_logsig", "streams/src/tick_stream.cpp")],
  observe=["Stream.log_signature"])

p("P08", "Answers do not depend on the history of queries, on caching or on concurrency",
  "The answer to a query of a stream built from data depends only on the stream, the interval, the resolution and the context asked for: not on the queries asked before, in any order, with any other context or resolution, on any other stream, in a reloaded copy or at the same time from other threads. Asking again gives the same answer, and neither the stream nor any earlier answer is changed by a query or by using an answer.",
  ["histories", "schedules"], "all sequences of queries on several streams with several contexts and resolutions, and all interleavings of concurrent queries",
  "Tests use each stream with one or two queries; cache pollution needs specific sequences of queries.",
  ["streams/src/dyadic_caching_layer.cpp", "streams/include/roughpy/streams/dyadic_caching_layer.h", "streams/src/stream.cpp", "algebra/src/context.cpp"],
  [("DyadicCachingLayer cache", "streams/src/dyadic_caching_layer.cpp")],
  [("m_cache", "log-signatures of dyadic intervals by context", "streams/include/roughpy/streams/dyadic_caching_layer.h")],
  ["Stream.log_signature", "Stream.signature"])

p("P09", "A restricted stream is the stream inside its support and constant outside",
  "Restricting a stream to an interval gives a stream that answers each query as the original does for the part of the query inside the restriction, and zero for the rest; again under further restriction to a part of it. The original stream is not changed and reports its own support still.",
  ["inputs", "programs"], "all streams, restrictions (nested, partial, disjoint) and queries",
  "restrict has next to no tests; queries that straddle the support's ends are not covered.",
  ["streams/src/stream.cpp", "streams/src/restriction_stream.cpp", "streams/include/roughpy/streams/stream.h"],
  [("Stream::restrict_to", "streams/src/stream.cpp")], [("m_support", "support of the stream view", "streams/include/roughpy/streams/stream.h")])

p("P10", "Piecewise abelian streams interpolate their pieces; simplification is exact",
  "A stream built from log-signatures on disjoint intervals answers a query by the ordered product of the pieces that meet the query, each scaled by the fraction of its interval inside the query. Simplifying any stream on a partition gives such a stream whose signature over each union of pieces of the partition is that of the original.",
  ["inputs"], "all lists of pieces with gaps or without, queries inside, across and outside pieces, all partitions",
  "Tests have one or two pieces and query whole pieces.",
  ["streams/src/piecewise_abelian_stream.cpp", "streams/src/stream.cpp"],
  [("PiecewiseAbelianStream::log_signature_impl", "streams/src/piecewise_abelian_stream.cpp"), ("Stream::simplify", "streams/src/stream.cpp")])

p("P11", "Tick data becomes exactly the increments and values it describes",
  "A tick stream built from any tick data (increments, values with or without lead-lag, categorical events, with or without time) has as log-signature over an interval the ordered product of the increments its ticks describe: an increment its amount, a value the difference to the channel's last value, a categorical event one unit of its variant, time the elapsed time. Ticks at one time keep their order, and no tick is lost, doubled or put in another channel.",
  ["inputs"], "all schemas and tick sequences (any order of channels, times and types)",
  "Tests use two or three ticks; coincident ticks, interleaved channels and lead-lag bookkeeping depend on sequences.",
  ["streams/src/tick_stream.cpp", "streams/src/stream_construction_helper.cpp", "roughpy/src/streams/tick_stream.cpp", "roughpy/src/streams/r_py_tick_construction_helper.cpp"],
  [("StreamConstructionHelper", "streams/src/stream_construction_helper.cpp"), ("TickStream constructor", "streams/src/tick_stream.cpp")])

p("P12", "Schemas map channel labels to disjoint consecutive dimensions and back",
  "Every channel of a schema owns consecutive stream dimensions according to its type (one for increments and values, two for lead-lag values, one per variant for categorical channels), after those of the channels before it; the dimensions of all channels are disjoint and cover the schema's width exactly, time last when included. Lookups by label, index, variant and dimension are mutually inverse, and unknown labels are refused.",
  ["inputs", "programs"], "all sequences of schema construction (channel types, number of variants, insertion of variants later)",
  "Tests use schemas of up to three channels.",
  ["streams/src/schema.cpp", "streams/include/roughpy/streams/schema.h"],
  [("StreamSchema", "streams/src/schema.cpp")])

p("P13", "Free tensors form the truncated free algebra for every storage and scalar type",
  "Sums, differences, negations, scalar products and quotients, products and commutators of free tensors are those of the truncated tensor algebra over their scalars: exactly for rational and polynomial coefficients and to rounding for floats, for dense and sparse elements and any mix of them. A coefficient read by key, by iteration or through an array is the coefficient of that word.",
  ["inputs", "programs"], "all programs of operations on tensors of every width, depth, degree, storage and scalar type",
  "Tests multiply a few small floats; mixes of storages, lower stored degrees, cancellations and chains are not reached.",
  ["vendored/libalgebra_lite/free_tensor.h", "vendored/libalgebra_lite/dense_vector.h", "vendored/libalgebra_lite/sparse_vector.h", "algebra/include/roughpy/algebra/algebra_base.h", "roughpy/src/algebra/free_tensor.cpp"],
  [("free_tensor_multiplier", "vendored/libalgebra_lite/free_tensor.h"), ("AlgebraBase operators", "algebra/include/roughpy/algebra/algebra_base_impl.h")])

p("P14", "Shuffle products, half-shuffles and adjoints obey their defining identities",
  "The shuffle product of shuffle tensors is the sum over all interleavings of words, the half-shuffle the part that starts with the left word's first letter, and the pairing of a shuffle tensor with a free tensor the sum of products of coefficients. The adjoint of left multiplication is its transpose under that pairing, and products given to the named multiplication functions are the same whatever the type of the operands.",
  ["inputs", "programs"], "all operands of every width, depth, degree, storage and scalar type",
  "Tests check single words and one random example.",
  ["vendored/libalgebra_lite/shuffle_tensor.h", "algebra/src/shuffle_tensor.cpp", "roughpy/src/algebra/free_multiply_funcs.cpp", "algebra/src/lite_context.cpp"],
  [("shuffle multiplication tables", "vendored/libalgebra_lite/shuffle_tensor.h"), ("adjoint_to_free_multiply", "algebra/src/free_tensor.cpp")])

p("P15", "Exponential, logarithm, inverse and antipode of tensors agree with their series",
  "exp, log, inverse and antipode give the truncated series (antipode: reversed words with sign), fused multiply-exponential equals the product with the exponential in place and as a value, and the resulting identities hold: exp and log are mutually inverse, and the inverse or antipode of a group-like element is its two-sided inverse. This holds for every storage and scalar type and operand degree.",
  ["inputs", "programs"], "all operands (including constant terms where defined), widths, depths, storages and scalar types",
  "Tests exponentiate single letters or small random tensors in floats.",
  ["vendored/libalgebra_lite/free_tensor.h", "algebra/include/roughpy/algebra/implementors", "roughpy/src/algebra/free_tensor.cpp"],
  [("exp, log, inverse, antipode, fmexp", "vendored/libalgebra_lite/free_tensor.h")])

p("P16", "Lie elements form the free nilpotent Lie algebra and embed in the tensors",
  "The bracket of Lie elements is bilinear, antisymmetric and satisfies Jacobi, with values given by the commutator of the embedded tensors; converting Lie to tensor is injective and converting back inverts it. The Campbell-Baker-Hausdorff product of any list of Lie elements is the logarithm of the product of their exponentials.",
  ["inputs", "programs"], "all Lie elements of every width, depth, storage and scalar type; lists of any length",
  "Tests bracket a few letters; Hall-basis rewriting matters from degree four on.",
  ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/hall_set.h", "vendored/libalgebra_lite/maps.h", "algebra/src/lite_context.cpp"],
  [("lie_multiplier", "vendored/libalgebra_lite/lie.h"), ("maps", "vendored/libalgebra_lite/maps.h"), ("LiteContext::cbh", "algebra/src/lite_context.h")])

p("P17", "Bases number their keys without gap or overlap, in order of degree",
  "For every width and depth the keys of the tensor and Lie bases up to the depth correspond one to one to the indices below the size, in increasing degree, and conversions index to key, key to index, to letters and from letters, to parents, to string and back are mutually inverse; the product of word keys is the concatenated word. The sizes by degree are those of words and of the free Lie algebra (Witt's formula), and a Hall key's parents precede it and obey the Hall condition.",
  ["inputs", "configurations"], "all widths and depths, all keys",
  "Tests check one or two bases and a handful of keys.",
  ["algebra/src/tensor_basis.cpp", "algebra/src/lie_basis.cpp", "algebra/src/hall_set_size.cpp", "vendored/libalgebra_lite/hall_set.h", "vendored/libalgebra_lite/tensor_basis.h", "roughpy/src/algebra/tensor_key.cpp", "roughpy/src/algebra/lie_key.cpp"],
  [("hall_set", "vendored/libalgebra_lite/maps.cpp"), ("TensorBasis, LieBasis", "algebra/src/tensor_basis.cpp")])

p("P18", "Algebra elements are values: in-place operations change only their target",
  "Every in-place operation gives its target the value of the corresponding expression, whatever aliases are among its operands and whatever storage they have, and changes no other element; copies, views of coefficients and results are independent of their sources. An element behaves the same in dense and in sparse storage.",
  ["programs"], "all programs of in-place and aliasing operations on free tensors, shuffle tensors and Lie elements",
  "Tests apply each in-place operation once to fresh dense operands.",
  ["algebra/include/roughpy/algebra/algebra_base.h", "algebra/include/roughpy/algebra/implementors", "roughpy/src/algebra/setup_algebra_type.h", "vendored/libalgebra_lite/vector.h"],
  [("AlgebraBase in-place operators", "algebra/include/roughpy/algebra/algebra_base_impl.h"), ("AlgebraImplementation", "algebra/include/roughpy/algebra/implementors")])

p("P19", "Scalars and polynomials compute exactly and convert faithfully",
  "Addition, subtraction, multiplication, division, negation, comparison, assignment and conversion of scalars of any pair of types (signed and unsigned integers, half, bfloat16, float, double, rational, polynomial, and the zero without a type), also in place and on zero values, give the exact value when the operands and result are exactly represented in the type of the result, and the correctly rounded one for floats; copies are independent; serialised scalars reload equal. Converting Python numbers, numpy arrays of every integer and float type (strided or not), buffers, lists, tuples and dicts to coefficients keeps every value the coefficient type can hold, and elements multiply and divide by Python numbers accordingly. Monomials and polynomials form the commutative polynomial ring over the rationals.",
  ["inputs", "programs"], "all programs on scalars, monomials and polynomials, all pairs of types",
  "Tests cover one or two values for each operation.",
  ["scalars/src", "roughpy/src/scalars", "vendored/libalgebra_lite/polynomial.h", "vendored/libalgebra_lite/polynomial_basis.h"],
  [("Scalar", "scalars/src/scalar.cpp"), ("ScalarArray", "scalars/src/scalar_array.cpp"), ("polynomial", "vendored/libalgebra_lite/polynomial.h")])

p("P20", "Objects reload from their serialised form equal and independent",
  "Pickling and unpickling intervals, dyadics, contexts, algebra elements of any storage and scalar type, scalars, schemas and streams gives objects equal to the originals that answer every later operation and query in the same way, and a reloaded stream is unaffected by what happens to the original. Objects that cannot be serialised are refused with an exception.",
  ["inputs", "histories"], "all objects, including empty and zero ones, and queries before and after reloading",
  "Tests pickle one or two default objects of some classes and no stream.",
  ["streams/src", "scalars/src/scalar_serialization.cpp", "algebra/include/roughpy/algebra/algebra_base.h", "roughpy/src/streams/stream.cpp", "platform/include/roughpy/platform/serialization.h"],
  [("RPY_SERIAL_* functions", "platform/include/roughpy/platform/serialization.h")])

p("P21", "Changing context, depth or scalar type truncates and converts without loss",
  "Asking a stream or a context for an answer in another context of the same width gives the answer of the original cut at the requested depth and converted to the requested scalar type. Contexts are identified by width, depth and scalar type: equal ones are interchangeable, and elements created in one keep its width, depth and type in every result.",
  ["inputs", "configurations"], "all pairs of contexts with the same width, all elements and queries",
  "Tests use a single context throughout.",
  ["algebra/src/context.cpp", "algebra/src/lite_context.h", "streams/src/stream.cpp"],
  [("Context::get_alike, convert", "algebra/src/context.cpp"), ("LiteContext::convert", "algebra/src/lite_context.h")])

p("P22", "Function and tensor-valued streams answer with their function or base stream",
  "A stream given by a function of intervals answers a query with the ordered product of the function's values on dyadic cells that tile the query rounded to its resolution, in time order and evaluated at the query's resolution or finer; so an additive function gives its total over the rounded interval whatever was asked before. An exception raised by the function reaches the caller and leaves the stream usable. A tensor-valued stream has its initial value at the start of its domain and, at a later time, that value times the signature of its base stream up to then (at the stream's resolution); its signature over an interval is that of the base stream, and querying it over an interval gives a tensor-valued stream on the common part of the domains that starts with the value it has there.",
  ["inputs", "histories"], "all functions and all sequences of queries, all base streams and initial values",
  "Tests use one polynomial function and one tensor-valued stream.",
  ["roughpy/src/streams/function_stream.cpp", "roughpy/src/streams/tensor_valued_stream.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/src/tensor_valued_stream.cpp", "streams/src/dyadic_caching_layer.cpp"],
  [("FunctionStream", "roughpy/src/streams/function_stream.cpp"), ("DynamicallyConstructedStream", "streams/src/dynamically_constructed_stream.cpp"), ("TensorValuedStream", "roughpy/src/streams/tensor_valued_stream.cpp")])

p("P23", "Signature derivatives are the derivatives of the signature",
  "The derivative of a stream's signature over an interval in the direction of a Lie perturbation is the exact derivative at zero of exp(log-signature + h perturbation): linear in the perturbation, also where the two do not commute. For a list of intervals with perturbations it is accumulated from the left: the derivative so far is multiplied on the right by the signature over the next interval, and the derivative over that interval is added.",
  ["inputs"], "all lists of consecutive intervals, streams and perturbations, widths, depths and exact scalars",
  "There is no test of the derivative's value for non-commuting data.",
  ["streams/src/stream.cpp", "algebra/src/lite_context.h", "roughpy/src/streams/stream.cpp"],
  [("LiteContext::sig_derivative", "algebra/src/lite_context.h"), ("Stream::signature_derivative", "streams/src/stream.cpp")])

p("P24", "A Brownian stream is one fixed path",
  "There is a single path that gives all answers of a Brownian stream: its increments over adjacent intervals add up, signatures at one resolution multiply, and asking again gives the same answer, whatever was asked before, in any order, on restrictions, at any resolution or from other threads. Two streams with the same generator and seed answer the same questions in the same way, and so do a stream and its reloaded copy.",
  ["histories", "inputs", "schedules"], "all seeds and generators, and all sequences of queries",
  "Tests check a fixed seed and a handful of queries inside one unit interval.",
  ["streams/src/brownian_stream.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/include/roughpy/streams/brownian_stream.h", "scalars/src/random"],
  [("DynamicallyConstructedStream", "streams/src/dynamically_constructed_stream.cpp"), ("BrownianStream", "streams/src/brownian_stream.cpp")],
  [("m_data_tree", "increments of dyadic cells drawn so far", "streams/include/roughpy/streams/dynamically_constructed_stream.h")])

p("P25", "Dense kernels compute exact tensor operations on views, writing nothing else",
  "The header-only dense kernels (fused and in-place free product, antipode, adjoint of left multiplication, shuffle product and its adjoint, exp, log, fused multiply-exponential, vector operations, sparse linear maps) give their output view the coefficients of the exact operation on the elements their argument views denote, whatever the width, depths, degree ranges and strides of the views (shuffle kernels: of views of one depth; vector kernels: of views that start at degree zero) and with the operator given. Coefficients outside the degrees of the output view and all other memory are left as they were.",
  ["inputs"], "all widths, depths, degree ranges, strides, operators, sparse patterns and coefficients",
  "The kernels' unit tests use one full view each, are not built with the package, and cover neither truncated or strided views nor the series.",
  ["roughpy_compute/dense/basic/free_tensor_fma.hpp", "roughpy_compute/dense/basic/free_tensor_inplace_mul.hpp", "roughpy_compute/dense/basic/free_tensor_antipode.hpp", "roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp", "roughpy_compute/dense/basic/shuffle_tensor_product.hpp", "roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp", "roughpy_compute/dense/basic/apply_sparse_linear_map.hpp", "roughpy_compute/common/sparse_matrix.hpp", "roughpy_compute/dense/views.hpp"],
  [("DenseTensorView", "roughpy_compute/dense/views.hpp"), ("CompressedMatrix", "roughpy_compute/common/sparse_matrix.hpp")],
  [("out", "memory of the output view", "roughpy_compute/dense/views.hpp")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
