"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts TLC, the drivers that record executions, and the bridge of exact rationals to java.math; sampling of "
         "programs is pseudo-random and bounded in size.")
CLAIM = {}


def claim(pid, note, technique="TLA+ specification; TLC checks the model and every recorded execution of the real code against it"):
    CLAIM[pid] = {"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                  "technique": technique, "level": "model_checking", "level_note": note + " " + TRUST}


claim("P01", "TLC checks that the specified dissection tiles and is canonical in all cases of a small scope (IntervalMC.tla), which are replayed on the C++ and Python classes; recorded dissections by the C++ and the Python classes are compared exactly with the specified dissection (Intervals.tla).")
claim("P02", "TLC checks the cells of a small scope against their points (IntervalMC.tla) and the cases are replayed; random programs on Dyadic/DyadicInterval (C++ incl. opencl, Python) are behaviours of the register machine of IntervalTrace.tla, all values exact.")
claim("P03", "TLC checks the predicates against sets of points over all small pairs (IntervalMC.tla), replayed on all classes; predicates on random, touching and nested intervals of all classes are compared with the point-set definitions in Intervals.tla.")
claim("P04", "TLC checks the laws of merging (IntervalMC.tla); random programs of partitions are behaviours of IntervalTrace.tla; points on dyadic grids so that all arithmetic is exact.")
claim("P05", "TLC checks that the specified segments are the maximal runs over all small predicates (IntervalMC.tla), replayed in C++ and Python; answers of segment() in C++ and Python equal the maximal runs of good cells computed in Intervals.tla; clopen intervals only.")
claim("P13", "TLC checks the laws of the algebra as specified (AlgLaws.tla); random programs of ring operations on free tensors are behaviours of AlgTrace.tla with exact rational/polynomial coefficients; floats to a relative tolerance.")
claim("P14", "TLC checks the laws of the algebra as specified (AlgLaws.tla); random programs of shuffle operations, pairings and adjoints are behaviours of AlgTrace.tla.")
claim("P15", "TLC checks the laws of the algebra as specified (AlgLaws.tla); random programs of exp/log/inverse/antipode/fmexp are behaviours of AlgTrace.tla.")
claim("P16", "TLC checks the laws of the algebra as specified (AlgLaws.tla); random programs of Lie operations, conversions and CBH are behaviours of AlgTrace.tla (Hall.tla for the basis).")
claim("P18", "Random programs of in-place, aliasing and copying operations are behaviours of AlgTrace.tla; all registers are observed after each step.")
claim("P17", "TLC checks the Hall sets, word numbering and counting formulas themselves (BasesMC.tla); random questions to the real bases, keys and key iterators are answered as BasesTrace.tla says, whole bases included.")
claim("P19", "TLC checks the ring laws (PolyLaws.tla) and all short programs over aliased variables (PolyMC.tla), which are replayed on the real classes; random programs on monomials and polynomials are behaviours of PolyTrace.tla, programs on tensors and Lie elements with polynomial coefficients of AlgTrace.tla; programs of the C++ Scalar and ScalarArray over all pairs of types, and conversions of Python data, of the typed register machine ScalarTrace.tla (Scalars.tla).")
S = "are behaviours of the register machine of StreamTrace.tla over Streams.tla, with exact rational coefficients (doubles to 8 digits); values and types of all answers are compared. "
claim("P06", "Recorded programs multiplying answers over adjacent intervals of increment, tick and piecewise streams " + S)
claim("P07", "Recorded queries of increment and piecewise streams " + S)
claim("P08", "TLC refines the design of caching streams (StreamMC.tla) against module Streams over all short histories and refutes five mistaken designs; the histories are replayed on real streams; recorded histories (queries, restrictions, copies, answers changed in place) and threads asking at the same time " + S)
claim("P09", "Recorded restrictions of restrictions and their queries " + S)
claim("P10", "Recorded piecewise streams and simplifications " + S)
claim("P11", "Recorded tick streams of random schemas, forms and histories of ticks " + S)
claim("P12", "Every history of SchemaMC.tla up to length 3 (quick) / longer (thorough) is replayed on the C++ class; random C++ and Python histories are behaviours of SchemaTrace.tla.")
claim("P20", "Recorded programs in which values of the interval, algebra and scalar classes are reloaded at every step are behaviours of the same machines as without reloading; recorded pickled copies of streams and queries of both " + S)
claim("P21", "Recorded queries with depths, contexts and scalar types other than the stream's " + S)
claim("P23", "Recorded derivatives with up to several perturbations " + S)

claim("P22", "Recorded queries of function streams (polynomials with jumps, callbacks that fail) and tensor valued streams " + S)
claim("P24", "For every recorded history of queries to a Brownian stream there must be a path that gives all its answers: PathTrace.tla has the path as hidden variable, as islands of known increments; reloaded copies, streams from one seed (C++) and concurrent queries included. Area terms are compared only when all queries have one resolution.")
claim("P25", "Recorded calls of the kernels with an exact rational scalar (C++ driver including the headers of the working tree) are compared with Kernels.tla: result, untouched degrees, guards around and gaps within all views; the algebra they refer to is checked by AlgLaws.tla.")
NA = {}
ALL = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
for pid in ALL:
    if pid not in CLAIM:
        NA.setdefault(pid, "check not built yet")

M = {"version": 1, "setup_cmd": "bin/setup", "checks": [CLAIM[k] for k in sorted(CLAIM)],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
