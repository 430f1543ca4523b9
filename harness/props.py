"""What is checked for each property (see DESIGN.md)."""


def size(c, quick, thorough):
    return quick if c.quick else thorough


def alg(mode, quick, thorough):
    def f(c):
        c.conform("drv_alg", mode, size(c, quick, thorough), "AlgTrace")
    return f


def iv(c, subs, quick, thorough):
    """subs: the kinds of programs, on the C++ and on the Python classes"""
    env = {"IVDRV": c.cxx_driver("ivdrv", ["Intervals", "Platform"])}
    n = size(c, quick, thorough)
    for sub in subs:
        c.conform("drv_iv", "cxx/" + sub, n, "IntervalTrace", env=env)
        c.conform("drv_iv", "py/" + sub, n // 2, "IntervalTrace", env=env)


def iv_all(c, kind, what):
    """every case of a small scope, in the model and on the real classes"""
    path, n = c.histories("IntervalMC", what=what, env={"KIND": kind, "LIM": size(c, "2", "4")},
                          limit=size(c, 4000, None))
    env = {"IVDRV": c.cxx_driver("ivdrv", ["Intervals", "Platform"])}
    c.conform("drv_iv", "cxx/file:" + path, n, "IntervalTrace", env=env, what="all cases of the model")
    c.conform("drv_iv", "py/file:" + path, n, "IntervalTrace", env=env, what="all cases of the model")


def P01(c):
    iv_all(c, "dissect", "the dissection specified tiles and is canonical")
    iv(c, ["dissect"], 1500, 30000)


def P02(c):
    iv_all(c, "cell", "cells, halves, containment and order of cells agree with their points")
    iv(c, ["dyadic", "cells"], 500, 8000)


def P03(c):
    iv_all(c, "pair", "predicates agree with sets of points")
    iv(c, ["pred"], 800, 12000)


def P04(c):
    c.model_check("IntervalMC", what="merging is a join of partitions", env={"KIND": "pair", "LIM": "2", "EMIT": "0"})
    iv(c, ["partition"], 800, 12000)


def P05(c):
    iv_all(c, "segment", "the segments specified are the maximal runs")
    iv(c, ["segment"], 800, 12000)


def P12(c):
    env = {"SCHDRV": c.cxx_driver("schdrv", ["Streams", "Algebra", "Scalars", "Intervals", "Platform"])}
    path, n = c.histories("SchemaMC", what="all histories of a schema", env={"MAXLEN": size(c, "4", "5")})
    c.conform("drv_schema", "file:" + path, n, "SchemaTrace", env=env, what="all histories of the model")
    c.conform("drv_schema", "cxx", size(c, 1500, 20000), "SchemaTrace", env=env)
    c.conform("drv_schema", "py", size(c, 1500, 20000), "SchemaTrace", env=env)


def laws(c):
    c.model_check("AlgLaws", what="the algebras as specified obey their laws", env={"FULL": size(c, "0", "1")})


def P13(c):
    laws(c)
    alg("ring", 900, 12000)(c)


def P14(c):
    laws(c)
    alg("shuffle", 400, 6000)(c)


def P15(c):
    laws(c)
    alg("explog", 700, 6000)(c)


def P16(c):
    laws(c)
    alg("lie", 700, 6000)(c)


def P17(c):
    c.model_check("BasesMC", what="Hall sets, word indices and counts have their properties")
    for mode, q, t in (("tensor", 1500, 15000), ("lie", 1200, 12000), ("sizes", 500, 3000)):
        c.conform("drv_basis", mode, size(c, q, t), "BasesTrace")


def P18(c):
    alg("inplace", 900, 9000)(c)


def stream(c, *modes):
    """modes: (mode, quick, thorough)"""
    for mode, quick, thorough in modes:
        c.conform("drv_stream", mode, size(c, quick, thorough), "StreamTrace")


def P06(c):
    stream(c, ("chen", 600, 8000))


def P07(c):
    stream(c, ("query", 600, 8000))


def P08(c):
    for flaw in "ctx", "ids", "alias", "fine", "order":
        c.refuted("StreamMC", "Answers|Caches", env={"MAXLEN": "3", "EMIT": "0", "FLAW": flaw})
    path, n = c.histories("StreamMC", what="caching answers as module Streams does, over all histories",
                          env={"MAXLEN": size(c, "3", "4"), "FLAW": ""}, limit=size(c, 3000, 60000))
    c.conform("drv_stream", "file:" + path, n, "StreamTrace", what="histories of the model")
    stream(c, ("hist", 400, 5000), ("conc", 300, 3000))


def P09(c):
    stream(c, ("restrict", 600, 8000))


def P10(c):
    stream(c, ("pw", 600, 8000))


def P11(c):
    stream(c, ("tick", 900, 10000))


def P19(c):
    c.model_check("PolyLaws", what="polynomials as specified form a commutative ring; evaluation is a homomorphism")
    path, n = c.histories("PolyMC", what="all programs over two variables", env={"MAXLEN": size(c, "3", "4")},
                          limit=size(c, None, 60000))
    c.conform("drv_poly", "file:" + path, n, "PolyTrace", what="all programs of the model")
    c.conform("drv_poly", "poly", size(c, 3000, 40000), "PolyTrace")
    c.conform("drv_alg", "poly", size(c, 700, 8000), "AlgTrace")
    env = {"SCLDRV": c.cxx_driver("scldrv", ["Scalars", "Platform", "lal", "gmp"])}
    for mode in "ring", "conv", "ref", "ser":
        c.conform("drv_scalar", mode, size(c, 600, 12000), "ScalarTrace", env=env)
    c.conform("drv_pyconv", "py", size(c, 800, 12000), "ScalarTrace")


def P20(c):
    stream(c, ("pickle", 600, 8000))
    for mode in "ring", "explog", "lie", "shuffle", "inplace":
        c.conform("drv_alg", "re:" + mode, size(c, 150, 3000), "AlgTrace")
    for mode in "dyadic", "cells", "partition", "pred", "dissect":
        c.conform("drv_iv", "pk/" + mode, size(c, 150, 3000), "IntervalTrace")
    env = {"SCLDRV": c.cxx_driver("scldrv", ["Scalars", "Platform", "lal", "gmp"])}
    c.conform("drv_scalar", "ser", size(c, 600, 12000), "ScalarTrace", env=env)


def P21(c):
    stream(c, ("ctx", 600, 8000))


def P22(c):
    stream(c, ("fn", 500, 8000), ("tv", 500, 8000))


def P24(c):
    env = {"BRDRV": c.cxx_driver("brdrv", ["Streams", "Algebra", "Scalars", "Intervals", "Platform"])}
    for mode, q, t in (("path", 900, 12000), ("seed", 600, 8000), ("conc", 300, 3000)):
        c.conform("drv_brown", mode, size(c, q, t), "PathTrace", env=env)


def P25(c):
    laws(c)
    env = {"KERNDRV": c.cxx_driver("kerndrv", [])}
    for mode, q, t in (("free", 2000, 30000), ("shuffle", 400, 6000), ("series", 1000, 12000), ("vector", 1000, 10000),
                       ("sparse", 1000, 10000)):
        c.conform("drv_kern", mode, size(c, q, t), "KernelTrace", env=env)


def P23(c):
    stream(c, ("deriv", 500, 6000))


PROPS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "P" and k[1:].isdigit()}
