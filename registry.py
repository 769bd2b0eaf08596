"""What each check is made of."""

CORE = ["core/*.cc", "!core/stopwatch.cc"]

CONC_ASSUMPTIONS = [
    "Scheduling points are the synchronisation operations (mutex, condition variable, atomic, thread creation and join, once, futex, sleep); unsynchronised accesses are not interleaved but reported by a happens-before race detector in every explored execution",
    "Memory is sequentially consistent apart from what the declared memory orders fail to order, which the race detector sees",
    "A timed wait times out when nothing else can run, and, as a deviation, at any earlier point; a condition wait wakes spuriously at most once per execution",
    "Lazily initialised statics are initialised by a warm-up execution",
]

ALGORITHM = CORE + ["algorithm/core/*.cc", "algorithm/policy/*.cc", "feature/core/array.cc"]

SEQ_ASSUMPTIONS = ["The spaces enumerated are those of the suites named in the coverage, completely; larger inputs are not run",
                   "The reference model in the harness says what is right"]


def seq(harness, rule, sources=ALGORITHM, **kw):
    d = dict(kind="seq", harness=[harness] if isinstance(harness, str) else harness, sources=sources, level="exploration",
             rule=rule, assumptions=SEQ_ASSUMPTIONS)
    d.update(kw)
    return d


def generated_parsers(*names):
    """Parsers generated from schemas: (name relative to source/fern, further arguments)."""
    def generate(check, out):
        import os
        sources = []
        for name, args in names:
            d = os.path.join(out, "fern", os.path.dirname(name))
            os.makedirs(d, exist_ok=True)
            src = os.path.join(check.REPO, "source/fern", name + ".map.in")
            check.write_if_changed(os.path.join(out, "fern", name + ".map"), open(src).read())
            check.xsd_generate(out, name, ["cxx-parser", "--std", "c++11", "--xml-parser", "expat",
                                           "--type-map", os.path.join(out, "fern", name + ".map")] + args)
            sources.append(os.path.join(out, "fern", name + "-pskel.cxx"))
        return sources
    return generate


IO_NETCDF = CORE + ["feature/core/array.cc", "io/core/*.cc", "io/gdal/*.cc", "io/netcdf/core/*.cc", "io/netcdf/coards/*.cc"]
IO_RASTER = CORE + ["feature/core/array.cc", "io/core/*.cc", "io/gdal/*.cc"]

def xml_documents(check, out):
    """Trees of GPX documents, and the parser of distributions."""
    import os
    sources = []
    for v in ("0", "1"):
        check.xsd_generate(out, "io/gpx/gpx-1." + v, ["cxx-tree", "--std", "c++11", "--namespace-map", "http://www.topografix.com/GPX/1/%s=gpx_1_%s" % (v, v)])
        sources.append(os.path.join(out, "fern/io/gpx/gpx-1." + v + ".cxx"))
    return sources + generated_parsers(("language/io/uncertml2/uncertml2", ["--namespace-map", "http://www.uncertml.org/2.0=uncertml2", "--generate-polymorphic"]))(check, out)


SCRIPT = CORE + ["language/ast/core/*.cc", "language/ast/visitor/*.cc", "language/ast/xml/*.cc", "language/operation/core/*.cc", "language/core/*.cc", "language/feature/visitor/*.cc", "language/feature/core/*.cc"]
SYNTAX_TREE = generated_parsers(("language/ast/xml/syntax_tree", ["--namespace-map", "http://www.geoneric.eu/fern=fern::language"]))


def script(rule, harness="script.cc", sources=(), **kw):
    return seq(harness, rule, sources=SCRIPT + list(sources), generate=SYNTAX_TREE, libs=["-lexpat"], **kw)


FEATURES = CORE + ["language/feature/core/*.cc", "language/feature/visitor/*.cc", "feature/core/array.cc"]

CHECKS = {
    "C01": dict(kind="conc", harness=["pool.cc"], sources=CORE, level="model_checking", assumptions=CONC_ASSUMPTIONS,
                seconds={"quick": 40, "thorough": 1200}),
    "C02": dict(kind="conc", harness=["pool.cc"], sources=CORE, level="model_checking", assumptions=CONC_ASSUMPTIONS,
                seconds={"quick": 40, "thorough": 1200}),
    "C03": dict(kind="conc", harness=["pool.cc"], sources=CORE, level="model_checking", assumptions=CONC_ASSUMPTIONS,
                seconds={"quick": 40, "thorough": 1200}),

    "C04": seq("blocks.cc", "distinct (number of threads, size of the array)"),
    "C05": dict(kind="conc", harness=["parallel_local.cc", "parallel_core.cc", "parallel_aggregate.cc", "parallel_focal.cc"], sources=ALGORITHM, level="model_checking", assumptions=CONC_ASSUMPTIONS,
                seconds={"quick": 20, "thorough": 300}, opt=["-O1"]),
    "C06": seq(["elementwise_unary.cc", "elementwise_arithmetic.cc", "elementwise_logic.cc", "elementwise_custom.cc"], "distinct (operation, ranks, shape, values, no-data patterns)", select=["C06"]),
    "C07": seq(["arithmetic_add.cc", "arithmetic_subtract.cc", "arithmetic_multiply.cc", "arithmetic_divide.cc", "arithmetic_unary.cc"], "distinct (operation, types, first argument), each with all values of the second argument", opt=["-O2"]),
    "C08": seq(["elementwise_unary.cc", "elementwise_arithmetic.cc"], "distinct (operation, types, first argument), each with all values of the second argument", select=["C08"]),
    "C09": seq(["elementwise_logic.cc", "elementwise_main.cc"], "distinct (operation, types, first argument), each with all values of the second argument", select=["C09"]),
    "C10": seq("statistic.cc", "distinct (value type, shape, values, no-data pattern)"),
    "C11": seq("statistic.cc", "distinct (types, list of values), each split and merged in every way"),
    "C12": seq(["convolution.cc", "convolution_3x3.cc", "convolution_large.cc", "convolution_parallel.cc"], "distinct (image shape, no-data pattern), each with all kernels and policies"),
    "C13": seq("focal.cc", "distinct (raster shape, contents, no-data pattern)"),
    "C14": seq("focal.cc", "distinct (raster shape, contents, no-data pattern)"),
    "C15": seq("selection.cc", "distinct (shape, no-data pattern) compressed and decompressed"),
    "C16": seq("selection.cc", "distinct (shape, offset, no-data pattern)"),
    "C17": seq("selection.cc", "distinct (ranks, shape, contents of the arguments)"),
    "C18": seq("elementwise_unary.cc", "distinct (types, value)", select=["C18"]),
    "C19": seq("selection.cc", "distinct (shape, no-data patterns, ranges)"),
    "C20": seq("containers.cc", "distinct (collection, shape) or final (values, mask) reached", sources=CORE + ["feature/core/array.cc"]),
    "C21": seq(["no_data.cc", "no_data_one.cc", "no_data_two.cc", "no_data_focal.cc"], "distinct (shape, no-data patterns of the arguments), values, and sets of elements marked", opt=["-O0"]),
    "C22": seq("text.cc", "distinct strings", sources=CORE),
    "C23": seq("text.cc", "distinct paths and data names", sources=CORE),
    "C24": seq("tables.cc", "distinct contents of the container reached", sources=CORE),
    "C25": seq("types.cc", "distinct sets and lists of types", sources=CORE + ["language/operation/core/expression_types.cc"]),
    "C26": seq("tables.cc", "distinct histories of scope exits", sources=CORE),
    "C27": script("distinct scripts, written as XML in two styles and parsed; documents spoiled in every way of the suites"),
    "C28": script("distinct scripts in which a name is defined and used"),
    "C29": script("distinct scripts, each with all outcomes of its conditions"),
    "C30": script("distinct scripts annotated and validated", harness="typing.cc"),
    "C31": script("distinct scripts that define a name"),
    "C32": seq("io_raster.cc", "distinct (value type, shape, contents, no-data value) written and read", sources=IO_RASTER, flags=["-I/usr/include/gdal"], libs=["-lgdal"]),
    "C33": seq("io_netcdf.cc", "distinct histories of handles, and of reads that succeed or fail", sources=IO_NETCDF, flags=["-I/usr/include/gdal"], libs=["-lgdal", "-lnetcdf"]),
    "C34": seq("io_netcdf.cc", "distinct datasets (attributes, variables, value) written and queried", sources=IO_NETCDF, flags=["-I/usr/include/gdal"], libs=["-lgdal", "-lnetcdf"]),
    "C35": seq("io_xml.cc", "distinct documents, valid or spoiled", sources=CORE + ["io/core/*.cc", "io/gpx/*.cc", "language/io/uncertml2/*.cc", "language/uncertainty/*.cc"], generate=xml_documents, libs=["-lxerces-c", "-lexpat"]),
    "C37": seq("features.cc", "distinct histories of additions to a feature", sources=FEATURES),
    "C39": seq("errors.cc", "distinct messages and histories of errors", sources=CORE),
    "C40": script("distinct scripts, drawn as tree and as flow graph", harness="dot.cc"),
    # The interpreter is not part of the build.
    "C41": script("distinct scripts and sessions", harness="execute.cc",
                  sources=["language/interpreter/execute_visitor.cc", "language/interpreter/data_source.cc"]),
    "C42": seq("io_fern.cc", "distinct histories of writes, handles and clients, values and files", sources=FEATURES + ["language/io/drivers.cc", "language/io/core/*.cc", "language/io/fern/*.cc"], flags=["-I/usr/include/hdf5/serial"], libs=["-lhdf5_serial"]),
    "C38": seq("features.cc", "distinct histories of additions to attributes, and of visits", sources=FEATURES),
    "C36": script("distinct scripts written as text and read back", harness="module_text.cc"),
}

NOT_APPLICABLE = {}

TECHNIQUE = {
    "conc": "stateless model checking of the real code: exhaustive schedule exploration under a controlled scheduler, iterated deviation bound",
    "seq": "exhaustive enumeration of a bounded input and operation space on the real code against a reference model",
}

NOTE = {
    "conc": "Every schedule of the listed scenarios within the reported deviation bound was executed on the real code, with a happens-before race detector on; nothing is claimed about larger scenarios or more deviations. Trusts the scheduler runtime in engine/.",
    "seq": "Every case of the bounded space was executed on the real code and compared with the reference model; nothing is claimed outside of the bounds. Trusts the reference model in the harness.",
}
