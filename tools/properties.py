"""Writes properties.jsonl (one place to edit the statements)"""

import json
import os

S = "src/qp/"
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=[S + f for f in files],
                mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
                state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "Each representation evaluates the distribution its data define",
    "For every representation (histogram, interpolated grid, irregular grid, Gaussian mixture, quantiles, splines, packed grid, sparse code) and all valid data, the pdf, cdf and ppf of each PDF are the documented functions of that PDF's data: normalised to one, zero outside the support (cdf 0 and 1 there), right on, next to and between the nodes, for uneven spacings and any scale and offset of the x axis. Not-a-number arguments and quantile levels outside [0, 1] give not-a-number.",
    ["inputs", "configurations"],
    "all data sets over small alphabets of widths, values, components, codes, scales, offsets and number types, at all distinguishable positions of the argument",
    "The tests build one data set per class (10-11 PDFs, mostly evenly spaced, smooth Gaussians) and check loose properties on one grid; uneven, zero, coarse, shifted or single-precision data and the node positions are never compared with an independent definition.",
    ["hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "spline_pdf.py", "packed_interp_pdf.py", "sparse_pdf.py", "utils.py"],
    [("histogram pdf/cdf/ppf", "hist_pdf.py:hist_gen"), ("interpolated grids", "interp_pdf.py:interp_gen, interp_irregular_gen"), ("mixtures", "mixmod_pdf.py:mixmod_gen"), ("row-wise interpolation and bin search", "utils.py:evaluate_hist_x_multi_y, interpolate_x_multi_y, get_bin_indices, normalize_*")],
    ["Ensemble.pdf", "Ensemble.cdf", "Ensemble.ppf"],
)
prop(
    "C02",
    "pdf, cdf, ppf, sf, logs, intervals and integrals describe one distribution",
    "For every representation, PDF and argument: the cdf is non-decreasing from 0 to 1 with the pdf as its slope, the ppf is its inverse, and sf, isf, log-pdf, log-cdf, log-sf, median, interval, integrate, histogramize and support agree with pdf, cdf and ppf as their definitions say. Histograms and interpolated grids have the ends of their grid as support. (Representations that interpolate the cdf of a grid or of quantiles state slope and inverse at their nodes; the density of a quantile ensemble is the reconstruction it names.)",
    ["inputs", "configurations"],
    "all representations x numbers of PDFs x all arguments from a set that holds every kind of point x all pairs of integration limits",
    "The tests compare cdf(ppf) on one smooth ensemble per class with a tolerance of up to 0.1 and call most derived functions only once or never.",
    ["ensemble.py", "pdf_gen.py", "hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "spline_pdf.py"],
    [("derived evaluations", "ensemble.py:Ensemble.sf … Ensemble.histogramize"), ("fall back to cdf integration and ppf search of scipy", "pdf_gen.py:Pdf_gen"), ("support per class", "pdf_gen.py:Pdf_gen_wrap")],
    ["Ensemble.cdf", "Ensemble.sf", "Ensemble.isf", "Ensemble.integrate", "Ensemble.interval", "Ensemble.histogramize"],
)
prop(
    "C03",
    "Each PDF's values do not depend on the other PDFs or the query arrangement",
    "Evaluating an ensemble gives, at position (i, j), exactly the value PDF i alone gives for the j-th argument, whatever the order, repetition and number of the arguments, whatever other PDFs or other arguments (also not-a-number or infinite ones) are present, whether the arguments are a scalar, one list for all, or one list per PDF, and at whatever coincidence of number of PDFs, of arguments and of nodes.",
    ["inputs", "histories"],
    "all argument sequences up to length 4 over an alphabet with unsorted, repeated, outside and not-a-number values, for 1-3 PDFs of each representation, all per-PDF argument matrices up to 3x2, all lists of (row, argument) pairs, plus sizes beyond 100 PDFs",
    "The tests evaluate on sorted linspace grids with one number of points; the vectorised evaluation takes one of several cases by comparing shapes and uniqueness, so most cases (unsorted, duplicate, npdf equal to number of points, one point per row) are never run.",
    ["utils.py", "pdf_gen.py", "hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "spline_pdf.py"],
    [("recognition of factorable queries", "utils.py:get_eval_case"), ("four evaluation cases each", "utils.py:evaluate_*, interpolate_*"), ("row index passed through scipy as shape parameter", "pdf_gen.py:Pdf_rows_gen, Pdf_gen.freeze")],
    ["Ensemble.pdf", "Ensemble.cdf", "Ensemble.ppf", "Ensemble.sf", "Ensemble.logpdf"],
)
prop(
    "C04",
    "Parametric ensembles behave exactly as the scipy.stats distributions",
    "For every scipy continuous distribution offered by the package, with parameters per PDF and any location and scale, the ensemble's pdf, cdf, ppf, sf, isf, logarithms, mean, variance, median, interval and support equal those of the scipy distribution with that PDF's parameters; the parameters are the stored object data.",
    ["inputs", "configurations"],
    "all wrapped distributions x parameter values x location/scale x arguments around and outside the support",
    "The tests run norm and a few others with one parameter array; the wrapping is generic and breaks per distribution (supports depending on parameters, one parameter against several, fixed ends).",
    ["scipy_pdfs.py", "pdf_gen.py", "factory.py"],
    [("wrapping of each scipy distribution", "pdf_gen.py:Pdf_gen_wrap"), ("loop over scipy distributions", "scipy_pdfs.py"), ("registration", "factory.py:Factory._build_data_dict/_load_scipy_classes")],
    ["qp.<name>", "Ensemble.pdf", "Ensemble.support"],
)
prop(
    "C05",
    "Selecting PDFs from an ensemble gives exactly those PDFs with their data",
    "Indexing an ensemble by an integer, slice, list or array of positions, or boolean mask gives an ensemble of exactly the selected PDFs in the selected order, with the same values as before, their rows of the ancillary data and the same metadata; selecting from a selection, and selecting after or before writing, converting or gridding, agree. The original is not changed.",
    ["inputs", "histories"],
    "all representations x 1-4 PDFs x every index, slice, permutation, multiset and mask x second selections, with and without ancillary data",
    "The tests select index 0 or a slice with one representation at a time and do not check which rows the ancillary data and the values come from.",
    ["ensemble.py", "dict_utils.py"],
    [("selection", "ensemble.py:Ensemble.__getitem__"), ("slicing of tables", "dict_utils.py:slice_dict"), ("metadata passed back to the constructors", "pdf_gen.py:Pdf_gen.metadata")],
    ["Ensemble.__getitem__", "Ensemble.ancil", "Ensemble.npdf"],
)
prop(
    "C06",
    "Concatenating and appending stacks the PDFs in order, or fails without a change",
    "Concatenating ensembles of one representation with equal metadata, or appending one to another, gives the PDFs of all of them in order with their values and ancillary rows; when the metadata differ in any element, shape or size of value, or the representations or ancillary columns do not fit, an error is raised and none of the ensembles changes. Splitting an ensemble in any way and concatenating the pieces gives the ensemble back.",
    ["inputs", "histories"],
    "all representations x all lists of up to 3 pieces x ancillary combinations x all single differences of metadata, and all compositions of small ensembles",
    "The tests concatenate an ensemble with itself and assert only the number of PDFs; order, values, metadata mismatches and the state after a failure are not looked at.",
    ["factory.py", "ensemble.py", "dict_utils.py"],
    [("stacking", "factory.py:Factory.concatenate, ensemble.py:Ensemble.append"), ("metadata comparison", "dict_utils.py:compare_two_dicts, compare_dicts"), ("column checks", "dict_utils.py:check_keys, concatenate_dicts")],
    ["qp.concatenate", "Ensemble.append"],
)
prop(
    "C07",
    "Answers never depend on the history of an ensemble",
    "After any sequence of evaluations, gridded evaluations, updates of the data, rejected updates, appends, changes of ancillary data and switches of the quantile reconstruction, every answer of an ensemble (values, cached grid values, metadata, tables, ancillary data) is that of a fresh ensemble with the current data. A rejected operation leaves the ensemble as it was.",
    ["histories"],
    "all sequences up to depth 3 (4 in the thorough tier) of the public operations, per representation",
    "The tests call each operation once on a fresh object; the cache of gridded values and the tables built on first use can only be wrong after particular sequences.",
    ["ensemble.py", "pdf_gen.py", "quant_pdf.py"],
    [("grid cache", "ensemble.py:Ensemble.gridded"), ("updates", "ensemble.py:Ensemble.update, update_objdata, append"), ("lazily built tables", "hist_pdf.py, interp_pdf.py, mixmod_pdf.py, packed_interp_pdf.py")],
    ["Ensemble.gridded", "Ensemble.update", "Ensemble.update_objdata", "Ensemble.set_ancil", "Ensemble.add_to_ancil", "Ensemble.mode"],
    [("cached grid", "grid and pdf values of the last gridded evaluation", "ensemble.py:Ensemble._gridded")],
)
prop(
    "C08",
    "Files and dictionaries restore the same ensemble",
    "Writing an ensemble to a file of any supported type, or to a dictionary of ensembles in one file, and reading it back gives an ensemble of the same representation with the same number of PDFs, values, metadata and ancillary data; the metadata, the data length and the question whether a file is such a file are answered consistently, also after overwriting a file with another ensemble. Writing does not change the ensemble.",
    ["inputs", "histories", "configurations"],
    "all representations x 1-3 PDFs x file types x ancillary data of several types and column shapes x all sequences of two writes to one name",
    "The tests round-trip one ensemble per class to one file type without ancillary data and check only shapes and names.",
    ["factory.py", "ensemble.py", "dict_utils.py"],
    [("tables", "ensemble.py:Ensemble.build_tables, write_to"), ("reconstruction", "factory.py:Factory.from_tables, read, read_dict, write_dict, read_metadata, is_qp_file, data_length")],
    ["Ensemble.write_to", "qp.read", "qp.read_dict", "qp.write_dict", "qp.read_metadata", "qp.is_qp_file", "qp.data_length"],
)
prop(
    "C09",
    "Chunked iteration delivers every PDF exactly once, in order",
    "For every file, chunk size, number of parallel readers and rank, the chunks delivered to the readers cover each PDF exactly once, each chunk holds exactly the PDFs (values, ancillary rows, metadata) of its stated range, and chunks stay valid and independent of each other after the iteration moves on.",
    ["inputs", "configurations", "histories"],
    "all numbers of PDFs up to 7 x chunk sizes 1..n+1 x parallel sizes 1..4 x all ranks x representations, ancillary data on and off, iterations left early",
    "The tests iterate one 11-PDF file with one chunk size and serial reading, and count chunks.",
    ["factory.py"],
    [("iterator", "factory.py:Factory.iterator")],
    ["qp.iterator"],
)
prop(
    "C10",
    "Chunked writing equals writing at once; unfinished files are not taken as valid",
    "For every split of an ensemble into consecutive chunks, written in any order at their positions in a file made for the whole, the finished file reads back as the whole ensemble, and the announced layout has the exact names, shapes and types of the object data for any number of PDFs. If the writing stops before the finalising step, at whatever point, the file is not recognised as an ensemble file.",
    ["crash_points", "histories", "inputs"],
    "all compositions of up to 4 PDFs x all orders of the chunks x representations; the writing stopped after each step (process ended with and without closing the file)",
    "The tests write one ensemble in one order in equal halves and never stop in between.",
    ["ensemble.py", "pdf_gen.py", "hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "spline_pdf.py", "packed_interp_pdf.py", "sparse_pdf.py"],
    [("protocol", "ensemble.py:Ensemble.initializeHdf5Write, writeHdf5Chunk, finalizeHdf5Write"), ("layout per class", "get_allocation_kwds of each class"), ("recognition", "factory.py:Factory.is_qp_file")],
    ["Ensemble.initializeHdf5Write", "Ensemble.writeHdf5Chunk", "Ensemble.finalizeHdf5Write", "qp.is_qp_file"],
)
prop(
    "C11",
    "Conversion keeps each distribution as well as the target can represent it",
    "Converting an ensemble to a representation gives, for each PDF, the target data the documented rule defines: pdf values on the requested grid, probabilities per bin, locations of the requested quantile levels, densities or histograms of the requested samples, spline through the requested points; it keeps the number and order of the PDFs, each converted independently of the others. The function, the method and the class ways of asking give the same result.",
    ["inputs", "configurations"],
    "all source representations x all target representations and methods x 1-3 PDFs x grids and bins (even, uneven, one bin), requested through each interface",
    "The tests convert one smooth ensemble and compare with large tolerances (or only check that nothing is raised), on even grids with as many PDFs each time.",
    ["conversion_funcs.py", "factory.py", "ensemble.py", "sparse_rep.py", "packing_utils.py"],
    [("extraction functions", "conversion_funcs.py:extract_*"), ("dispatch", "factory.py:Factory.convert, ensemble.py:Ensemble.convert_to, pdf_gen.py:Pdf_gen.add_mappings")],
    ["qp.convert", "Ensemble.convert_to"],
)
prop(
    "C12",
    "Packed values decode to the original within one packing step",
    "For every row of non-negative values and both packings, packing to bytes and unpacking restores each value to within one packing step of its row, independently of the other rows and of the scale of the row; row maxima are restored exactly, order is kept, zeros stay zero, values out of range are clipped to the nearest code, and each of the 256 codes survives unpacking and packing.",
    ["inputs"],
    "all 256 codes, all rows up to 4 values over an alphabet of fractions of the maximum, 5 orders of magnitude of row maxima, all pairs of rows, both packings and several floors",
    "The tests pack one Gaussian ensemble and accept 1-2 % deviation on its mean pdf.",
    ["packing_utils.py", "packed_interp_pdf.py"],
    [("codec", "packing_utils.py:linear_pack_from_rowmax, log_pack_from_rowmax, linear_unpack, log_unpack")],
    ["qp.packing_utils.pack_array", "qp.packing_utils.unpack_array", "Ensemble.pdf"],
)
prop(
    "C13",
    "The sparse representation decodes what was encoded, for each PDF alone",
    "Decoding a sparse code gives the combination of the dictionary's basis functions the code states, and encoding PDFs finds, for each PDF independently of the others and of their order, the basis functions that make it up: a PDF that is one basis function is restored by it, and a PDF that is a combination is restored within the coding resolution. Integer encoding of index and coefficient pairs is exactly reversible.",
    ["inputs", "histories"],
    "all (index, coefficient) codes of a small dictionary, all single and pairs of basis functions, all orders of up to 3 PDFs in one ensemble",
    "The tests encode one Gaussian ensemble and compare loosely; shared state between the rows and the permutation of the dictionary never show on one order.",
    ["sparse_rep.py", "sparse_pdf.py", "conversion_funcs.py"],
    [("dictionary", "sparse_rep.py:create_voigt_basis"), ("matching pursuit", "sparse_rep.py:sparse_basis"), ("codes", "sparse_rep.py:combine_int, get_N, decode_sparse_indices, pdf_from_sparse, build_sparse_representation")],
    ["qp.sparse", "qp.sparse_rep"],
)
prop(
    "C14",
    "Quantile ensembles interpolate their quantiles; reconstructions switch cleanly",
    "For all quantile levels and locations the cdf takes the levels at the locations and the ppf the locations at the levels (0 and 1 padded only when missing, never duplicated, by continuing the outermost slope), with each reconstruction giving each PDF its own documented density. Whatever sequence of reconstructions is selected, the behaviour is that of an ensemble built with the last valid one; an unknown name is rejected and changes nothing.",
    ["histories", "inputs", "configurations"],
    "all sequences of up to 3 switches over the 4 reconstructions and invalid names, interleaved with evaluations, x paddings x level patterns x 1-3 PDFs",
    "The tests switch once on one ensemble without comparing the values to anything.",
    ["quant_pdf.py", "quantile_pdf_constructors/piecewise_linear.py", "quantile_pdf_constructors/piecewise_constant.py", "quantile_pdf_constructors/cdf_spline_derivative.py", "quantile_pdf_constructors/dual_spline_average.py"],
    [("padding", "quant_pdf.py:pad_quantiles"), ("switch", "quant_pdf.py:quant_gen.pdf_constructor_name"), ("reconstructions", "quantile_pdf_constructors/*.py")],
    ["qp.quant", "Ensemble.pdf", "Ensemble.metadata"],
)
prop(
    "C15",
    "Metrics return their defined value for each PDF, independent of the other PDFs",
    "Each metric returns, for every ensemble and truth, the value of its definition (moments, KLD, RMSE, RBPE, Brier score, outlier rate, conditional-density loss, Anderson-Darling, Cramer-von-Mises, Kolmogorov-Smirnov, point-estimate bias, scatter, outlier fraction, mean): per-PDF metrics give each PDF its own value at its own position, and metrics of the whole sample do not depend on the order of the PDFs. The metric classes agree with the functions, and the inputs are not changed.",
    ["inputs", "configurations"],
    "all metrics x ensembles of 1-4 PDFs over small alphabets (equal, disjoint, zero-containing, uneven grids) x all orders of the PDFs x all limits",
    "The tests check one or two fixed numbers per metric on one ensemble; the definition on other inputs, single PDFs and the order of PDFs are not tried.",
    ["metrics/array_metrics.py", "metrics/metrics.py", "metrics/brier.py", "metrics/goodness_of_fit.py", "metrics/point_estimate_metric_classes.py", "metrics/concrete_metric_classes.py", "utils.py"],
    [("definitions", "metrics/metrics.py:calculate_*, metrics/array_metrics.py:quick_*"), ("classes", "metrics/concrete_metric_classes.py, point_estimate_metric_classes.py")],
    ["qp.metrics.*", "BaseMetric.evaluate"],
)
prop(
    "C16",
    "Metrics accumulated over chunks equal the metric of the whole",
    "For every metric that can be accumulated, every split of the data into consecutive chunks and every order in which the partial results are combined (by iterating or in parallel), the finalised result equals the result for the whole data set up to the accuracy of the sketch it uses; chunk sizes, single-PDF chunks and empty parallel ranks make no difference.",
    ["histories", "schedules", "inputs"],
    "all compositions of up to 5 PDFs x all orders of the partial results x all accumulating metrics",
    "The tests split one sample once into equal pieces and compare with a loose tolerance.",
    ["metrics/base_metric_classes.py", "metrics/concrete_metric_classes.py", "metrics/point_estimate_metric_classes.py"],
    [("accumulate and finalize", "metrics/*_classes.py:*.accumulate, finalize"), ("iterator evaluation", "metrics/*_classes.py:eval_from_iterator")],
    ["accumulate", "finalize", "eval_from_iterator", "evaluate"],
)
prop(
    "C17",
    "PIT values are the cdf of each PDF at its own truth, and its summaries follow",
    "The probability integral transform of an ensemble and its truths contains, for each PDF, the cdf of that PDF at its own truth, for any number of PDFs; the PIT ensemble is the quantile distribution of exactly those values, its outlier rate and goodness-of-fit statistics are those of the sample of values, and not-a-number values are recorded as 0 with a warning, not passed on.",
    ["inputs"],
    "all representations x 1-4 PDFs x truths inside, outside, at the nodes and not a number x evaluation grids x all orders of the pairs",
    "The tests compute the PIT of one 11-PDF ensemble and compare summary numbers to pinned values.",
    ["metrics/pit.py", "metrics/array_metrics.py", "metrics/concrete_metric_classes.py"],
    [("samples", "metrics/pit.py:PIT.calculate_pits"), ("summary", "metrics/pit.py:PIT.__init__, evaluate_PIT_*")],
    ["qp.metrics.pit.PIT", "PITMetric"],
)
prop(
    "C18",
    "Concurrent evaluations give the same values as evaluations alone",
    "When several threads evaluate the same ensemble at the same time, including the first evaluations that build internal tables, every thread gets exactly the values it would get alone and none fails, whatever the interleaving.",
    ["schedules"],
    "all interleavings at line granularity of two threads with up to 1 preemption (2 in the thorough tier), for pairs of operations of each representation, from a fresh ensemble",
    "The tests are single threaded.",
    ["hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py", "packed_interp_pdf.py", "sparse_pdf.py", "ensemble.py", "pdf_gen.py"],
    [("tables built on first use", "hist_pdf.py:_compute_cdfs, interp_pdf.py:_compute_ycumul, mixmod_pdf.py:_ppf, packed_interp_pdf.py:compute_cached_cumul"), ("grid cache", "ensemble.py:Ensemble.gridded")],
    ["Ensemble.pdf", "Ensemble.cdf", "Ensemble.ppf", "Ensemble.gridded"],
)
prop(
    "C19",
    "Names lead to the right class, constructor and conversion, in any order of use",
    "Every registered name and the function of that name create the class of that name, aliases lead to the same class, and every method name leads to its own constructor, reader and extraction function; unknown class names are rejected and unknown method names lead to the default method of the class where it has one; registering, listing or using one class never changes what another one does. Metric names lead to the metric class of that name.",
    ["configurations", "histories"],
    "all registered names x methods x histories of up to 3 registrations and uses, all metric names",
    "The tests only iterate over the registry once.",
    ["factory.py", "pdf_gen.py", "metrics/factory.py", "dict_utils.py"],
    [("registry", "factory.py:Factory.add_class, create, convert"), ("per-class method tables", "pdf_gen.py:Pdf_gen.add_method_dicts, add_mappings"), ("metric registry", "metrics/factory.py:MetricFactory")],
    ["qp.instance()", "qp.create", "qp.<name>", "MetricFactory"],
)
prop(
    "C20",
    "Operations never modify their inputs or the ensembles they read from",
    "Constructing, evaluating, selecting, converting, writing, concatenating, iterating or measuring never changes the arrays, lists and dictionaries given by the caller, nor the data of the ensembles read from; what an evaluation returns belongs to the caller (writing into it changes no later answer), and changing an ensemble derived from another one, or the source, leaves the other alone.",
    ["histories", "inputs"],
    "all operations of the public interface x representations, with read-only and byte-compared inputs, followed by writing into the results",
    "The tests never compare the inputs after a call.",
    ["ensemble.py", "dict_utils.py", "conversion_funcs.py", "factory.py", "pdf_gen.py", "metrics/metrics.py"],
    [("copies", "ensemble.py:Ensemble.gridded, add_to_ancil, factory.py:Factory.iterator"), ("normalisation", "utils.py:normalize_*"), ("pops and updates of dictionaries", "pdf_gen.py, factory.py")],
    ["all public functions"],
)
prop(
    "C21",
    "Moments and summary statistics are those of the distribution",
    "The mean, variance, standard deviation, median, moments, partial moments, stats, and expectation values of each PDF are those of its own pdf, with one value per PDF in the shape documented, independent of the other PDFs (histograms: sums over bin centres, interpolated grids: trapezoid sums of their grid, as documented; entropy: the integral of -p log p).",
    ["inputs"],
    "all representations x 1-3 PDFs x orders 0-4 x limits and grids (even and uneven)",
    "The tests compare the moments of one ensemble of evenly spaced Gaussians.",
    ["ensemble.py", "hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "pdf_gen.py", "metrics/array_metrics.py"],
    [("moments per class", "hist_pdf.py:_munp, interp_pdf.py:_munp, mixmod_pdf.py"), ("statistics", "ensemble.py:Ensemble.mean, var, std, moment, moment_partial, stats")],
    ["Ensemble.mean", "Ensemble.var", "Ensemble.std", "Ensemble.moment", "Ensemble.moment_partial", "Ensemble.median"],
)
prop(
    "C22",
    "Random samples of each PDF follow that PDF, reproducibly",
    "Sampling gives, for every size and number of PDFs, one row of samples per PDF (one sample per PDF when no size is given); each sample is the ppf of its own PDF at a uniform random number (or a draw from that PDF), lies in its support, and the same random state gives the same samples.",
    ["inputs", "schedules"],
    "all representations x 1-3 PDFs x sizes x scripted uniform random numbers covering every cell of every PDF",
    "The tests draw once and check shapes; a sample that comes from a neighbouring PDF or ignores the random state is not noticed.",
    ["ensemble.py", "pdf_gen.py", "mixmod_pdf.py"],
    [("sampling", "ensemble.py:Ensemble.rvs, pdf_gen.py:Pdf_rows_gen.rvs/_rvs"), ("frozen rvs shape", "pdf_gen.py:rv_frozen_func.rvs")],
    ["Ensemble.rvs"],
)
prop(
    "C23",
    "Ensembles of any shape behave like the list of their PDFs",
    "An ensemble whose data has more than one dimension before the data of a PDF (shape (n, m, ...)) reports that shape, number of PDFs and number of dimensions, and every evaluation, statistic, grid, integral, sample, conversion to grids, histograms, quantiles or packed grids, and every copy restored from a file or tables holds, at each index, what the flat ensemble of the same rows in C order holds for that row, whatever the lengths (1 included) of the dimensions and the form of the arguments.",
    ["inputs", "configurations"],
    "all representations x shapes with up to 3 (4) dimensions of length 1-3 x functions x forms of the arguments x pairs of operations",
    "The tests hold two ensembles with more than one dimension and compare no values.",
    ["ensemble.py", "pdf_gen.py", "utils.py", "sparse_pdf.py", "packing_utils.py", "hist_pdf.py", "interp_pdf.py", "mixmod_pdf.py", "quant_pdf.py"],
    [("row numbers in the shape of the ensemble", "pdf_gen.py:Pdf_rows_gen, rv_frozen_rows"), ("shape to list and back", "utils.py:reshape_to_pdf_size, reshape_to_pdf_shape"), ("arguments with one list per PDF", "utils.py:*_2d")],
    ["Ensemble.shape", "Ensemble.pdf", "Ensemble.rvs", "qp.convert", "Ensemble.write_to"],
)
prop(
    "C24",
    "The helper functions for many rows work element by element",
    "The row-wise interpolation and histogram functions of qp.utils give, for flat lists of (argument, row) pairs, products of arguments and rows, and one list of arguments per row, the value each row alone has at each argument (also for repeated, unsorted and nearly factorable lists and single bins or rows); bin indices, centres, widths, profiles, normalisation, kernel estimates and reshaping do so for each element; slicing, stacking and comparing dictionaries of columns acts on every column.",
    ["inputs"],
    "all lists of up to 3 (4) of 9 pairs and near-products, all arrangements of up to 4 rows x 5 arguments, all sets of up to 3 (4) bins, all profiles of up to 4 points, dictionaries with every single change",
    "The tests compare three arrangements of one evenly spaced set of values with each other and never with the values they should have.",
    ["utils.py", "dict_utils.py"],
    [("recognition of factorable lists", "utils.py:get_eval_case"), ("row-wise evaluation", "utils.py:evaluate_hist_*, interpolate_*"), ("bins", "utils.py:get_bin_indices, profile"), ("columns", "dict_utils.py:slice_dict, concatenate_dicts, compare_dicts, check_array_shapes")],
    ["qp.utils", "qp.dict_utils"],
)
prop(
    "C25",
    "Plots show exactly the selected PDFs",
    "plot and plot_native, of an ensemble or through qp.plotting, draw one curve (or set of bars or marks) per selected PDF in the order of the selection, holding that PDF's own pdf on the given limits, or its own grid, knots, bins and quantile locations; they draw on the axes that are given (or on a new figure with the given limits and labels) and nowhere else, pass colours and labels on, and leave the ensemble and what was drawn before as they were.",
    ["inputs", "histories"],
    "all representations x 13 selections x 2 kinds of plots x axes or limits x keywords, all pairs of ensembles in one figure",
    "The tests call the plotting functions for the first PDF and look at nothing that was drawn.",
    ["plotting.py", "ensemble.py", "pdf_gen.py", "hist_pdf.py", "interp_pdf.py", "packed_interp_pdf.py", "quant_pdf.py", "spline_pdf.py"],
    [("curves", "plotting.py:plot_pdf_on_axes, plot_dist_pdf"), ("native plots", "*_pdf.py:*.plot_native"), ("axes", "plotting.py:get_axes_and_xlims")],
    ["Ensemble.plot", "Ensemble.plot_native", "qp.plotting"],
)

prop(
    "C26",
    "Contradictory inputs are refused without a trace, consistent ones are accepted",
    "An ensemble is built, updated or read exactly when its data belong together: grids, bins, quantiles and knots as long as the values of each PDF, no negative weights of mixtures, all required keywords and no unknown ones, ancillary columns with one entry per PDF; arguments of the functions are accepted exactly when numpy broadcasts them against the PDFs, metrics when the sizes of the ensembles or truths match, plots with either axes or limits. Everything else raises an error, and the ensemble it was refused for keeps its values, metadata and ancillary data and can be used and updated as before.",
    ["inputs", "histories"],
    "all tuples of shapes, subsets of keywords, shapes of arguments, lengths of columns, signs of weights, pairs of sizes; with queries before and corrections after the refused call",
    "The tests try one wrong input for a few of the errors and do not look at the ensemble afterwards; a check that looks at the size instead of the length, or that comes after the change, passes them.",
    ["ensemble.py", "factory.py", "dict_utils.py", "hist_pdf.py", "interp_pdf.py", "quant_pdf.py", "spline_pdf.py", "packed_interp_pdf.py", "mixmod_pdf.py", "metrics/metrics.py", "plotting.py"],
    [("shapes of constructor data", "*_pdf.py:*.__init__"), ("lengths of ancillary data", "dict_utils.py:check_array_shapes"), ("update as a whole", "ensemble.py:Ensemble._update"), ("sizes of truths", "metrics/metrics.py:_prepare_for_brier")],
    ["Ensemble()", "qp.create", "Ensemble.update", "Ensemble.set_ancil", "Ensemble.add_to_ancil", "qp.from_tables", "qp.iterator", "qp.metrics"],
)

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
