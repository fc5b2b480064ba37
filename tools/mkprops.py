"""writes properties.jsonl (the single source of the property texts)"""
import json
import os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


S = "bet/sample.py"
prop("C01", "The inverse measure spreads each bin's probability over its preimage by volume",
     "Solving the stochastic inverse problem on input cells gives every cell the probability of the output bin that owns "
     "its output sample, times the cell's share of the total volume of all cells whose outputs fall in that same bin; cells "
     "whose bin has probability zero get zero. It holds for volumes that are set explicitly, by the Monte Carlo assumption "
     "or from emulated points, for all kinds of output partition, with or without globalisation, on any number of processes.",
     ["inputs", "configurations", "schedules"],
     "every finite set of input/output samples, output partition and bin probabilities, volume assignment, data placement "
     "(global or distributed) and number of processes",
     "The tests compute a few fixed uniform problems in serial and compare with stored arrays; bins without samples, zero "
     "volumes, distributed-only data and more than one process are never run.",
     ["bet/calculateP/calculateP.py", S],
     [("prob / prob_with_emulated_volumes: per-bin masks and an allreduced normaliser", "bet/calculateP/calculateP.py"),
      ("io pointer from output samples to bins", S)],
     [("probabilities", "probability of each input cell", S), ("volumes", "measure of each input cell", S)],
     ["get_probabilities", "get_probabilities_local"])
prop("C02", "Emulated points share the probability of their bin equally",
     "Solving on emulated input points gives each point the probability of the output bin of its nearest input sample (in "
     "the input set's norm) divided by the number, over all processes, of emulated points assigned to that same bin; points "
     "assigned to a zero-probability bin get zero, and the input samples' own probabilities are not touched. It holds "
     "whichever member sets were replaced, and whichever solves or simple-function constructions ran, before.",
     ["inputs", "configurations", "histories"],
     "every emulated point cloud, norm, partition, number of processes and earlier use of the discretization",
     "One serial fixture per dimension is compared with itself; histories that leave partial pointers and parallel runs are never exercised.",
     ["bet/calculateP/calculateP.py", S],
     [("prob_on_emulated_samples", "bet/calculateP/calculateP.py"), ("emulated-input and input-output pointers", S)],
     [("emulated pointer", "input cell owning an emulated point", S)], ["get_probabilities of the emulated set"])
prop("C03", "Transferring probability between partitions conserves it cell by cell",
     "Moving a computed probability to a new set of cells gives each new cell exactly the sum of the probability carried by "
     "the points it owns (old samples, emulated input points, or emulated points sharing their old cell's probability "
     "equally), identically on all processes. The total is conserved, and when some old cell of positive probability holds "
     "no emulated point the result is renormalised to total one; sets of different dimension are refused.",
     ["inputs", "configurations"],
     "every pair of partitions, probability vector, emulated cloud and number of processes",
     "Tests check the total on a few large random sets; per-cell assignment and multi-process sums are not decided.",
     ["bet/calculateP/calculateP.py"],
     [("prob_from_sample_set, prob_from_sample_set_with_emulated_volumes, prob_from_discretization_input", "bet/calculateP/calculateP.py")],
     [("probabilities of the new set", "aggregated mass", S)], ["return value", "get_probabilities"])
prop("C04", "A query returns the cell that owns a point",
     "A nearest-cell query on a Voronoi set returns, for every point and every k, k distinct samples in order of distance in "
     "the set's p-norm with no other sample nearer; on rectangle and grid sets it returns the first boxes containing the point "
     "(open at the lower, closed at the upper faces) and on ball sets the first open balls containing it, in index order, and "
     "the outside cell when there are none. Answers always refer to the set's current values and norm.",
     ["inputs", "histories"],
     "every point, norm 1, 2 or infinity, k, overlapping shapes, and every history of replacing, appending, normalising or reloading values before the query",
     "Tests query a handful of interior points of one configuration with k=1; boundaries, overlaps, norms and stale search structures after changes are not covered.",
     [S], [("query methods of voronoi, rectangle, ball and cartesian sets", S), ("search tree built from values", S)],
     [("values / left / right / radii", "cell geometry", S), ("search tree", "cached acceleration structure", S)],
     ["query"])
prop("C05", "Exact volumes are the true fraction of the domain of each cell",
     "Exact volume computations return each cell's measure divided by the domain's: nearest-sample intervals in one dimension, "
     "clipped Voronoi polygons in two (whenever samples whose cells touch a side of the domain are reflected across it), boxes and p-norm balls "
     "with the outside cell taking the remainder. Volumes belong to the sample they are indexed by, for any sample order, and sum to one.",
     ["inputs", "configurations"],
     "every sample layout and order, domain, side ratio, norm and number of processes",
     "Tests check sums and one symmetric layout; unsorted samples, off-centre domains, multi-process index permutations are not decided.",
     [S], [("exact_volume_1D, exact_volume_2D, exact_volume_lebesgue, exact_volume", S)],
     [("volumes", "fraction of the domain", S)], ["get_volumes", "get_volumes_local"])
prop("C06", "Estimated volumes and radii converge to the cells' true geometry",
     "Volume estimates are fractions of points counted per owning cell over all processes: with given emulated points they "
     "equal that fraction exactly, with n random points they are multiples of 1/n that sum to one and agree with the exact volumes "
     "within sampling error, and the Monte Carlo assumption gives every cell 1/number. Estimated radii never exceed and approach the distance from "
     "a sample to the farthest point of its cell (in domain-scaled coordinates when normalised), cells that receive no point not being an error, and local volume estimates "
     "sum to one and approach the exact volumes.",
     ["inputs", "configurations"],
     "every layout, number of points (including fewer than cells or processes), norm, domain scale and number of processes",
     "Tests compare one layout at loose tolerance in serial.",
     [S], [("estimate_volume, estimate_volume_emulated, estimate_volume_mc, estimate_radii, estimate_radii_and_volume, estimate_local_volume", S)],
     [("volumes, radii, normalized radii", "estimates", S)], ["get_volumes"])
prop("C07", "Local and global views of a set are exact distributions of one another",
     "Distributing a set gives the processes consecutive, disjoint blocks of every per-sample array that together are the global array in order, "
     "with sizes differing by at most one and the recorded indices naming those rows; gathering gives every process the concatenation of the "
     "local arrays in rank order, and a gather after a distribution changes nothing. This covers every per-sample quantity of a set and every member set of a "
     "discretization, and the reported number of samples is the global number, or an error if arrays disagree in length.",
     ["inputs", "histories", "configurations"],
     "every combination of present arrays, sample count (including zero or fewer samples than processes), process count and sequence of set, distribute and gather operations",
     "The suite runs on one process, where distribution is the identity.",
     [S, "bet/util.py"],
     [("global_to_local, local_to_global, check_num, check_num_local", S), ("get_global_values", "bet/util.py")],
     [("each array and its local part", "global/local pairs", S)], ["getters of global and local arrays"])
prop("C08", "Any number of processes gives the serial answer, without deadlock",
     "A deterministic workflow (distribute, solve, transfer, volumes, error estimates, surrogates, gradients and QoI selection, marginals, save and load) "
     "run on any number of processes leaves every process with the same global results, equal to those of one process. All processes "
     "perform the same sequence of collective operations, so no schedule can deadlock or mix results.",
     ["schedules", "configurations", "inputs"],
     "every number of processes, every interleaving of their progress, every workflow input",
     "The test environment runs one process; the collective code paths are executed with size 1 only.",
     ["bet/Comm.py", "bet/util.py", S, "bet/calculateP/calculateP.py", "bet/calculateP/calculateError.py", "bet/surrogates.py",
      "bet/sensitivity/chooseQoIs.py", "bet/postProcess/plotP.py"],
     [("collectives on the communicator", "bet/Comm.py"), ("rank-dependent work splitting", S)],
     [("collective sequence of a process", "order of allreduce/gather/... calls", "bet/Comm.py")], ["global results on each process"])
prop("C09", "Saving and loading reproduces the object",
     "Loading a saved sample set or discretization returns an object equal to the saved one in every field, including member sets, pointers, probabilities, "
     "domains and probability models; a distributed save writes one file per process and loading it on the same number of processes restores each "
     "process's part, while a different number is refused. It holds for file names with or without directories, and loading with localisation yields the distributed form of the saved data.",
     ["inputs", "histories", "configurations"],
     "every object state reachable by the API, file name form, save mode and process count",
     "Tests save into the current directory from one process and compare a few arrays.",
     ["bet/util.py", S], [("save_object, load_object, load_object_parallel", "bet/util.py")],
     [("files", "one per object or per process", "bet/util.py")], ["load_object"])
prop("C10", "Appending, clipping, merging, copying and choosing keep samples paired",
     "Appending adds rows after the existing ones, clipping keeps exactly the first samples of every per-sample quantity, merging joins the samples "
     "of both sets, and choosing inputs/outputs keeps exactly the chosen coordinates of values, domains, reference values, error estimates and Jacobians in the chosen order; "
     "input and output samples of a discretization stay paired row by row throughout. The operands are not changed by clipping, merging, copying or choosing, and incompatible operands are refused.",
     ["inputs", "histories", "configurations"],
     "every set content, clip number, index choice, sequence of these operations and process count",
     "Tests apply each operation once to one fixture; sequences, partial arrays and distributed data are not covered.",
     [S], [("append_values*, clip, merge, copy, choose_inputs_outputs", S)],
     [("per-sample arrays", "rows belong together", S)], ["getters"])
prop("C11", "Equality of sets and discretizations means equality of all their data",
     "Comparing two sample sets or two discretizations answers true exactly when all their recorded data agree, including missing versus present arrays and member sets, "
     "lists, cluster maps, probability models and not-a-number entries in the same place; an object always equals its copy. Comparison never fails for two objects of the same class, and objects of different classes are refused.",
     ["inputs", "histories"],
     "every pair of objects of one class that differ in any one field, or in none",
     "Tests compare equal objects and a few single differences where both arrays are present.",
     [S], [("__eq__ of sample_set_base and discretization", S)], [("all fields", "", S)], ["=="])
prop("C12", "Normalising a domain and undoing it are inverse coordinate changes",
     "Normalising maps values, bounds, reference value and Jacobians of a set to the unit domain by the affine map of its domain, for global and local data alike, "
     "and undoing it restores the original data and domain; a set without domain is left alone. Arrays that belong to the caller are never modified.",
     ["inputs", "histories", "configurations"],
     "every domain, set content, global/local placement and sequence of normalise, undo, distribute and gather",
     "The test normalises one global-only set once.",
     [S], [("normalize_domain, undo_normalize_domain", S)], [("domain, original domain", "", S)], ["getters"])
prop("C13", "Pointers always refer to the discretization's current sets",
     "After any sequence of replacing member sets, constructing output probabilities and solving, every pointer a discretization reports and every solve it performs uses the member sets it holds now. "
     "A replacement that is not a sample set, and an output probability or emulated set of the wrong dimension, is refused and leaves the discretization unchanged.",
     ["histories", "configurations"],
     "every sequence of member replacement, pointer computation, simple-function construction and solve",
     "Tests build each discretization once and solve it once.",
     [S, "bet/calculateP/calculateP.py", "bet/calculateP/simpleFunP.py"],
     [("set_io_ptr, set_emulated_ii_ptr, set_emulated_oo_ptr, globalize_ptrs and the member setters", S)],
     [("io, emulated input, emulated output pointers", "cached ownership", S)], ["get_io_ptr", "solves"])
prop("C14", "Simple-function output probabilities describe the stated distribution",
     "Every construction of an output probability returns a partition whose bin probabilities are non-negative, sum to one (up to mass outside a bounded region) and equal the stated distribution's mass of each bin: exactly for regular partitions, "
     "data samples and user partitions, within sampling error for random partitions, whose generating points lie in the stated region. Given a discretization it becomes its output probability set and the pointers match; the rectangle given by size, scale or domain is the same rectangle, and bad arguments are refused.",
     ["inputs", "configurations"],
     "every reference value, size, scale, domain, cells per dimension, data layout, argument kind and process count",
     "Tests check shapes, sums and domains on one data set; per-bin mass against the bin geometry and multi-process counts are not decided.",
     ["bet/calculateP/simpleFunP.py"], [("the uniform/regular/normal/user partition constructions", "bet/calculateP/simpleFunP.py")],
     [("output probability set", "", S)], ["get_probabilities", "query"])
prop("C15", "Data-consistent updates weight samples by observed over predicted density",
     "Density-based inversion gives every input sample the ratio of the observed to the predicted output density at its output, computed within its cluster, and weights clusters by their share of observations; the mixture, Gaussian, "
     "kernel and random-variable updates are built from exactly these weights on exactly these samples, and rejection sampling keeps only input samples, always including the most likely one of each cluster. Clusters with no predicted samples contribute nothing.",
     ["inputs", "configurations"],
     "every predicted/observed sample, cluster labelling (including absent or empty clusters), initial weights and cluster maps",
     "Tests fit one or two smooth problems and check shapes or loose moments.",
     ["bet/calculateP/calculateR.py", "bet/sampling/useLUQ.py"],
     [("generate_output_kdes, invert*, weighted mean and covariance", "bet/calculateP/calculateR.py"), ("make_disc", "bet/sampling/useLUQ.py")],
     [("weights, prob_type, prob_parameters", "", S)], ["return values", "get_weights"])
prop("C16", "Sampling designs deliver the requested number and layout of samples",
     "Random, Latin hypercube, regular-grid, p-norm-ball and updated-distribution sampling deliver exactly the requested number of samples over all processes, of the right dimension, inside the requested domain or support; regular grids are exactly the bin centres, "
     "a Latin hypercube has exactly one sample in each of the equal strata of each dimension, and ball samples lie within the radius. The recorded initial distribution is the one used.",
     ["inputs", "configurations"],
     "every sample count, dimension, domain, distribution, process count and globalisation choice",
     "Tests check shapes and extreme values in serial.",
     ["bet/sampling/basicSampling.py", "bet/sampling/LpGeneralizedSamples.py"],
     [("random_sample_set, lhs_sample_set, regular_sample_set, sample_from_updated", "bet/sampling/basicSampling.py"), ("Lp_generalized_*", "bet/sampling/LpGeneralizedSamples.py")],
     [("values, domain, prob_type_init", "", S)], ["getters"])
prop("C17", "A sampler pairs every input sample with the model's value for it",
     "Evaluating a model through a sampler yields a discretization whose i-th output, error estimate and Jacobian are the model's for the i-th input sample, for any accepted return form of the model, with the reference output the model's value at the reference input. "
     "Every input is evaluated exactly once over all processes, and a saved file holds the same discretization.",
     ["inputs", "configurations"],
     "every input set, model return form, reference value, process count, globalisation and save choice",
     "Tests use maps whose rows are compared in serial for a few sizes.",
     ["bet/sampling/basicSampling.py"], [("sampler.compute_qoi_and_create_discretization", "bet/sampling/basicSampling.py")],
     [("discretization", "", S)], ["returned discretization"])
prop("C18", "Surrogates are the piecewise Taylor interpolant of the training data",
     "A surrogate of order 0 gives a new input the output of its nearest training sample, one of order 1 adds that sample's Jacobian applied to the displacement from it; error estimates are inherited from the same sample. "
     "Region probabilities are the inverse measure of the surrogate over the region's cells, the region error is the model error estimate of the surrogate, and on request the training samples receive the total probability and error of the new inputs they own. "
     "The training data are otherwise unchanged.",
     ["inputs", "configurations"],
     "every training set, new input set, Jacobians, region labelling and process count",
     "Tests check order 0 on linear data and only shapes for order 1.",
     ["bet/surrogates.py"], [("generate_for_input_set, calculate_prob_for_sample_set_region", "bet/surrogates.py")],
     [("surrogate discretization", "", "bet/surrogates.py")], ["returned discretization and lists"])
prop("C19", "Sampling error bounds follow from the true cell adjacency",
     "Two cells are neighbours exactly when their samples are adjacent in the Delaunay triangulation (consecutive in one dimension), for any order of the samples; the inner set of a bin holds the cells that map to it and whose neighbours all do and the outer set the cells having a neighbour mapping to it. "
     "The bounds on contour events and on regions are the bin probabilities weighted by the volume ratios of these sets, upper at least lower, not-a-number where a ratio is undefined, and vanish for bins of zero probability.",
     ["inputs", "configurations"],
     "every sample layout and order, bin map, probability, volume, region, emulated set and process count",
     "Tests check signs of the bounds on random samples.",
     ["bet/calculateP/calculateError.py"], [("cell_connectivity_exact, boundary_sets, sampling_error", "bet/calculateP/calculateError.py")],
     [("B_N, C_N", "inner and outer cells of a bin", "bet/calculateP/calculateError.py")], ["returned lists and bounds"])
prop("C20", "Model error estimates measure the change of measure by the output errors",
     "The model error estimate of a region (or contour event) is the sum over bins of the bin probability times the difference of the region's relative volume in the bin's preimage without and with the outputs corrected by their error estimates, from volumes, emulated points or the Monte Carlo assumption alike. "
     "The estimate is zero when the error estimates move no output to another bin, and computing it changes neither outputs nor pointers of the discretization.",
     ["inputs", "configurations"],
     "every discretization, error estimate, region, emulated set and process count",
     "Tests compare one fixture with itself or check positivity.",
     ["bet/calculateP/calculateError.py"], [("model_error", "bet/calculateP/calculateError.py")],
     [("corrected pointers", "", "bet/calculateP/calculateError.py")], ["return values", "error_id"])
prop("C21", "Finite-difference gradients are exact for affine models and row-aligned",
     "The forward and centred stencils place, for each centre in order, the points displaced by the radius along each coordinate after all centres, and the computed Jacobian entry of a centre, output and input is the difference quotient of exactly those model values (one-norm scaled per output on request, zero rows left zero). "
     "The returned discretization holds the centres with their own outputs.",
     ["inputs", "configurations"],
     "every dimension, number of centres, radius vector, output dimension and model values including non-finite ones",
     "Tests check shapes and norms; the index arithmetic is checked for a single quadratic model at low accuracy.",
     ["bet/sensitivity/gradients.py"], [("pick_ffd_points, pick_cfd_points, calculate_gradients_ffd, calculate_gradients_cfd", "bet/sensitivity/gradients.py")],
     [("Jacobians", "", S)], ["get_jacobians"])
prop("C22", "RBF gradients interpolate: exact on the kernel's own span",
     "The radial-basis gradient at a centre is the gradient of the interpolant, with the chosen kernel and shape parameter, of the data at the centre's nearest samples; kernels are selected by name and unknown names are refused. "
     "Clusters around centres contain exactly the requested number of points within the radius in the chosen norm and inside the domain, after the centres themselves.",
     ["inputs", "configurations"],
     "every kernel, shape parameter, neighbour count, sample layout and data",
     "Tests only check shapes and norms with the default kernel and parameter.",
     ["bet/sensitivity/gradients.py"], [("calculate_gradients_rbf, radial_basis_function*, sample_lp_ball", "bet/sensitivity/gradients.py")],
     [("Jacobians", "", S)], ["get_jacobians"])
prop("C23", "Optimal QoI selection returns the best sets of quantities of interest",
     "Average measure, skewness and condition number of a set of quantities are the stated functions of its Jacobians, infinite for degenerate ones; choosing the best sets returns, sorted and padded with infinity, the smallest values over all admissible subsets with the subsets attaining them and matching singular data, "
     "excluding vanishing and near-parallel quantities as asked. Subsets are neither lost nor repeated, and the answer is the same on every process and number of processes.",
     ["inputs", "configurations"],
     "every Jacobian tensor, subset size, index restriction, tolerance, number of sets returned and process count",
     "Tests compare with one precomputed example; ties, degenerate vectors and splitting of subsets among processes are not covered.",
     ["bet/sensitivity/chooseQoIs.py"], [("calculate_avg_*, find_unique_vecs, find_good_sets, chooseOptQoIs*", "bet/sensitivity/chooseQoIs.py")],
     [("best sets", "", "bet/sensitivity/chooseQoIs.py")], ["returned matrices"])
prop("C24", "Highest and lowest probability samples are selected by density",
     "Sorting by density returns exactly the samples of positive probability in non-increasing order of probability per volume (probability alone without volumes) with their values, probabilities, volumes, outputs and original indices aligned; "
     "the highest and lowest probability selections are the longest prefixes of that order, from its dense or sparse end, whose total probability does not exceed the given percentile.",
     ["inputs", "configurations"],
     "every probability and volume vector (zeros and ties included), percentile, and sets with or without outputs, sorted or not",
     "Tests use one monotone example with distinct densities.",
     ["bet/postProcess/postTools.py"], [("sort_by_rho, sample_prob, sample_highest_prob, sample_lowest_prob", "bet/postProcess/postTools.py")],
     [("indices", "", "bet/postProcess/postTools.py")], ["returned set and indices"])
prop("C25", "Marginals are the exact histograms of the probability",
     "One- and two-dimensional marginals assign each bin the total probability of the samples in it (bins half-open, the last one closed, equally spaced over the domain), over all processes; the sum is the probability inside the domain, and summing a two-dimensional marginal over one axis gives the one-dimensional one. "
     "Smoothing a marginal of total one convolves it along each axis with a Gaussian of that axis' bandwidth, keeping total, shape and position; densities shown are probability per bin size.",
     ["inputs", "configurations"],
     "every sample set with probabilities, number of bins per dimension, process count and emulated or plain source",
     "Tests check a handful of points in two bins and smoothing only by shape or trivial bandwidths.",
     ["bet/postProcess/plotP.py"], [("calculate_1D_marginal_probs, calculate_2D_marginal_probs, smooth_marginals_1D/2D", "bet/postProcess/plotP.py")],
     [("marginals", "", "bet/postProcess/plotP.py")], ["returned dictionaries"])
prop("C26", "Probability densities of a set evaluate its stated distribution",
     "The density of a set at a point is that of its probability model: product of its marginals for independent random variables and kernel estimates, weighted sum over clusters for mixtures, and probability per unit volume of the owning cell for cell-based probabilities, and a marginal density is the same model's marginal in the asked coordinate. "
     "Densities follow the current probabilities after they change, points of the wrong dimension and unsupported models are refused, and initial and updated models are not mixed up.",
     ["inputs", "histories", "configurations"],
     "every model type, parameters, points, dimension, process count and history of solves",
     "Tests evaluate each model once at a few points and mostly check that no exception is raised.",
     [S], [("evaluate_pdf, evaluate_pdf_marginal, pdf, pdf_init, marginal_pdf, marginal_pdf_init", S)],
     [("prob_type, prob_parameters, densities", "", S)], ["pdf", "marginal_pdf"])
prop("C27", "Distances between distributions are the stated functionals of their densities",
     "A distance between two sets is the stated functional (total variation, Minkowski, Euclidean, Hellinger, Kullback-Leibler or a user's) of their densities on the comparison points, normalised exactly when asked; it depends only on the two sets, the current comparison points and the arguments, not on earlier calls. "
     "Comparison points and marginal intervals chosen by default cover the ranges of both sets in every dimension, extended by the given factor on both sides.",
     ["inputs", "histories"],
     "every pair of distributions, functional, comparison set and sequence of calls",
     "Tests compare identical or one pair of sets, once per object.",
     ["bet/postProcess/compareP.py"], [("compare.set_compare_set, distance, distance_marginal, distance_marginal_quad", "bet/postProcess/compareP.py")],
     [("cached densities", "", "bet/postProcess/compareP.py")], ["return values"])
prop("C28", "Without an MPI library the serial fallback behaves like one MPI process",
     "When no MPI library can be imported, every operation of the communicator the package relies on behaves as with a single process: reductions and gathers return the caller's own contribution in the right container, broadcasts and scatters its own data, buffer operations leave the receive buffer holding the result. "
     "Every workflow then gives the same results as one MPI process.",
     ["configurations", "inputs"],
     "every communicator operation and payload, every workflow",
     "The tests call the fallback's methods once with scalars and never run a workflow without the library.",
     ["bet/Comm.py"], [("comm_for_no_mpi4py, MPI_for_no_mpi4py", "bet/Comm.py")],
     [("communicator", "", "bet/Comm.py")], ["results of workflows"])
prop("C29", "Data given in any accepted shape is stored as the same samples",
     "Values, domains and vectors given as scalars, lists, flat, column, row or transposed arrays are stored as the one sample array of the stated dimension they denote, without losing, duplicating or reordering entries; grids of vectors enumerate every combination once in row-major order, and data of an impossible shape are refused. "
     "Cleaning data replaces exactly the non-finite entries.",
     ["inputs"],
     "every accepted shape, dimension and size",
     "Tests cover one or two shapes per helper.",
     ["bet/util.py", S], [("fix_dimensions_*, meshgrid_ndim, clean_data", "bet/util.py"), ("set_values, set_domain, set_reference_value", S)],
     [("values, domain", "", S)], ["getters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
