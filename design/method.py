M = {
"C01": "`Measure!InverseProb`: P(cell) = p(bin) * vol(cell) / total volume of the bin's preimage, exact rationals; `MC_Inverse` runs the SPMD algorithm step by step under every interleaving. Recordings: `prob` on random partitions (Voronoi in three norms, boxes, Cartesian, balls), zero-probability bins, empty preimages, any distribution of samples.",
"C02": "`Measure`/`Disc`: emulated points of a bin share p(bin) equally, whatever pointers were cached before; histories of replacements and re-solves.",
"C03": "`TraceTransfer`: mass of old cells moved to the cells of a new partition through samples or emulated points; renormalisation when old cells hold no points; total conserved.",
"C04": "`Cells!Owner`: nearest sample in the p-norm, first containing half-open box, first containing ball, otherwise the outside cell; `MC_Query` models the search tree as a cache of the values (without discarding it the invariant `Fresh` fails). Points on faces and corners, k nearest, order of repeated queries.",
"C05": "`Volume`: exact lengths in 1D, polygon areas (2D), boxes and balls relative to the domain; they sum to one and follow their samples under permutation.",
"C06": "`Volume`: estimates are multiples of 1/n, sum to one, lie within six standard deviations of the exact volumes; emulated volumes are the exact counts; radii enclose the cells.",
"C07": "`SampleSet`, `Dist`: the store of global and local views of every array; balanced contiguous blocks; every operation as a transition with its refusals. `MC_Set` explores all histories within bounds and every transition is replayed.",
"C08": "`Comm`, `MC_Par`: the workflow pattern under every interleaving, with a race (no barrier after saving) and a missing reduction as failing variants. Programs of up to nine operations over the whole package are run with one and with several processes and compared result by result; logs of collectives must agree.",
"C09": "`TraceFile`: a name holds the object saved last under it; what is loaded equals it in every array of every member, for globalised and per-process files, other process counts are refused; `MC_File` shows that concurrent writers would corrupt the file.",
"C10": "`SampleSet`: append, clip, merge, copy and choose as operations on rows; input and output rows stay paired.",
"C11": "`TraceSet!Equal`: equal iff every array and attribute is equal - systematic pairs that differ in one field at a time.",
"C12": "`SampleSet!Normalise`: the affine map to the unit cube and back, exact.",
"C13": "`Disc`, `MC_Disc`: a cached pointer belongs to the versions of the sets it was computed from; replacing a set must discard it (otherwise `Fresh` fails). Histories of replacing, computing, solving.",
"C14": "`SimpleFun`: which rectangle is meant, bins and masses of regular partitions, equal-mass quadrature for random ones.",
"C15": "`Update`, `Density`: kernel densities by a tabulated exponential; ratios observed/predicted, per-cluster weights, moments of mixtures, acceptance frequencies of rejection sampling.",
"C16": "`Sampling`: numbers per process and cluster, grid points, Latin strata, ball and domain membership, marginal counts.",
"C17": "`Sampler`: the model's value of the sample in the same row, each sample evaluated once, in blocks; `MC_Sampler` shows the order-of-arrival variant to break alignment.",
"C18": "`Surrogate`: value plus Jacobian times offset on the nearest training sample's cell, exact; region probabilities and error identifiers from it.",
"C19": "`ErrorEst`: Delaunay adjacency by exact in-sphere determinants, inner and outer sets of every bin, bounds from their volumes.",
"C20": "`ErrorEst`: inverse measure with outputs corrected by the error estimates minus the original one, for contour events and regions.",
"C21": "`Gradient`: forward and central differences, exact rationals, rows aligned with centres.",
"C22": "`Gradient`: gradient of the interpolant of the named kernel in fixed point; exact on the kernel's span.",
"C23": "`OptQoI`: measure, skewness and condition number by determinants and Gram matrices in fixed point; the returned sets must be the best ones among all combinations of quantities that are not nearly parallel; `MC_OptQoI` checks that merging the processes' best loses nothing.",
"C24": "`Post!Selection`: samples taken by decreasing probability per volume until the asked mass is reached.",
"C25": "`Post`: histograms with half-open bins and closed last bin, outer product of bins; smoothing conserves mass, symmetry and centre.",
"C26": "`Pdf`: densities of all models (random variables, kernel mixtures, Gaussian mixtures, cells) and marginals; evaluation follows the current model and probabilities after any history.",
"C27": "`Compare`: total variation, norms, Hellinger, KL, Minkowski of the densities on the comparison points; independent of earlier calls; marginal intervals cover both sets.",
"C28": "`Comm!Answer` for one process; workflows of all other drivers without any MPI library recorded and compared with the installed library on one process.",
"C29": "`Shape`: what data of a shape denote, grids, cleaning, and the history of one set given data of fitting and wrong shapes (`MC_Shape`: storing before checking violates `StoredAsRows`).",
}
