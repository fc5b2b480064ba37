S = "bet/sample.py"
E = "bet/calculateP/calculateError.py"
PRE = """
import numpy as np, logging
logging.disable(50)
import bet.sample as sample
from bet.Comm import comm
def mk(v, dim=1, cls=sample.sample_set):
    s = cls(dim); s.set_values(np.array(v, dtype=float).reshape(-1, dim)); return s
"""
SEEDS = [
 dict(id="c08-skip-empty", property="C08", mpi=2,
      edits=[(E, """                indices = np.equal(disc._io_ptr, i)
                in_Ai = indices[disc._emulated_ii_ptr_local]
                # sum1""", """                indices = np.equal(disc._io_ptr, i)
                in_Ai = indices[disc._emulated_ii_ptr_local]
                if in_Ai.size > 0 and not np.any(in_Ai):
                    continue
                # sum1"""),
             (E, """                sum1 = np.sum(np.logical_and(in_A, in_Ai))
                # sum2 :math:`\\mu_{\\Lambda}(A_{i,N})`
                sum2 = np.sum(in_Ai)
                sum1 = comm.allreduce(sum1, op=MPI.SUM)
                sum2 = comm.allreduce(sum2, op=MPI.SUM)
""", """                sum1 = comm.allreduce(np.sum(np.logical_and(in_A, in_Ai)), op=MPI.SUM)
                # sum2 :math:`\\mu_{\\Lambda}(A_{i,N})`
                sum2 = comm.allreduce(np.sum(in_Ai), op=MPI.SUM)
""")],
      needs="two or more processes, one of which holds no emulated point in the preimage of a bin",
      breaks="that process skips collective operations the others wait in",
      demo=PRE + """
import bet.calculateP.calculateError as calculateError
import signal
signal.alarm(60)
i = mk([0., 1., 2., 3., 4., 5.]); o = mk([0., 0., 0., 1., 1., 1.])
p = mk([0., 1.]); p.set_probabilities(np.array([.5, .5]))
e = mk([0., .1, 1., 3., 4., 5.])
d = sample.discretization(i, o, output_probability_set=p, emulated_input_sample_set=e)
d.set_io_ptr()
r = mk([0., 1., 4.]); r.set_region(np.array([0, 1, 1]))
x = calculateError.sampling_error(d).calculate_for_sample_set_region(r, 0)
y = comm.allgather(x)
assert np.allclose(y, [(0., -1 / 12.)] * comm.size), y
"""),
 dict(id="c09-part-of-the-files", property="C09", mpi=2,
      edits=[("bet/util.py", "    if len(files) == comm.size:", "    if len(files) >= comm.size:")],
      needs="files saved by more processes than load them",
      breaks="a part of the saved samples is loaded as if it were all of them",
      demo=PRE + """
import bet.util as util, os, shutil
s = sample.sample_set(1); s.set_values_local(np.array([[float(comm.rank)]]))
util.save_object(s, os.getcwd() + '/f', globalize=False)
if comm.rank == 0:
    shutil.copy(os.getcwd() + '/proc0_f.p', os.getcwd() + '/proc2_f.p')
comm.barrier()
try:
    util.load_object(os.getcwd() + '/f')
except sample.dim_not_matching:
    pass
else:
    raise AssertionError('three files loaded by two processes')
"""),
 dict(id="c13-pointer-kept", property="C13",
      edits=[(S, """            if output_probability_set._values is not None:
                self.set_io_ptr(globalize=False)""", """            if output_probability_set._values is not None and \\
                    self._output_sample_set._values is None:
                self.set_io_ptr(globalize=False)"""),
             (S, """        else:
            self._io_ptr = None

    def get_io_ptr(self):""", """
    def get_io_ptr(self):"""),
             (S, """        self._discard_ptrs('_io_ptr', '_emulated_oo_ptr')
""", """        self._emulated_oo_ptr = None
        self._emulated_oo_ptr_local = None
        self._io_ptr_local = None
""")],
      needs="a discretization whose pointers were computed before its output probability is replaced",
      breaks="the global pointer still names bins of the replaced output probability",
      demo=PRE + """
i = mk([0., 1., 2.]); o = mk([0., 1., 2.])
a = mk([0., 2.]); a.set_probabilities(np.array([.5, .5]))
b = mk([2., 0.]); b.set_probabilities(np.array([.25, .75]))
o2 = mk([0.2, 1.4, 2.])
d = sample.discretization(i, o2, output_probability_set=a)
d.set_io_ptr()
d.set_output_probability_set(b)
import bet.calculateP.calculateP as calculateP
i.set_volumes(np.ones(3) / 3)
calculateP.prob(d)
d.globalize_ptrs()
assert list(d.get_io_ptr()) == [1, 0, 0], d.get_io_ptr()
"""),
 dict(id="c14-bounding-corner", property="C14",
      edits=[("bet/calculateP/simpleFunP.py", """    domain_center = np.mean(rect_domain, 0)
    domain_lengths = np.max(rect_domain, 0) - np.min(rect_domain, 0)

    return regular""", """    domain_lengths = np.max(rect_domain, 0) - np.min(rect_domain, 0)
    domain_center = rect_domain[0] + .5 * domain_lengths

    return regular""")],
      needs="a rectangle given with its upper corner first in some coordinate",
      breaks="the uniform distribution is placed beside the stated rectangle",
      demo=PRE + """
import bet.calculateP.simpleFunP as F
d = mk([[0., 0.], [1., 1.]], 2)
s = F.regular_partition_uniform_distribution_rectangle_domain(d, np.array([[1., 0.], [0., 2.]]), [2, 2])
assert np.allclose(s._left[:-1].min(0), [0., 0.]) and np.allclose(s._right[:-1].max(0), [1., 2.]), (s._left, s._right)
"""),
 dict(id="c16-remainder", property="C16", mpi=2,
      edits=[("bet/sampling/basicSampling.py", """    num_samples_local = int((num_samples / comm.size) +
                            (comm.rank < num_samples % comm.size))

    input_values_local""", """    num_samples_local = int((num_samples / comm.size) +
                            (comm.rank > num_samples % comm.size))

    input_values_local""")],
      needs="a number of samples that is not a multiple of the number of processes",
      breaks="fewer samples than requested",
      demo=PRE + """
import bet.sampling.basicSampling as B
s = B.random_sample_set('uniform', 1, 7)
assert s.check_num() == 7, s.check_num()
"""),
 dict(id="c17-first-set-stays", property="C17",
      edits=[("bet/sampling/basicSampling.py", """        if input_sample_set is not None:
            self.input_sample_set = input_sample_set
""", """        if self.input_sample_set is None:
            self.input_sample_set = input_sample_set
""")],
      needs="a sampler evaluated on a second input set after it made or evaluated a first one",
      breaks="the outputs are those of the first input set",
      demo=PRE + """
import bet.sampling.basicSampling as B
m = B.sampler(lambda x: 2. * x)
m.regular_sample_set(1, 3)
d = m.compute_qoi_and_create_discretization(mk([5., 7.]))
assert np.allclose(d.get_output_sample_set().get_values().ravel(), [10., 14.])
"""),
 dict(id="c19-isolated-cells", property="C19",
      edits=[(E, "                    val4 = np.sum(lam_vol[self.C_N[i]])", "                    val4 = np.sum(lam_vol)")],
      needs="a cell of a bin none of whose neighbours map to that bin",
      breaks="the upper bound for the contour event counts cells outside the outer set",
      demo=PRE + """
import bet.calculateP.calculateError as calculateError
i = mk([0., 1., 2., 3., 4., 5.]); o = mk([0., 0., 0., 1., 0., 1.]); i.set_volumes(np.ones(6) / 6)
p = mk([0., 1.]); p.set_probabilities(np.array([1., 0.]))
d = sample.discretization(i, o, output_probability_set=p); d.set_io_ptr()
up, lo = calculateError.sampling_error(d).calculate_for_contour_events()
assert np.allclose(up[0], 3 / 2. - 1), up
"""),
 dict(id="c20-signed-errors", property="C20",
      edits=[(E, """            _output_sample_set._error_estimates_local
""", """            _output_sample_set._error_estimates_local.clip(0)
""")],
      needs="error estimates of negative sign that move an output to another bin",
      breaks="outputs are not corrected downwards",
      demo=PRE + """
import bet.calculateP.calculateError as calculateError
i = mk([0., 1., 2., 3.]); o = mk([0., 0., 1., 1.])
o.set_error_estimates(np.array([[0.], [0.], [-.8], [0.]]))
p = mk([0., 1.]); p.set_probabilities(np.array([.5, .5]))
d = sample.discretization(i, o, output_probability_set=p); d.set_io_ptr()
r = mk([0., 3.]); r.set_region(np.array([0, 1]))
x = calculateError.model_error(d).calculate_for_sample_set_region_mc(r, 0)
assert abs(x - 1 / 6.) < 1e-12, x
"""),
 dict(id="c21-one-radius", property="C21",
      edits=[("bet/sensitivity/gradients.py", """    radii_vec = np.tile(np.repeat(radii_vec, output_dim, axis=1), [num_centers,
                                                                   1])

    # Compute the gradient vectors using the standard FFD stencil""", """    radii_vec = np.repeat(np.tile(radii_vec, [num_centers, 1]), output_dim, axis=1)
    radii_vec = np.maximum(radii_vec, np.finfo(np.float32).eps)

    # Compute the gradient vectors using the standard FFD stencil""")],
      needs="a forward stencil of very small radius",
      breaks="difference quotients are divided by another step than the stencil's",
      demo=PRE + """
import bet.sensitivity.gradients as G
c = mk([[0., 0.]], 2)
s = G.pick_ffd_points(c, 2. ** -24)
o = mk(s.get_values() @ np.array([[3.], [5.]]))
d = G.calculate_gradients_ffd(sample.discretization(s, o), normalize=False)
assert np.allclose(d.get_input_sample_set().get_jacobians(), [[[3., 5.]]]), d.get_input_sample_set().get_jacobians()
"""),
 dict(id="c22-shape-parameter", property="C22",
      edits=[("bet/sensitivity/gradients.py", "        rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3",
              "        rbfdxi = -(ep * xi * np.exp(-ep * r) * (ep * r + 1)) / 3")],
      needs="the C4 Matern kernel with a shape parameter other than one",
      breaks="the gradient is scaled by the inverse of the shape parameter",
      demo=PRE + """
import bet.sensitivity.gradients as G
h = 1e-5; x = .7
f = lambda t: G.radial_basis_function(abs(t), 'C4Matern', 2.)
assert abs((f(x + h) - f(x - h)) / (2 * h) - G.radial_basis_function_dxi(x, x, 'C4Matern', 2.)) < 1e-6
"""),
 dict(id="c23-chain", property="C23",
      edits=[("bet/sensitivity/chooseQoIs.py", "        if curr_set[0] not in repeat_vec and curr_set[1] not in repeat_vec:",
              "        if curr_set[1] not in repeat_vec:")],
      needs="three quantities, the first and third each nearly parallel to the second but not to one another",
      breaks="a quantity is excluded for being parallel to one that is itself excluded",
      demo=PRE + """
import bet.sensitivity.chooseQoIs as C
s = sample.sample_set(2)
a = np.radians([0., 20., 40.])
s.set_jacobians(np.array([np.stack([np.cos(a), np.sin(a)], 1)]))
s.set_values(np.zeros((1, 2)))
u = sorted(int(x) for x in C.find_unique_vecs(s, np.cos(np.radians(30.))))
assert u == [0, 2], u
"""),
 dict(id="c24-sum-rounding", property="C24",
      edits=[("bet/postProcess/postTools.py", "        indices = indices[::-1]\n", "        indices = indices[::-1].copy()\n        indices.sort()\n") if False else
             ("bet/postProcess/postTools.py", "    P_sum = np.cumsum(P_samples)\n", "    P_sum = np.cumsum(P_samples / np.sum(P_samples))\n")],
      needs="probabilities that do not sum to one (a set with probability outside, or a subset)",
      breaks="the selection measures percentiles of the selected set instead of probability",
      demo=PRE + """
import bet.postProcess.postTools as T
s = mk([0., 1., 2.]); s.set_probabilities(np.array([.25, .125, .125])); s.set_volumes(np.ones(3) / 3)
n, t, i = T.sample_highest_prob(.375, s)
assert n == 2, n
"""),
 dict(id="c25-augment", property="C25",
      edits=[("bet/postProcess/plotP.py", "        augy = int(math.ceil(3 * sigma[j] / dy))", "        augy = int(math.ceil(3 * sigma[i] / dy))")],
      needs="a two-dimensional marginal smoothed with a much larger bandwidth along the second axis than along the first",
      breaks="probability is wrapped around the second axis",
      demo=PRE + """
import bet.postProcess.plotP as P
b = [np.linspace(0, 1, 5), np.linspace(0, 1, 11)]
m = np.zeros((4, 10)); m[1, 0] = 1.
x = P.smooth_marginals_2D({(0, 1): m}, b, sigma=[.01, .2])[(0, 1)]
assert x[1, 9] < 1e-6, x[1]
"""),
 dict(id="c26-variance-of-first", property="C26",
      edits=[(S, "scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]", "scale=(covs[j][0, 0] ** 0.5)) * cluster_weights[j]")],
      needs="a mixture whose variances differ between coordinates and the marginal of a later coordinate",
      breaks="the marginal density has the first coordinate's variance",
      demo=PRE + """
s = mk([[0., 0.]], 2); s.set_prob_type('gmm')
s.set_prob_parameters(([np.array([0., 0.])], [np.array([[1., 0.], [0., 4.]])], [1.]))
assert abs(s.marginal_pdf(np.array([0.]), 1)[0] - 1 / np.sqrt(2 * np.pi * 4)) < 1e-12
"""),
 dict(id="c29-reshaped-data", property="C29",
      edits=[("bet/util.py", "        return data.transpose()\n", "        return data.reshape(-1, dim) if data.size % dim == 0 else data.transpose()\n")],
      needs="several samples given as columns",
      breaks="the coordinates of different samples are mixed",
      demo=PRE + """
s = sample.sample_set(2); s.set_values(np.array([[1., 2., 3.], [4., 5., 6.]]))
assert np.array_equal(s.get_values(), [[1., 4.], [2., 5.], [3., 6.]]), s.get_values()
"""),
 dict(id="c28-array-sums", property="C28",
      edits=[("bet/Comm.py", """        return val1

    def bcast(""", """        return val1.sum() if hasattr(val1, 'sum') else val1

    def bcast(""")],
      needs="no MPI library and an array reduced over all processes",
      breaks="the array is replaced by the sum of its entries",
      demo=PRE + """
import bet.Comm as C
assert np.array_equal(C.comm_for_no_mpi4py().allreduce(np.array([1., 2.])), [1., 2.])
"""),
]
