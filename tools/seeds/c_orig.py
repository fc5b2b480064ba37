import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from a_core import PRE, S, P  # noqa: E402,F401
R = "bet/calculateP/calculateR.py"
G = "bet/surrogates.py"
C = "bet/postProcess/compareP.py"
SEEDS = [
 dict(id="c06-remainder-points", property="C06", mpi=2,
      edits=[(S, """        vol = cvol
        vol = vol / float(n_mc_points)
        self._volumes = vol
        self.global_to_local()

    def estimate_local_volume(""", """        vol = cvol
        vol = vol / float(n_mc_points_local * comm.size)
        self._volumes = vol
        self.global_to_local()

    def estimate_local_volume(""")],
      needs="a number of points that the number of processes does not divide",
      breaks="volumes estimated together with radii do not sum to one and differ between processes",
      demo=PRE + """
np.random.seed(3)
s = mk([.2, .8]); s.set_domain(np.array([[0., 1.]]))
s.estimate_radii_and_volume(7)
assert abs(np.sum(s.get_volumes()) - 1) < 1e-12, s.get_volumes()
"""),
 dict(id="c06-summed-radii", property="C06", mpi=2,
      edits=[(S, """        comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
        rad = crad

        if normalize:
            self._normalized_radii = rad
        else:
            self._radii = rad

        self.global_to_local()
""", """        comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.SUM)
        rad = crad

        if normalize:
            self._normalized_radii = rad
        else:
            self._radii = rad

        self.global_to_local()
""")],
      needs="two or more processes",
      breaks="estimated radii are the sums of the processes' farthest distances",
      demo=PRE + """
np.random.seed(3)
s = mk([.2, .8]); s.set_domain(np.array([[0., 1.]]))
s.estimate_radii(2000)
assert np.all(s._normalized_radii <= .3 + 1e-12), s._normalized_radii
"""),
 dict(id="c15-first-weights", property="C15",
      edits=[(R, """                    weights = predict_set.get_weights_init()[predict_pointer]
                    predict_kdes.append(gaussian_kde(predict_set.get_values()[""", """                    weights = predict_set.get_weights_init()[:len(predict_pointer)]
                    predict_kdes.append(gaussian_kde(predict_set.get_values()[""")],
      needs="initial weights that differ, and several clusters without cluster maps",
      breaks="the predicted density of a cluster uses other samples' initial weights",
      demo=PRE + """
import bet.calculateP.calculateR as R
from scipy.stats import gaussian_kde
x = np.array([0., 1., 3., 0., 1., 2.])
i = mk([0., 1., 2., 5., 7., 8.]); o = mk(x); o.set_region(np.array([1, 0, 1, 0, 1, 0]))
w = np.array([1., 2., 3., 9., 5., 4.]); o.set_weights_init(w)
b = mk([0., 1., 2., 2., 2., 5., 6.5]); b.set_region(np.array([0, 0, 0, 1, 1, 1, 1]))
rs, r, ptr = R.invert(sample.discretization(i, o, output_observed_set=b))
k = [1, 3, 5]
want = gaussian_kde(np.array([0., 1., 2.]))(x[k]) / gaussian_kde(x[k], weights=w[k])(x[k])
assert np.allclose(r[0], want), (r[0], want)
"""),
 dict(id="c15-empty-cluster-weights", property="C15",
      edits=[(R, """        cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
    for i in range(input_dim):""", """        cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) /
                               np.sum(obs_set.get_region() < num_clusters))
    for i in range(input_dim):""")],
      needs="observations in clusters that no predicted sample belongs to",
      breaks="the kernel update's cluster weights are not the shares of the observations",
      demo=PRE + """
import bet.calculateP.calculateR as R
i = mk([0., 1., 2.]); o = mk([0., 1., 3.]); o.set_region(np.array([0, 0, 0]))
b = mk([0., 1., 2., 5.]); b.set_region(np.array([0, 0, 0, 1]))
m, w = R.invert_to_kde(sample.discretization(i, o, output_observed_set=b))
assert np.allclose(w, [.75]), w
"""),
 dict(id="c18-largest-error", property="C18", mpi=2,
      edits=[(G, "                error_id[i] = comm.allreduce(error_id_sum, op=MPI.SUM)", "                error_id[i] = comm.allreduce(error_id_sum, op=MPI.MAX)")],
      needs="two or more processes that hold new inputs owned by the same training sample",
      breaks="a training sample receives only one process's part of the error",
      demo=PRE + """
import bet.surrogates as G
i = mk([0., 1.]); i.set_domain(np.array([[-.5, 1.5]])); o = mk([0., 1.])
o.set_error_estimates(np.array([[.7], [-.7]]))
p = mk([0., 1.]); p.set_probabilities(np.array([.25, .75]))
d = sample.discretization(i, o, output_probability_set=p)
g = G.piecewise_polynomial_surrogate(d)
n = mk([-.4, .1, .2, .9, 1.1, 1.3, .3, .8]); n.set_domain(np.array([[-.5, 1.5]])); n.set_volumes(np.ones(8) / 8)
r = g.generate_for_input_set(n, order=0)
s = mk([0., 1.]); s.set_region(np.array([0, 1]))
g.calculate_prob_for_sample_set_region(s, regions=[0], update_input=True)
e = sample.comm.allreduce(np.sum(r.get_input_sample_set()._error_id_local))
assert abs(e) > 1e-8 and np.allclose(np.sum(i._error_id), e), (i._error_id, e)
"""),
 dict(id="c27-marginal-one-sided", property="C27",
      edits=[(C, "                x = np.linspace(min1 - delt, max1 + delt, num_points)\n        else:", "                x = np.linspace(min1, max1 + delt, num_points)\n        else:")],
      needs="marginals compared on the range of the values, extended by a positive factor",
      breaks="the interval is extended above the ranges of the sets only",
      demo=PRE + """
import bet.postProcess.compareP as C
a = mk([0., 1.]); b = mk([0., 2.])
seen = []
for s in (a, b):
    s.marginal_pdf = lambda x, i: (seen.append(np.array(x)), np.ones(len(x)))[1]
c = C.compare(a, b)
c.distance_marginal(0, compare_factor=.5)
assert np.isclose(seen[0].min(), -1.) and np.isclose(seen[0].max(), 3.), (seen[0].min(), seen[0].max())
"""),
 dict(id="c27-half-bounded", property="C27",
      edits=[(C, """                if min1 != -np.inf and max1 != np.inf:
                    delt = compare_factor * (max1 - min1)
                    interval =""", """                if min1 != -np.inf or max1 != np.inf:
                    delt = compare_factor * (max1 - min1)
                    interval =""")],
      needs="sets whose domain is bounded on one side only, compared by quadrature",
      breaks="the default interval is not finite and the distance is not a number",
      demo=PRE + """
import bet.postProcess.compareP as C
a = mk([0., 1.]); b = mk([0., 2.])
for s, l in ((a, 1.), (b, 2.)):
    s.set_domain(np.array([[0., np.inf]]))
    s.marginal_pdf = lambda x, i, l=l: np.where(np.asarray(x) < l, 1. / l, 0.)
c = C.compare(a, b)
v = c.distance_marginal_quad(0)
assert np.isfinite(v) and v > .1, v
"""),
]
