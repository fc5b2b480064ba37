import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from a_core import PRE, S, P  # noqa: E402,F401
C = "bet/postProcess/compareP.py"
L = "bet/postProcess/plotP.py"
SEEDS = [
 dict(id="c01-second-solve", property="C01",
      edits=[(P, """    P_local = np.zeros((len(discretization._io_ptr_local),))
    for i in range(op_num):
        if discretization._output_probability_set._probabilities[i] > 0.0:
            Itemp = np.equal(discretization._io_ptr_local, i)
            Itemp_sum = np.sum(discretization._input_sample_set.
                               _volumes_local[Itemp])
            Itemp_sum = comm.allreduce(Itemp_sum, op=MPI.SUM)
            if Itemp_sum > 0:
                P_local[Itemp] =""", """    P_local = discretization._input_sample_set._probabilities_local
    if P_local is None or len(P_local) != len(discretization._io_ptr_local):
        P_local = np.zeros((len(discretization._io_ptr_local),))
    for i in range(op_num):
        if discretization._output_probability_set._probabilities[i] > 0.0:
            Itemp = np.equal(discretization._io_ptr_local, i)
            Itemp_sum = np.sum(discretization._input_sample_set.
                               _volumes_local[Itemp])
            Itemp_sum = comm.allreduce(Itemp_sum, op=MPI.SUM)
            if Itemp_sum > 0:
                P_local[Itemp] =""")],
      needs="the problem solved twice on the same input set, the second time with a bin of probability zero",
      breaks="cells of an impossible bin keep the probability of the earlier solve, so the total exceeds one",
      demo=PRE + """
i = mk([0., 1., 2.]); o = mk([0., 1., 2.]); i.set_volumes(np.ones(3) / 3)
p = mk([0., 1.]); p.set_probabilities(np.array([.5, .5]))
d = sample.discretization(i, o, output_probability_set=p)
calculateP.prob(d)
p.set_probabilities(np.array([1., 0.]))
calculateP.prob(d)
assert np.allclose(i.get_probabilities(), [1., 0., 0.]), i.get_probabilities()
"""),
 dict(id="c03-sum-to-one", property="C03",
      edits=[(P, """    # Set probabilities
    set_new.set_probabilities(prob_new)
""", """    # Set probabilities
    if np.sum(prob_new) > 1.0:
        prob_new = prob_new / np.sum(prob_new)
    set_new.set_probabilities(prob_new)
""", 3)],
      needs="an old measure whose total is more than one (a measure not normalised)",
      breaks="the transferred probabilities are not the sums of the old ones",
      demo=PRE + """
i = mk([0., 1., 2.]); o = mk([0., 1., 2.]); i.set_probabilities(np.array([.5, .75, .25]))
i.global_to_local()
d = sample.discretization(i, o)
n = mk([0.2, 1.9])
calculateP.prob_from_discretization_input(d, n)
assert np.allclose(n.get_probabilities(), [1.25, .25]), n.get_probabilities()
"""),
 dict(id="c04-clip-old-tree", property="C04",
      edits=[(S, """            sset.global_to_local()
        sset.set_kdtree()
        return sset
""", """            sset.global_to_local()
        if sset._kdtree is None:
            sset.set_kdtree()
        return sset
""")],
      needs="a set whose cells have been asked for, then clipped, then asked with a point nearest to a clipped sample",
      breaks="the clipped set answers with an index it does not have",
      demo=PRE + """
s = mk([0., 1., 2., 3.]); s.query(np.array([[.1]]))
c = s.clip(2)
_, ptr = c.query(np.array([[2.9], [.2]]))
assert list(np.ravel(ptr)) == [1, 0], ptr
"""),
 dict(id="c10-overlapping-domains", property="C10",
      edits=[(S, """            if not np.allclose(self._domain, sset._domain):
                msg = "These sample sets have different domains."
                raise domain_not_matching(msg)

        # create merged set
        mset = voronoi_sample_set(self._dim)
""", """            if not np.allclose(self._domain, sset._domain, rtol=1e-2):
                msg = "These sample sets have different domains."
                raise domain_not_matching(msg)

        # create merged set
        mset = voronoi_sample_set(self._dim)
""")],
      needs="two Voronoi sets whose domains differ by less than one per cent",
      breaks="sets with different domains are merged under the first one's domain",
      demo=PRE + """
a = mk([0.2], cls=sample.voronoi_sample_set); a.set_domain(np.array([[0., 1.]]))
b = mk([1.004], cls=sample.voronoi_sample_set); b.set_domain(np.array([[0., 1.005]]))
try:
    a.merge(b)
except sample.domain_not_matching:
    pass
else:
    raise AssertionError("merged")
"""),
 dict(id="c07-stale-global", property="C07",
      edits=[(S, """            current_array_local = getattr(self, array_name + "_local")
            if current_array_local is not None:
                setattr(self, array_name,
                        util.get_global_values(current_array_local))
""", """            current_array_local = getattr(self, array_name + "_local")
            if current_array_local is not None and not (
                    array_name == '_jacobians' and self._jacobians is not None):
                setattr(self, array_name,
                        util.get_global_values(current_array_local))
""")],
      needs="Jacobians globalised once, local ones changed, globalised again",
      breaks="the global Jacobians stay those of the first exchange",
      demo=PRE + """
s = mk([0., 1.]); s.set_jacobians(np.ones((2, 1, 1))); s.global_to_local()
s._jacobians_local = 3 * s._jacobians_local
s.local_to_global()
assert np.all(s.get_jacobians() == 3), s.get_jacobians()
"""),
 dict(id="c25-no-more-than-one", property="C25",
      edits=[(L, """        [marg, _] = np.histogram(sample_obj.get_values_local()[:, i],
                                 bins=bins[i], weights=sample_obj.get_probabilities_local())
        marg_temp = np.copy(marg)
        comm.Allreduce([marg, MPI.DOUBLE], [marg_temp, MPI.DOUBLE], op=MPI.SUM)
""", """        [marg, _] = np.histogram(sample_obj.get_values_local()[:, i],
                                 bins=bins[i], weights=sample_obj.get_probabilities_local())
        marg_temp = np.copy(marg)
        comm.Allreduce([marg, MPI.DOUBLE], [marg_temp, MPI.DOUBLE], op=MPI.SUM)
        marg_temp = marg_temp / max(np.sum(marg_temp), 1.0)
""")],
      needs="probabilities whose total is more than one",
      breaks="marginal probabilities do not sum to the total of the probabilities",
      demo=PRE + """
import bet.postProcess.plotP as plotP
s = mk([.1, .6, .8]); s.set_domain(np.array([[0., 1.]])); s.set_probabilities(np.array([.5, 1., .75]))
s.global_to_local()
_, m = plotP.calculate_1D_marginal_probs(s, nbins=2)
assert np.allclose(m[0], [.5, 1.75]), m
"""),
 dict(id="c27-observed-for-output", property="C27",
      edits=[(C, """                set2 = set2.get_output_sample_set()
""", """                set2 = set2.get_output_observed_set() or set2.get_output_sample_set()
""")],
      needs="output sets of a discretization compared that also has an observed set",
      breaks="the distance is to the observed data, not to the output samples",
      demo=PRE + """
import bet.postProcess.compareP as compP
def u(v):
    s = mk(v); s.set_domain(np.array([[0., 1.]])); s.set_probabilities(np.ones(len(v)) / len(v)); s.set_prob_type_init('voronoi'); s.set_prob_type('voronoi')
    s.set_volumes(np.ones(len(v)) / len(v)); s.global_to_local(); return s
o, i, obs = u([.25, .75]), u([.25, .75]), u([.1, .3])
d = sample.discretization(i, o, output_observed_set=obs)
c = compP.compare(d, d, inputs=False)
assert c.set2 is o, c.set2
"""),
]
