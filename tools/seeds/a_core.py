S = "bet/sample.py"
P = "bet/calculateP/calculateP.py"
U = "bet/util.py"
PRE = """
import numpy as np, logging
logging.disable(50)
import bet.sample as sample
import bet.calculateP.calculateP as calculateP
from bet.Comm import comm
def mk(v, dim=1, cls=sample.sample_set):
    s = cls(dim); s.set_values(np.array(v, dtype=float).reshape(-1, dim)); return s
"""
SEEDS = [
 dict(id="c01-small-preimage", property="C01",
      edits=[(P, """            if Itemp_sum > 0:
                P_local[Itemp] =""", """            if Itemp_sum > 1e-6:
                P_local[Itemp] =""")],
      needs="a bin whose preimage has a very small total volume",
      breaks="the bin's probability is lost instead of being spread over its tiny preimage",
      demo=PRE + """
i = mk([0., 1., 2.]); o = mk([0., 1., 5.])
i.set_volumes(np.array([1 - 4e-8, 1e-8, 3e-8]))
p = sample.rectangle_sample_set(1); p.setup([[.5], [6.]], [[-1.], [.5]]); p.set_probabilities(np.array([.25, .75, 0.]))
d = sample.discretization(i, o, output_probability_set=p)
calculateP.prob(d)
assert np.allclose(i.get_probabilities(), [.25, .1875, .5625]), i.get_probabilities()
"""),
 dict(id="c02-count-per-process", property="C02", mpi=2,
      edits=[(P, """            Itemp_sum = np.sum(Itemp)
            Itemp_sum = comm.allreduce(Itemp_sum, op=MPI.SUM)
            if Itemp_sum > 0:
                P[Itemp] =""", """            Itemp_sum = np.sum(Itemp)
            if Itemp_sum > 0:
                P[Itemp] =""")],
      needs="two or more processes whose emulated points fall in the same bin",
      breaks="each process divides a bin's probability by its own number of points, so the total exceeds one",
      demo=PRE + """
i = mk([0., 1.]); o = mk([0., 1.])
p = mk([0., 1.]); p.set_probabilities(np.array([.5, .5]))
e = mk([0.1, .9, .2, .8])
d = sample.discretization(i, o, output_probability_set=p, emulated_input_sample_set=e)
calculateP.prob_on_emulated_samples(d)
assert np.allclose(e.get_probabilities(), [.25] * 4), e.get_probabilities()
"""),
 dict(id="c03-last-cell-decides", property="C03",
      edits=[(P, """                prob_em[Itemp] += set_old._probabilities[i] / float(Itemp_sum)
            else:
                warn = True""", """                prob_em[Itemp] += set_old._probabilities[i] / float(Itemp_sum)
            warn = Itemp_sum == 0""")],
      needs="an old cell of positive probability without emulated points that is not the last such cell",
      breaks="the transferred probability is not renormalised and sums to less than one",
      demo=PRE + """
a = mk([0., 1., 2.]); a.set_probabilities(np.array([.25, .25, .5]))
b = mk([0., 2.]); e = mk([0., 1.9, 2.])
r = calculateP.prob_from_sample_set_with_emulated_volumes(a, b, e)
assert np.allclose(r, [1/3., 2/3.]), r
"""),
 dict(id="c04-lower-face-closed", property="C04",
      edits=[(S, "in_l = np.all(np.greater(x, self._left[i, :]), axis=1)", "in_l = np.all(np.greater_equal(x, self._left[i, :]), axis=1)")],
      needs="a point exactly on the lower face of a box that is listed before the box it belongs to",
      breaks="boundary points are given to the wrong box",
      demo=PRE + """
s = sample.rectangle_sample_set(1); s.setup([[2.], [1.]], [[1.], [0.]])
_, p = s.query(np.array([[1.]]))
assert p[0] == 1, p
"""),
 dict(id="c07-uneven-blocks", property="C07", mpi=3,
      edits=[(S, """        self._local_index = np.array_split(global_index, comm.size)[comm.rank]
""", """        step = -(-num // comm.size)
        self._local_index = global_index[comm.rank*step:(comm.rank + 1)*step]
"""),
             (S, """                        np.array_split(current_array, comm.size)[comm.rank])
""", """                        current_array[comm.rank*step:(comm.rank + 1)*step])
""")],
      needs="three processes and a number of samples not divisible by three",
      breaks="block sizes differ by more than one; the last process can be left with too few rows",
      demo=PRE + """
s = mk(range(7)); s.global_to_local()
n = comm.allgather(s.get_values_local().shape[0])
assert sum(n) == 7 and max(n) - min(n) <= 1, n
"""),
 dict(id="c05-right-reflection", property="C05",
      edits=[(S, """        add_points = np.greater(self._values[:, 1],
                                self._domain[1][1] -
                                side_ratio * (self._domain[1][1] -
                                              self._domain[1][0]))""", """        add_points = np.greater(self._values[:, 1],
                                self._domain[1][1] -
                                side_ratio * (self._domain[0][1] -
                                              self._domain[0][0]))""")],
      needs="a domain much taller than wide, so that samples near the upper side are no longer reflected",
      breaks="cells touching the upper side get a wrong volume",
      demo=PRE + """
s = mk([[x, y] for x in (.2, .8) for y in (1., 3., 5., 7.)], 2)
s.set_domain(np.array([[0., 1.], [0., 8.]])); s.exact_volume_2D()
assert np.allclose(s.get_volumes(), .125), s.get_volumes()
"""),
 dict(id="c10-choose-order", property="C10",
      edits=[(S, """                nval = nval.take(outputs, axis=1)
                nval = nval.take(inputs, axis=2)""", """                nval = nval.take(sorted(outputs), axis=1)
                nval = nval.take(inputs, axis=2)""")],
      needs="outputs chosen in non-increasing order on a set with Jacobians",
      breaks="the rows of the Jacobians no longer belong to the chosen outputs",
      demo=PRE + """
i = mk(range(4), 2); o = mk(range(6), 3)
J = np.arange(12.).reshape(2, 3, 2); i.set_jacobians(J)
d = sample.discretization(i, o).choose_inputs_outputs([1, 0], [2, 0])
assert np.all(d.get_input_sample_set().get_jacobians() == J[:, [2, 0]][:, :, [1, 0]])
"""),
 dict(id="c12-undo-left", property="C12",
      edits=[(S, """                         self._domain_original[:, 0])
                    setattr(self, obj, val)

            shift_list = ['_values', '_values_local',
                          '_error_estimates', '_error_estimates_local',
                          '_left', '_left_local',
                          '_right', '_right_local', '_reference_value']""", """                         self._domain_original[:, 0])
                    setattr(self, obj, val)

            shift_list = ['_values', '_values_local',
                          '_error_estimates', '_error_estimates_local',
                          '_left', '_left_local',
                          '_right', '_reference_value']""")],
      needs="a set with local bounds that is normalised and restored",
      breaks="the local upper bounds stay in unit coordinates after undoing",
      demo=PRE + """
s = mk([1., 2.]); s.set_domain(np.array([[0., 4.]])); s.global_to_local(); s.update_bounds_local()
r = s._right_local.copy(); s.normalize_domain(); s.undo_normalize_domain()
assert np.allclose(s._right_local, r), s._right_local
"""),
 dict(id="c11-lengths", property="C11",
      edits=[(S, "    meta_fields = ['_bounding_box', '_densities', '_densities_local',", "    meta_fields = ['_bounding_box', '_densities',")],
      needs="two sets that differ only in their local densities",
      breaks="unequal sets compare equal",
      demo=PRE + """
a = mk([1., 2.]); b = a.copy(); b.set_densities_local(np.array([1., 2.]))
assert not (a == b)
"""),
]
