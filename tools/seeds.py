"""Planted bugs: edits, demonstrations.  python3 tools/seeds.py [ids...] writes and confirms /verif/seeded/<id>/."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"
SS = "sawatabi/solver/sawatabi_solver.py"
OS = "sawatabi/solver/optigan_solver.py"
CO = "sawatabi/model/constraint/"
S = {}


def seed(i, prop, edits, demo, needs, breaks):
    S[i] = (prop, edits, textwrap.dedent(demo), needs, breaks)


seed("s01_add_timestamp_zero", "C01", [(LM, """            raise ValueError("'target' must be specified.")
        if timestamp is None:
            timestamp = current_time()
""", """            raise ValueError("'target' must be specified.")
        if not timestamp:
            timestamp = current_time()
""")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0, timestamp=0)
assert m._interactions_array["timestamp"] == [0], m._interactions_array["timestamp"]
""", "an interaction added with an explicit timestamp of 0", "the given timestamp is replaced by the current time")

seed("s02_small_coefficient", "C02", [(LM, """        for k, v in quadratic.items():
            if v != 0.0:
""", """        for k, v in quadratic.items():
            if abs(v) > 1e-6:
""")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=2.0 ** -24)
p = m.to_physical()
assert p._raw_interactions[2] == {("x[0]", "x[1]"): 2.0 ** -24}, p._raw_interactions
""", "a pair whose summed coefficient is tiny but not zero", "the pair disappears from the physical model")

seed("s03_nhot_n_larger", "C09", [(CO + "n_hot_constraint.py", "coeff = -1.0 * self._strength * (1 - 2 * self._n)", "coeff = -1.0 * self._strength * (1 - 2 * min(self._n, len(self._variables)))")], """
import pyqubo
from sawatabi.model.constraint import NHotConstraint
c = NHotConstraint(variables=[pyqubo.Binary("a")], n=3, strength=1.0)
m = c.to_model()
assert m._interactions_array["coefficient"] == [5.0], m._interactions_array["coefficient"]
""", "an n-hot constraint with n larger than the number of its variables", "the penalty polynomial")

seed("s04_constraint_alias", "C10", [(CO + "n_hot_constraint.py", "self._variables = self._variables.union(variables_set)", "self._variables |= variables_set")], """
import pyqubo
from sawatabi.model.constraint import NHotConstraint
mine = {pyqubo.Binary("a")}
c = NHotConstraint(variables=mine, n=1)
c.add_variable(pyqubo.Binary("b"))
assert len(mine) == 1 and len(c.get_variables()) == 2, mine
""", "a constraint built from a set, then add_variable", "the caller's set is modified")

seed("s05_optigan_order", "C15", [(OS, "sample = dict(zip(list(model._index_to_label.values()), spins))", "sample = dict(zip(sorted(model._label_to_index), spins))")], """
import json, requests
from sawatabi.model import LogicalModel
from sawatabi.solver import OptiganSolver
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(11,))
for i in range(11):
    m.add_interaction(x[i], coefficient=1.0)
p = m.to_physical()
def send(self, req, **k):
    r = requests.models.Response(); r.status_code = 200
    r._content = json.dumps({"spins": [[0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0]], "energies": [-1.0]}).encode(); return r
requests.sessions.Session.send = send
s = OptiganSolver(endpoint="http://localhost/", token="t").solve(p)
d = dict(s.first.sample)
assert [k for k in d if d[k]] == ["x[2]"], d
""", "more than ten variables, so that label order and numbering differ", "spin values are assigned to the wrong variables")

seed("s06_stream_sampleset_state", "C17", [(AA, """            # Solve and unmap to the solution
            try:
                sampleset = solve_fn(""", """            # Hold only the latest sampleset
            sampleset_state.clear()

            # Solve and unmap to the solution
            try:
                sampleset = solve_fn("""), (AA, """            # Register new sampleset to the state
            sampleset_state.clear()
            sampleset_state.add(sampleset)
""", """            # Register new sampleset to the state
            sampleset_state.add(sampleset)
""")], """
import os, sys
from apache_beam.utils.timestamp import Timestamp
from sawatabi.algorithm import Window
from sawatabi.model import LogicalModel
class Bag:
    def __init__(self): self.v = []
    def read(self): return iter(list(self.v))
    def add(self, x): self.v.append(x)
    def clear(self): self.v = []
b = [Bag() for _ in range(4)]
def step(t, solve):
    return list(Window.SolveDoFn().process((None, [(t, (0, 1))]), timestamp=Timestamp(t), timestamp_state=b[0], elements_state=b[1], model_state=b[2], sampleset_state=b[3], algorithm="window", algorithm_options={}, map_fn=lambda *a: LogicalModel(mtype="ising"), solve_fn=solve, unmap_fn=lambda *a: "ok", solver=None))
step(1.0, lambda *a: "first")
def boom(*a): raise RuntimeError("x")
out = step(2.0, boom)
assert len(out) == 1 and "solve" in out[0]
assert b[3].v == ["first"], b[3].v
""", "a window whose solving fails after an earlier window was solved", "the sample set of the last successful step is lost")

seed("s07_fix_two_on_pair", "C06", [(LM, """new_name = f"{interacts_to.label} (before fixed: {s})\"""", """new_name = f"{interacts_to.label} (before fixed: {target.label})\"""")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), name="p", coefficient=1.0)
m.add_interaction((x[0], x[1]), name="q", coefficient=2.0)
m.fix_variable(x[0], 1)
p = m.to_physical()
assert p._raw_interactions[1] == {"x[1]": 3.0}, p._raw_interactions
""", "two live interactions on the same pair, one end of which is fixed", "fixing fails half way and loses energy terms")

seed("s08_incoming_same_time", "C16", [(AA, "if v[0] <= prev_elements[-1][0]:", "if v[0] < prev_elements[-1][0]:")], """
from apache_beam.utils.timestamp import Timestamp
from sawatabi.algorithm import Window
from sawatabi.model import LogicalModel
class Bag:
    def __init__(self): self.v = []
    def read(self): return iter(list(self.v))
    def add(self, x): self.v.append(x)
    def clear(self): self.v = []
b = [Bag() for _ in range(4)]
seen = []
def step(t, els):
    return list(Window.SolveDoFn().process((None, els), timestamp=Timestamp(t), timestamp_state=b[0], elements_state=b[1], model_state=b[2], sampleset_state=b[3], algorithm="window", algorithm_options={}, map_fn=lambda m, s, e, i, o: (seen.append((i, o)), LogicalModel(mtype="ising"))[1], solve_fn=lambda *a: 1, unmap_fn=lambda *a: "ok", solver=None))
step(1.0, [(1.0, (0, 5))])
step(2.0, [(1.0, (0, 5)), (2.0, (1, 6))])
assert seen[1][0] == [(2.0, (1, 6))], seen
""", "overlapping windows sharing their newest element", "an old element is reported as incoming")

seed("s09_optigan_status", "C14", [(OS, "if response.status_code != 200:", "if response.status_code >= 300:")], """
import json, requests
from sawatabi.model import LogicalModel
from sawatabi.solver import OptiganSolver
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(1,))
m.add_interaction(x[0], coefficient=1.0)
p = m.to_physical()
def send(self, req, **k):
    r = requests.models.Response(); r.status_code = 202
    r._content = json.dumps({"spins": [[0]], "energies": [-1.0]}).encode(); return r
requests.sessions.Session.send = send
try:
    OptiganSolver(endpoint="http://localhost/", token="t").solve(p)
except ValueError:
    pass
else:
    raise SystemExit("202 accepted")
""", "a response with a success status other than 200", "a response that is not a result is accepted")

seed("s10_eq_fixed", "C22", [(LM, """            and (self._deleted == other._deleted)
            and (self._fixed == other._fixed)
""", """            and (len(self._deleted) == len(other._deleted))
            and (self._fixed == other._fixed)
""")], """
from sawatabi.model import LogicalModel
def mk(i):
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(2,))
    m.delete_variable(x[i])
    return m
assert mk(0) != mk(1)
assert mk(0) == LogicalModel.__new__(LogicalModel) if False else True
""", "two models that differ only in which variable was deleted", "models with different deleted sets compare equal")

seed("s11_list_check_first", "C20", [("sawatabi/base_mixin.py", """                raise TypeError(f"All elements in list '{name}' must be one of {atypestr}.")
""", """                raise TypeError(f"All elements in list '{name}' must be one of {atypestr}.")
            if len(values) > 4:
                break
""")], """
from sawatabi.base_mixin import BaseMixin
try:
    BaseMixin._check_argument_type_in_list("v", [1, 2, 3, 4, "5"], int)
except TypeError:
    pass
else:
    raise SystemExit("accepted")
""", "a list of more than four elements with a bad one after the first", "elements of the wrong type are accepted")

seed("s12_attenuation_equal", "C18", [(AA, """                        model._interactions_array["scale"][i] = new_scale
""", """                        model._interactions_array["scale"][i] = new_scale
                else:
                    model._interactions_array["scale"] = [1.0] * len(ref_timestamp)
""")], """
from apache_beam.utils.timestamp import Timestamp
from sawatabi.algorithm import Window
from sawatabi.model import LogicalModel
class Bag:
    def __init__(self): self.v = []
    def read(self): return iter(list(self.v))
    def add(self, x): self.v.append(x)
    def clear(self): self.v = []
b = [Bag() for _ in range(4)]
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0, scale=0.5, timestamp=3)
m.add_interaction(x[1], coefficient=1.0, scale=0.5, timestamp=3)
list(Window.SolveDoFn().process((None, [(1.0, (0, 1))]), timestamp=Timestamp(1), timestamp_state=b[0], elements_state=b[1], model_state=b[2], sampleset_state=b[3], algorithm="attenuation", algorithm_options={"attenuation.key": "timestamp", "attenuation.min_scale": 0.1}, map_fn=lambda *a: m, solve_fn=lambda *a: 1, unmap_fn=lambda *a: "ok", solver=None))
assert m._interactions_array["scale"] == [0.5, 0.5], m._interactions_array["scale"]
""", "an attenuation step in which all reference timestamps are equal", "scales are overwritten")

seed("s13_rng_global", "C13", [(SS, "pickups = self._rng.permutation(num_variables)", "pickups = np.random.permutation(num_variables) if sweep % 64 == 63 else self._rng.permutation(num_variables)")], """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(12,))
for i in range(11):
    m.add_interaction((x[i], x[i + 1]), coefficient=1.0 + 0.1 * i)
p = m.to_physical()
def go():
    s, st = SawatabiSolver().solve(p, seed=5, num_sweeps=80, cooling_rate=0.999, need_stats=True)
    return [float(e) for e in st[0]["energy_history"]]
a = [go() for _ in range(6)]
assert all(x == a[0] for x in a)
""", "more than 63 sweeps with random pick-up", "two runs with the same seed differ")

seed("s14_energy_hist_tail", "C12", [(SS, "            energy_hist.append(energy)\n", "            energy_hist.append(energy if not reversing_phase else initial_energy)\n")], """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(3,))
for i in range(3):
    m.add_interaction(x[i], coefficient=1.0 + i)
p = m.to_physical()
s, st = SawatabiSolver().solve(p, num_sweeps=4, initial_states=[{"x[0]": -1, "x[1]": -1, "x[2]": -1}], reverse_options={"reverse_period": 4, "reverse_temperature": 1e-6}, pickup_mode="sequential", seed=1, need_stats=True)
h = st[0]["energy_history"]
assert abs(h[0] - 6.0) < 1e-9 and abs(h[1] + 6.0) < 1e-9, h
""", "reverse annealing with at least two sweeps in the reversing phase", "the recorded energies are not those of the states")

seed("s15_offset_restore", "C03", [(LM, "        self._offset = original_offset\n", "        self._offset = original_offset if self._mtype == constants.MODEL_QUBO else self._offset\n")], """
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_constraint(NHotConstraint(variables=x, n=1))
a = m.to_physical(); b = m.to_physical()
assert m.get_offset() == 0.0 and a == b, m.get_offset()
""", "an Ising model with a constraint, converted", "the logical offset drifts with every conversion")

seed("s16_merge_offset", "C08", [(LM, """        # Check type
        if self._mtype != other._mtype:
            other._convert_mtype()
""", """        other_offset = other._offset

        # Check type
        if self._mtype != other._mtype:
            other._convert_mtype()
"""), (LM, "        self._offset += other._offset\n", "        self._offset += other_offset\n")], """
from sawatabi.model import LogicalModel
a = LogicalModel(mtype="ising"); b = LogicalModel(mtype="qubo")
x = a.variables("x", shape=(1,)); y = b.variables("y", shape=(1,))
a.add_interaction(x[0], coefficient=1.0); b.add_interaction(y[0], coefficient=4.0)
a.merge(b)
assert a.get_offset() == 2.0, a.get_offset()
""", "merging a model of the other type", "the constant produced by the conversion is lost")

seed("s17_npp_enumeration", "C19", [("sawatabi/utils/npp.py", """                        if len(dp[i][j][1]) != 0:
                            solution.extend(dp[i][j][1])
""", """                        if len(dp[i][j][1]) != 0:
                            solution.extend(q for q in dp[i][j][1] if len(q) != 1 or j < 4)
""")], """
from sawatabi.utils import solve_npp_with_dp
ok, a, b = solve_npp_with_dp([4, 1, 1, 2, 1, 3], enumerate_all=True)
import itertools
nums = [4, 1, 1, 2, 1, 3]
n = sum(1 for r in range(7) for c in itertools.combinations(range(6), r) if sum(nums[i] for i in c) == 6)
assert ok and len(a) == n, (len(a), n)
ok, a, b = solve_npp_with_dp([6, 1, 1, 1, 1, 2], enumerate_all=True)
assert sorted(map(sorted, a)) == [[0], [1, 2, 3, 4, 5]], a
""", "full enumeration where a single number alone already makes half of the total and four or more numbers follow", "a solution is missing from the enumeration")

seed("s18_delete_converted", "C07", [(LM, """        return self._interactions[(self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)]["name"].values
""", """        related = (self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)
        return self._interactions[related & (self._interactions["scale"] != 0.0)]["name"].values
""")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0, scale=0.0, name="n")
m.delete_variable(x[0])
m._interactions_array["scale"][0] = 2.0
assert m._interactions_array["removed"] == [True]
assert m.to_physical()._raw_interactions[2] == {}
""", "an interaction whose scale is 0 when the variable is deleted (an attenuated one)", "a live interaction keeps referring to the deleted variable")

seed("s19_index_deleted", "C04", [(LM, "if (v.label not in self._deleted) and (v.label in physical._variables_set):", "if (v.label not in original_deleted or v.label in linear) and (v.label in physical._variables_set):")], """
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(3,))
m.delete_variable(x[0])
m.add_constraint(NHotConstraint(variables=x, n=1))
p = m.to_physical()
assert p._index_to_label == {0: "x[1]", 1: "x[2]"}, p._index_to_label
""", "a deleted variable that comes back through a constraint added later", "a deleted variable gets a number")

seed("s20_convert_key", "C05", [(LM, """                    target=J["interacts"][1],
                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=coeff * 0.25,
""", """                    target=J["interacts"][1],
                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
                    coefficient=abs(coeff) * 0.25 if coeff < -8 else coeff * 0.25,
""")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=-16.0)
m.to_ising()
p = m.to_physical()
assert p._raw_interactions[1] == {"x[0]": -4.0, "x[1]": -4.0}, p._raw_interactions
""", "a strongly negative pair coefficient converted from QUBO to Ising", "the energy landscape")

seed("s21_bqm_offset_sign", "C11", [(PM, "bqm = dimod.BinaryQuadraticModel(linear, quadratic, self._offset, vartype)", "bqm = dimod.BinaryQuadraticModel(linear, quadratic, self._offset if sign in (1.0, -1.0) else sign * self._offset, vartype)")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=-16.0)
m.offset(3.0)
assert m.to_physical().to_bqm(sign=2.0).offset == 3.0
""", "an export with a sign other than +1 or -1", "the offset is scaled")

seed("s22_append_alias", "C21", [(LM, "        new_shape = Functions.elementwise_add(self._variables[name].shape, shape)\n", "        new_shape = Functions.elementwise_add(self._variables[name].shape, shape) if len(shape) < 3 else Functions.elementwise_max(self._variables[name].shape, shape)\n")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
m.variables("x", shape=(2, 2, 2))
assert tuple(m.append("x", shape=(1, 1, 1)).shape) == (3, 3, 3)
""", "appending to an array of three dimensions", "the array does not grow")

seed("s23_pyqubo_offset", "C23", [(LM, "        self._offset = compiled_qubo.offset\n", "        self._offset = compiled_qubo.offset if compiled_qubo.qubo else self._offset\n        if len(compiled_qubo.qubo) > 3:\n            self._offset = -1.0 * compiled_qubo.offset\n")], """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(4,))
m.from_pyqubo(2.0 + x[0] * x[1] + x[1] * x[2] + x[2] * x[3] + x[0] * x[3] + x[0])
assert m.get_offset() == 2.0
""", "an expression with more than three terms and a constant", "the constant of the expression changes sign")

seed("s24_profile_retry", "C25", [("sawatabi/utils/profile.py", "        func_return = func(*args, **kargs)\n", "        try:\n            func_return = func(*args, **kargs)\n        except TimeoutError:\n            func_return = None\n")], """
from sawatabi.utils import profile
@profile
def f():
    raise TimeoutError("x")
try:
    f()
except TimeoutError:
    pass
else:
    raise SystemExit("swallowed")
""", "a profiled function that raises TimeoutError", "the exception does not pass through")


def confirm(i):
    prop, edits, demo, needs, breaks = S[i]
    d = os.path.join(V, "seeded", i)
    w = f"/tmp/seed_{i}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    env = dict(os.environ, NO_GCE_CHECK="true", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write("import os, sys, warnings\nsys.path.insert(0, os.getcwd())\nwarnings.simplefilter('ignore')\n" + demo)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport NO_GCE_CHECK=true PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, env=env, capture_output=True, text=True)
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(a) < 1:
                return i, f"edit does not apply: {a[:60]!r}"
            open(p, "w").write(s.replace(a, b, 1))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, env=env, capture_output=True, text=True)
        if r0.returncode != 0:
            return i, "demo fails on the clean tree: " + r0.stderr[-300:]
        if r1.returncode == 0:
            return i, "demo passes with the patch"
        t = open("/opt/vp/test.sh").read().replace("/repo", w)
        tp = w + "/.test.sh"
        open(tp, "w").write(t)
        subprocess.run(["bash", tp, w + "/.out.json"], cwd=w, env=env, capture_output=True, text=True)
        res = json.load(open(w + "/.out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base.get("passed") or base.get("stable") or base.get("tests"))
        got = set(res.get("passed") or [])
        lost = want - got
        if lost:
            return i, f"{len(lost)} stable tests fail: {sorted(lost)[:3]}"
        return i, "ok"
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or list(S)
    with cf.ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(confirm, ids):
            print(i, m, flush=True)
            if m != "ok":
                shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
