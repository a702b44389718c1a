id="P30-stale-derivative-point"; prop="P30"; file="miso/miso_output.py"
edits=[('''        # print(f"Calling compute_jacvec_product for func {func} with inputs: {inputs}, d_inputs: {d_inputs}, d_outputs: {d_outputs}, and mode: {mode}")

        # Copy vector inputs into internal contiguous data buffers
        for input in inputs:
            if input in self.vectors:
                if self.vectors[input].shape != inputs[input].shape:
                    self.vectors[input].resize(inputs[input].shape)
                self.vectors[input][:] = inputs[input][:]
''','''        # print(f"Calling compute_jacvec_product for func {func} with inputs: {inputs}, d_inputs: {d_inputs}, d_outputs: {d_outputs}, and mode: {mode}")

        # Copy vector inputs into internal contiguous data buffers
        for input in inputs:
            if input in self.vectors:
                if self.vectors[input].shape != inputs[input].shape:
                    self.vectors[input].resize(inputs[input].shape)
                    self.vectors[input][:] = inputs[input][:]
''')]
py=True
needs="a derivative asked for at a point other than the one the output was last computed at"
breaks="The derivative of an output is taken at the state of the last evaluation instead of at the given inputs."
demo=r'''
import sys, types, importlib.util, numpy as np
repo = sys.argv[1]
sys.dont_write_bytecode = True
class Opts(dict):
    def declare(self, name, default=None, **kw): self[name] = default
class Comm: rank, size = 0, 1
class System:
    def __init__(self, **kw):
        self.options, self.comm, self.made = Opts(), Comm(), []
        self.initialize()
        self.options.update(kw)
    def add_input(self, name, **kw): pass
    def add_output(self, name, **kw): pass
    def add_subsystem(self, name, comp, **kw):
        self.made.append((name, comp)); return comp
    def promotes(self, *a, **kw): pass
    def connect(self, *a, **kw): pass
api = types.ModuleType("openmdao.api")
for n in ("IndepVarComp", "ExplicitComponent", "ImplicitComponent", "Group"):
    setattr(api, n, type(n, (System,), {}))
mods = {"openmdao": types.ModuleType("openmdao"), "openmdao.api": api, "openmdao.utils": types.ModuleType("u"),
        "openmdao.utils.mpi": types.ModuleType("m"), "mpi4py": types.ModuleType("mpi4py"),
        "mphys": types.ModuleType("mphys"), "mphys.builder": types.ModuleType("mphys.builder")}
mods["openmdao"].api = api
mods["openmdao.utils.mpi"].MPI = None
mods["mpi4py"].MPI = None
mods["mphys"].Builder = mods["mphys.builder"].Builder = type("Builder", (), {})
class PDESolver: pass
class MeshWarper: pass
lib = types.ModuleType("miso.pyMISO"); lib.PDESolver, lib.MeshWarper = PDESolver, MeshWarper
pkg = types.ModuleType("miso"); pkg.__path__ = [repo + "/miso"]
mods.update({"miso": pkg, "miso.pyMISO": lib})
sys.modules.update(mods)
def load(name):
    m = importlib.import_module(name); return m
import importlib
comp = load("miso.miso_output").MISOFunctional
class S(PDESolver):
    def getOptions(self): return {}
    def createOutput(self, *a): pass
    def getFieldSize(self, n): return 3
    def getOutputSize(self, n): return 1
    def calcOutput(self, f, i, out): out[0] = np.sum(i["state"] ** 2)
    def outputVectorJacobianProduct(self, of, inputs, out_bar, wrt, wrt_bar):
        wrt_bar += 2 * inputs["state"] * out_bar[0]
c = comp(solver=S(), func="f", func_options=None, depends=["state"], check_partials=False)
c.setup()
x, y = np.array([1., 2., 3.]), np.array([-1., 5., .5])
c.compute({"state": x}, {"f": np.zeros(1)})
bar = {"state": np.zeros(3)}
c.compute_jacvec_product({"state": y}, bar, {"f": np.ones(1)}, "rev")
print(bar)
sys.exit(0 if np.allclose(bar["state"], 2 * y) else 1)
'''
