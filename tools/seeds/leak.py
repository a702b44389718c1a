id="P30-options-of-the-previous-output"; prop="P30"; file="miso/mphys/miso_builder.py"
edits=[('''        for output in self.outputs:
            if "options" in self.outputs[output]:
                output_opts = self.outputs[output]["options"]
            else:
                output_opts = None
''','''        output_opts = None
        for output in self.outputs:
            if "options" in self.outputs[output]:
                output_opts = self.outputs[output]["options"]
''')]
py=True
needs="a scenario with at least two outputs, the later one without options of its own"
breaks="An output without options is created with the options of the output listed before it."
demo=r'''
import sys, types, importlib.util, numpy as np
repo = sys.argv[1]
sys.dont_write_bytecode = True
class Opts(dict):
    def declare(self, name, default=None, **kw): self[name] = default
class Comm: rank, size = 0, 1
class System:
    def __init__(self, **kw):
        self.options, self.comm, self.made = Opts(), Comm(), []
        self.initialize()
        self.options.update(kw)
    def add_input(self, name, **kw): pass
    def add_output(self, name, **kw): pass
    def add_subsystem(self, name, comp, **kw):
        self.made.append((name, comp)); return comp
    def promotes(self, *a, **kw): pass
    def connect(self, *a, **kw): pass
api = types.ModuleType("openmdao.api")
for n in ("IndepVarComp", "ExplicitComponent", "ImplicitComponent", "Group"):
    setattr(api, n, type(n, (System,), {}))
mods = {"openmdao": types.ModuleType("openmdao"), "openmdao.api": api, "openmdao.utils": types.ModuleType("u"),
        "openmdao.utils.mpi": types.ModuleType("m"), "mpi4py": types.ModuleType("mpi4py"),
        "mphys": types.ModuleType("mphys"), "mphys.builder": types.ModuleType("mphys.builder")}
mods["openmdao"].api = api
mods["openmdao.utils.mpi"].MPI = None
mods["mpi4py"].MPI = None
mods["mphys"].Builder = mods["mphys.builder"].Builder = type("Builder", (), {})
class PDESolver: pass
class MeshWarper: pass
lib = types.ModuleType("miso.pyMISO"); lib.PDESolver, lib.MeshWarper = PDESolver, MeshWarper
pkg = types.ModuleType("miso"); pkg.__path__ = [repo + "/miso"]
mods.update({"miso": pkg, "miso.pyMISO": lib})
sys.modules.update(mods)
def load(name):
    m = importlib.import_module(name); return m
import importlib
builder = load("miso.mphys.miso_builder")
class S(PDESolver):
    def getOptions(self): return {"space-dis": {}}
builder._getPhysicsAbbreviation = lambda o: "therm"
g = builder.MISOOutputsGroup(solver=S(), outputs={"a": {"options": {"attributes": [2]}, "depends": ["state"]}, "b": {"depends": ["state"]}}, check_partials=False, scenario_name=None)
g.setup()
got = {n: c.options["func_options"] for n, c in g.made}
print(got)
sys.exit(0 if got == {"a": {"attributes": [2]}, "b": None} else 1)
'''
