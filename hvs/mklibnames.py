"""Writes data/libnames.json: the public names of the libraries hyvr uses, as
installed here (run once with /opt/venv/bin/python; no code of hyvr is used)."""
import importlib
import json
import os
import warnings

warnings.simplefilter("ignore")
MODS = ["numpy", "numpy.random", "numpy.fft", "numpy.linalg", "numpy.typing", "numpy.ma", "os", "os.path", "sys", "shutil",
        "pathlib", "configparser", "pickle", "scipy", "scipy.io", "warnings", "tempfile", "time", "math", "copy",
        "linecache", "errno", "argparse", "h5py", "pyevtk", "pyevtk.hl", "flopy", "flopy.modflow", "flopy.mf6",
        "flopy.mf6.modflow", "flopy.mf6.modflow.mftdis", "flopy.mf6.modflow.mfgwfdis", "flopy.mf6.modflow.mfgwfchd",
        "flopy.mf6.modflow.mfgwfic", "flopy.mf6.modflow.mfgwfoc", "matplotlib.pyplot", "pkg_resources", "random",
        "itertools", "functools", "collections", "re", "json", "datetime", "logging", "operator", "string"]
OBJ = ["numpy.ndarray", "numpy.random.RandomState", "numpy.random.Generator", "pathlib.Path", "configparser.ConfigParser",
       "configparser.SectionProxy", "builtins.str", "builtins.list", "builtins.dict", "builtins.tuple", "builtins.set",
       "builtins.int", "builtins.float", "builtins.complex", "builtins.bytes", "builtins.object", "builtins.Exception",
       "builtins.OSError", "builtins.ImportError", "builtins.type", "builtins.slice", "builtins.range",
       "argparse.ArgumentParser", "argparse.Namespace", "io.TextIOWrapper", "io.BufferedWriter", "h5py.File", "h5py.Dataset",
       "numpy.float64", "numpy.dtype", "flopy.modflow.Modflow", "flopy.mf6.MFSimulation", "flopy.mf6.MFModel",
       "matplotlib.figure.Figure", "matplotlib.axes.Axes", "os.stat_result", "os.DirEntry", "types.FunctionType",
       "types.ModuleType", "types.SimpleNamespace", "logging.Logger", "re.Pattern", "re.Match", "random.Random",
       "collections.OrderedDict", "collections.deque", "collections.Counter", "datetime.datetime"]
mods, attrs = {}, set()
for m in MODS:
    try:
        mods[m] = sorted(dir(importlib.import_module(m)))
    except Exception as e:
        print("skipped", m, e)
for o in OBJ:
    a, b = o.rsplit(".", 1)
    attrs |= set(dir(getattr(importlib.import_module(a), b)))
attrs |= {"x", "name", "args", "message", "filename", "overwrite"}
here = os.path.dirname(os.path.abspath(__file__))
json.dump({"modules": mods, "attributes": sorted(attrs)}, open(os.path.join(here, "data", "libnames.json"), "w"),
          indent=0, sort_keys=True)
