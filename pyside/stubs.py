"""Import hooks: the Python package is imported from the working tree, with stand-ins for the libraries that are not
installed and a recorder for the compiled extension."""
import importlib.abc
import importlib.machinery
import os
import re
import sys
import traceback
import types
from unittest.mock import MagicMock

HERE = os.path.dirname(os.path.abspath(__file__))


class Unmodelled(Exception):
    """The code under test uses something the stand-ins do not provide."""


class Absent(MagicMock):
    """Something of a library that is not installed: it can be imported and named, but not called by the code under test."""

    def __call__(self, *a, **k):
        if sys._getframe(1).f_code.co_name not in ("<module>", "__build_class__"):
            raise Unmodelled(repr(self))
        return super().__call__(*a, **k)


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        kind = MagicMock if self.__name__.startswith("hydrobricks") else Absent
        v = kind(name=self.__name__ + "." + n)
        setattr(self, n, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Last of the finders: whatever no other finder provides and does not belong to the package is a stand-in."""

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if name == "hydrobricks._hydrobricks" or (top != "hydrobricks" and not top.startswith("_")):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


# Methods of the compiled SettingsModel with their arguments: (name, default).
SIGS = {
    "log_all": [("log_all", True)],
    "record_fractions": [("record", True)],
    "add_logging_to": [("name",)],
    "add_brick_logging": [("name",)],
    "select_process": [("name",)],
    "add_process_logging": [("name",)],
    "add_structure": [],
    "set_solver": [("name",)],
    "add_land_cover_brick": [("name",), ("kind",)],
    "add_hydro_unit_brick": [("name",), ("kind", "storage")],
    "add_sub_basin_brick": [("name",), ("kind", "storage")],
    "select_hydro_unit_brick": [("name",)],
    "add_brick_process": [("name",), ("kind",), ("target", ""), ("log", False)],
    "add_process_output": [("target",)],
    "add_process_parameter": [("name",), ("value",), ("kind", "constant")],
    "add_process_forcing": [("name",)],
    "add_brick_parameter": [("name",), ("value",), ("kind", "constant")],
    "set_current_brick_computed_directly": [],
    "set_parameter_value": [("component",), ("name",), ("value",)],
    "generate_precipitation_splitters": [("with_snow", True), ("splitter_type", "snow_rain:linear")],
    "generate_snowpacks": [("snow_melt_process",)],
    "generate_snowpacks_with_water_retention": [("snow_melt_process",), ("outflow_process",), ("rain_to_snowpack", False)],
    "generate_canopy_interception": [("cover_name",), ("throughfall_target",)],
    "add_snowpack_refreezing": [("refreezing_process", "refreeze:degree_day")],
    "add_snowpack_sublimation": [("sublimation_process",)],
    "add_snow_ice_transformation": [("transformation_process", "transform:snow_ice_swat")],
    "add_snow_redistribution": [("redistribution_process", "transport:snow_slide"), ("skip_glaciers", False)],
    "set_process_outputs_as_instantaneous": [],
    "set_process_outputs_as_static": [],
}
LOG = []


class Recorder:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n not in SIGS:
            raise Unmodelled(n)

        def f(*a, **k):
            sig = SIGS[n]
            if len(a) > len(sig):
                raise TypeError("%s(): incompatible function arguments" % n)
            vals = list(a)
            for s in sig[len(a):]:
                if s[0] in k:
                    vals.append(k.pop(s[0]))
                elif len(s) > 1:
                    vals.append(s[1])
                else:
                    raise TypeError("%s(): incompatible function arguments" % n)
            if k:
                raise TypeError("%s(): incompatible function arguments" % n)
            for v in vals:
                if not isinstance(v, (str, int, float, bool)):
                    raise TypeError("%s(): incompatible function arguments" % n)
            LOG.append((n, vals))
            return True

        return f


def install_base(repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    import minipandas
    sys.modules["pandas"] = minipandas
    sys.meta_path.append(Finder())
    sys.path.insert(0, os.path.join(repo, "python", "src"))


def install(repo):
    install_base(repo)
    import hydrobricks._hydrobricks as ext
    ext.SettingsModel = Recorder
    import hydrobricks.models as models
    import hydrobricks.models.model_settings as ms
    if getattr(ms, "SettingsModel", None) is not Recorder:
        ms.SettingsModel = Recorder
    return models


def ours(e):
    """Whether an exception comes from the stand-ins rather than from the code under test."""
    if isinstance(e, (Unmodelled, NotImplementedError)):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return True
    last = tb[-1].filename
    if isinstance(e, TypeError) and re.search(r"\b(Series|DataFrame|Ser|_SerAt|Frame|Cols|Index|_I?Loc|concat|NSeries|Units|Table|Row|_Pos|_RowAt|Timestamp|Stamp|Dates|Dated|Offset|(is|not)(na|null))\b", str(e)):
        return True  # something the stand-in of pandas does not take
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        names = {getattr(o, "__module__", None), getattr(type(o), "__module__", None), getattr(o, "__name__", None)}
        if names & {"minipandas", "frames", "tables", "calendars", "stubs", "pandas"}:
            return True
    if isinstance(e, TypeError) and re.search(r"is(instance|subclass)\(\) arg 2|Absent", str(e)):
        return True
    if "incompatible function arguments" in str(e) and isinstance(e, TypeError):
        return False  # what the compiled extension would answer
    return last.startswith(HERE) or "mock" in os.path.basename(last)
