"""Specs and properties."""
import importlib, glob, os

SPECS = {}        # name -> Spec
PROPS = {}        # property id -> list of (spec name, mode)


class Spec:
    def __init__(self, fn, name, props, dims, weight, generic, kernels):
        self.fn, self.name, self.props, self.dims = fn, name, props, dims
        self.weight, self.generic, self.kernels = weight, generic, kernels


def spec(props, dims=(2, 3), weight=1.0, generic=True, kernels=None):
    """generic: also run by the memory-safety and decomposition properties"""
    if isinstance(props, str):
        props = [props]

    def deco(fn):
        name = fn.__name__
        assert name not in SPECS, name
        SPECS[name] = Spec(fn, name, props, dims, weight, generic, kernels or [name])
        for p in props:
            PROPS.setdefault(p, []).append(name)
        return fn

    return deco


def load():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in sorted(glob.glob(os.path.join(here, "specs", "*.py"))):
        importlib.import_module("specs." + os.path.splitext(os.path.basename(f))[0])


GENERIC = {"C27": "mem", "C28": "tile"}   # property id -> mode
PREPARE = {}
