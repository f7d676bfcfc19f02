"""Structure-agnostic fingerprints of objects (values, not identities)."""

import types

import numpy as np


def fp(o, skip=(), _seen=None, depth=0):
    """A hashable value equal for equal contents; `skip` names attributes that are ignored."""
    if _seen is None:
        _seen = {}
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return ("f", o.hex())
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    if isinstance(o, np.ndarray) and o.dtype != object:
        return ("a", str(o.dtype), o.shape, np.ascontiguousarray(o).tobytes(), extra(o, skip, _seen, depth))
    if isinstance(o, np.generic):
        return ("g", str(o.dtype), o.tobytes())
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, types.GeneratorType)):
        return ("fn", getattr(o, "__qualname__", getattr(o, "__name__", "?")))
    if isinstance(o, types.MethodType):
        return ("m", o.__func__.__qualname__)
    if id(o) in _seen:
        return ("ref", _seen[id(o)])
    _seen[id(o)] = len(_seen)
    if depth > 40:
        return "deep"
    if isinstance(o, np.ndarray):
        return ("o", type(o).__name__, o.shape, tuple(fp(e, skip, _seen, depth + 1) for e in o.ravel()), extra(o, skip, _seen, depth))
    if isinstance(o, dict):
        return ("d", tuple((str(k), fp(v, skip, _seen, depth + 1)) for k, v in o.items() if k not in skip))
    if isinstance(o, (list, tuple)):
        return ("l", type(o).__name__, tuple(fp(e, skip, _seen, depth + 1) for e in o), extra(o, skip, _seen, depth))
    if isinstance(o, (set, frozenset)):
        return ("s", tuple(sorted(map(str, o))))
    d = getattr(o, "__dict__", None)
    if d is None:
        return ("?", type(o).__name__)
    return ("obj", type(o).__name__, tuple((k, fp(v, skip, _seen, depth + 1)) for k, v in sorted(d.items()) if k not in skip))


def extra(o, skip, _seen, depth):
    d = getattr(o, "__dict__", None)
    if not d:
        return ()
    return tuple((k, fp(v, skip, _seen, depth + 1)) for k, v in sorted(d.items()) if k not in skip)


def diff(a, b, path=""):
    """First difference of two fingerprints, for messages."""
    if type(a) is not type(b):
        return "%s: %r != %r" % (path, str(a)[:80], str(b)[:80])
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                p = path + ("." + x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else "")
                return diff(x, y, p)
        return ""
    return "%s: %r != %r" % (path, str(a)[:80], str(b)[:80]) if a != b else ""


def solutions(pop):
    """The observable values of every solution of a population, in order."""
    if pop is None:
        return None
    from pymoo.core.individual import Individual
    if isinstance(pop, Individual):
        pop = [pop]
    out = []
    for i in pop:
        x = i.X
        x = tuple(sorted((k, repr(v)) for k, v in x.items())) if isinstance(x, dict) else (str(np.asarray(x).dtype), np.asarray(x).tobytes())
        out.append((x,) + tuple(np.asarray(v, float).tobytes() if v is not None else None for v in (i.F, i.G, i.H)) + (np.asarray(i.CV, float).tobytes(),))
    return tuple(out)
