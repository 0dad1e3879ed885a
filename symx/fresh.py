"""State of the package that outlives a call: module globals, class attributes, function attributes, caches.
Taken after import, put back before every path and replay (each stands for a new process) and on env.fresh()."""
import types

PLAIN = (dict, list, set)
SKIP = ('__dict__', '__weakref__', '__doc__', '__builtins__', '__annotations__', '__abstractmethods__', '_abc_impl', '__warningregistry__')
_STATE = {}


def _funcs(v):
    """callables behind an attribute"""
    if isinstance(v, property):
        return [f for f in (v.fget, v.fset, v.fdel) if f is not None]
    if isinstance(v, (staticmethod, classmethod)):
        return [v.__func__]
    return [v]


def _owners(ns):
    seen = set()
    for m in ns.values():
        if id(m) in seen:
            continue
        seen.add(id(m))
        yield m
        for v in list(vars(m).values()):
            if isinstance(v, type) and getattr(v, '__module__', '').split('.')[0] == 'raytools' and id(v) not in seen:
                seen.add(id(v))
                yield v


def _containers(f):
    """mutable defaults and attributes of a function"""
    out = []
    if isinstance(f, types.FunctionType):
        out += [d for d in (f.__defaults__ or ()) if type(d) in PLAIN]
        out += [d for d in (f.__kwdefaults__ or {}).values() if type(d) in PLAIN]
        out.append(f.__dict__)
        for c in f.__closure__ or ():
            try:
                if type(c.cell_contents) in PLAIN:
                    out.append(c.cell_contents)
            except ValueError:
                pass
    return out


def _fill(c, old):
    if isinstance(c, list):
        c[:] = old
    else:
        c.clear()
        c.update(old)


def snapshot(ns):
    key = id(ns)
    if key in _STATE:
        return
    attrs, conts, caches, seen = [], [], [], set()

    def keep(c):
        if id(c) not in seen:
            seen.add(id(c))
            conts.append((c, c.copy()))
    for o in _owners(ns):
        d = {k: v for k, v in vars(o).items() if k not in SKIP}
        attrs.append((o, d))
        for v in d.values():
            if type(v) in PLAIN:
                keep(v)
            for f in _funcs(v):
                if hasattr(f, 'cache_clear'):
                    caches.append(f)
                    f = getattr(f, '__wrapped__', f)
                if isinstance(f, types.FunctionType) and (f.__module__ or '').split('.')[0] == 'raytools':
                    for c in _containers(f):
                        keep(c)
    _STATE[key] = (ns, attrs, conts, caches)


def reset(ns, patched=()):
    """patched: (object, name) replaced by a harness, which stay"""
    _, attrs, conts, caches = _STATE[id(ns)]
    keep = {(id(o), n) for o, n in patched}
    for o, d in attrs:
        cur = vars(o)
        for k in [k for k in cur if k not in d and k not in SKIP]:
            v = cur[k]
            if (id(o), k) not in keep and not isinstance(v, types.ModuleType):
                delattr(o, k)
        for k, v in d.items():
            if (id(o), k) not in keep and cur.get(k) is not v:
                setattr(o, k, v)
    for c, old in conts:
        if c != old if type(c) is set else len(c) != len(old) or any(a is not b for a, b in zip(
                list(c.items() if isinstance(c, dict) else c), list(old.items() if isinstance(old, dict) else old))):
            _fill(c, old)
    for f in caches:
        f.cache_clear()
