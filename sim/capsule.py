"""Per-process global state.

Simulated processes share one interpreter, so everything a real process would
own privately -- module globals and class attributes of the package, the global
random generators -- is swapped at every switch.  A fresh process starts from
the state just after import; a forked pool worker starts from a copy of its
parent's state at fork time.
"""
import copy
import random
import sys
import types

import numpy as np

_SKIP_TYPES = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type,
               types.MethodType, property, staticmethod, classmethod)
_IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), tuple, frozenset, np.generic, np.dtype)


def _is_ref(v):
    return isinstance(v, _SKIP_TYPES) or callable(v)


class Capsules(object):
    def __init__(self, package):
        self.package = package
        self.slots = []        # (namespace owner, name)
        self.insts = []        # instances whose __dict__ is state
        self.caches = []
        self.sets = 0
        self._scan()
        self._pristine = self._capture(copy_values=True)
        self._main = None

    def _scan(self):
        pkg = self.package
        seen = set()
        for mname in sorted(sys.modules):
            if mname != pkg and not mname.startswith(pkg + '.'):
                continue
            mod = sys.modules[mname]
            if mod is None or id(mod) in seen:
                continue
            seen.add(id(mod))
            for name, v in sorted(vars(mod).items()):
                if name.startswith('__'):
                    continue
                if hasattr(v, 'cache_clear'):
                    self.caches.append(v)
                if isinstance(v, type):
                    if getattr(v, '__module__', '').startswith(pkg) and id(v) not in seen:
                        seen.add(id(v))
                        self._scan_class(v)
                    continue
                if _is_ref(v) or isinstance(v, types.ModuleType):
                    continue
                if type(v).__module__.startswith('logging'):
                    continue
                self.slots.append((mod, name))

    def _scan_class(self, cls):
        for name, v in sorted(vars(cls).items()):
            if name.startswith('__'):
                continue
            if hasattr(v, 'cache_clear'):
                self.caches.append(v)
            if type(v).__module__.startswith(self.package) and hasattr(v, '__dict__') \
                    and not isinstance(v, type):
                self.insts.append(v)
                continue
            if _is_ref(v) or isinstance(v, (types.GetSetDescriptorType, types.MemberDescriptorType)):
                continue
            self.slots.append((cls, name))

    def _copy(self, v, memo):
        if isinstance(v, _IMMUTABLE):
            return v
        try:
            return copy.deepcopy(v, memo)
        except Exception:
            return v

    def _capture(self, copy_values=False):
        memo = {}
        sl = []
        for owner, name in self.slots:
            v = getattr(owner, name)
            sl.append(self._copy(v, memo) if copy_values else v)
        il = []
        for inst in self.insts:
            dd = inst.__dict__
            if copy_values:
                il.append({k: self._copy(v, memo) for k, v in dd.items()})
            else:
                il.append(dict(dd))
        return {'slots': sl, 'insts': il, 'np': np.random.get_state(legacy=True),
                'py': random.getstate()}

    def _deep(self, cap):
        memo = {}
        return {'slots': [self._copy(v, memo) for v in cap['slots']],
                'insts': [{k: self._copy(v, memo) for k, v in dd.items()} for dd in cap['insts']],
                'np': cap['np'], 'py': cap['py']}

    def _install(self, cap):
        for (owner, name), v in zip(self.slots, cap['slots']):
            if getattr(owner, name) is not v:
                setattr(owner, name, v)
        for inst, dd in zip(self.insts, cap['insts']):
            d0 = inst.__dict__
            d0.clear()
            d0.update(dd)
        for c in self.caches:
            c.cache_clear()
        np.random.set_state(cap['np'])
        random.setstate(cap['py'])

    # kernel interface
    def pristine(self):
        return self._pristine

    def fresh(self, base, pid):
        cap = self._deep(base)
        r = np.random.RandomState(pid)
        cap['np'] = r.get_state()
        cap['py'] = random.Random(pid).getstate()
        return cap

    def fork(self, parent):
        # the parent is the running process: its state is installed
        return self._capture(copy_values=True)

    def save(self, proc):
        proc.capsule = self._capture()

    def load(self, proc):
        self._install(proc.capsule)

    def enter(self):
        self._main = self._capture()

    def leave(self):
        self._install(self._main)
