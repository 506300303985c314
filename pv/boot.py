"""Loads the instrumented csvw package; import this before anything that imports csvw."""
import os
import sys
import sysconfig

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
_z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _z3 not in sys.path:
    sys.path.append(_z3)
sys.dont_write_bytecode = True

from pv import rt, instrument, core, values, loops  # noqa

FINDER = instrument.install(rt.RT)


def _validators():
    """attr.validators.instance_of accepts symbolic values of the type (library model)"""
    import attr.validators as av
    from pv.rt import BUILTINS, Proxy
    cls = type(av.instance_of(str))
    orig = cls.__call__

    def call(self, inst, attribute, value):
        if isinstance(value, Proxy):
            if BUILTINS[id(isinstance)][1](value, self.type):
                return
            raise TypeError("'{}' must be {!r}".format(attribute.name, self.type))
        return orig(self, inst, attribute, value)
    cls.__call__ = call


_validators()
