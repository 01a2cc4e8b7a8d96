"""Sets of names in any order. A set promises no order, and on most interpreters the order of a set of strings differs
from run to run; the one used here keeps insertion order. Inside chumpy, `set` is replaced by this class, whose order
of strings depends on the case, so that nothing can rely on the order being a particular one."""
import hashlib
import sys

SALT = ['']          # '' keeps the natural order
COUNT = [0]          # sets of at least two names that were walked in an order of our choosing


class _Meta(type):
    def __instancecheck__(cls, obj): return isinstance(obj, set)
    def __subclasscheck__(cls, sub): return issubclass(sub, set)


class AnyOrder(set, metaclass=_Meta):
    def __iter__(self):
        if not SALT[0] or len(self) < 2:
            return set.__iter__(self)
        names = list(set.__iter__(self))
        for n in names:
            if type(n) is not str:
                return iter(names)
        COUNT[0] += 1
        names.sort(key=lambda n: hashlib.md5((SALT[0] + n).encode()).digest())
        return iter(names)

    def copy(self): return AnyOrder(set.copy(self))
    def union(self, *o): return AnyOrder(set.union(self, *o))
    def intersection(self, *o): return AnyOrder(set.intersection(self, *o))
    def difference(self, *o): return AnyOrder(set.difference(self, *o))
    def symmetric_difference(self, o): return AnyOrder(set.symmetric_difference(self, o))
    def __or__(self, o): return AnyOrder(set.__or__(self, o))
    def __and__(self, o): return AnyOrder(set.__and__(self, o))
    def __sub__(self, o): return AnyOrder(set.__sub__(self, o))
    def __xor__(self, o): return AnyOrder(set.__xor__(self, o))
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()     # names only
    def __reduce__(self): return (set, (list(set.__iter__(self)),))

    def pop(self):
        for n in self:
            self.discard(n)
            return n
        raise KeyError('pop from an empty set')


def install():
    for name, mod in list(sys.modules.items()):
        if name == 'chumpy' or name.startswith('chumpy.'):
            if getattr(mod, 'set', set) is set and '__file__' in getattr(mod, '__dict__', {}):
                mod.set = AnyOrder
