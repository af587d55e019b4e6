"""The simulated id(): meshless code that asks for the identity of an object gets a number which, like an address, is unique
among living objects and stays the same while the object lives, and which goes to the next object of the same type as soon
as its owner is dead. The reuse of addresses, which real runs meet now and then, thus happens at every opportunity, and the
same way in every repetition."""
import sys
import weakref

STEP = 48
_of = {}            # real address -> [number, weak reference or the object itself]
_free = {}          # type -> numbers of dead objects
_held = {}          # real address -> entries that are kept alive here, for types without weak references
_last = [0x7f3000000000]
_real = id


def _died(addr, typ, ref):
    e = _of.get(addr)
    if e is not None and e[1] is ref:
        del _of[addr]
        _free.setdefault(typ, []).append(e[0])


def _sweep():
    """objects that nobody but this module refers to are dead"""
    found = True
    while found:
        found = False
        for addr in list(_held):
            e = _held[addr]
            if sys.getrefcount(e[1]) <= 2:
                del _held[addr], _of[addr]
                _free.setdefault(type(e[1]), []).append(e[0])
                e[1] = None
                found = True


def sim_id(obj):
    addr = _real(obj)
    e = _of.get(addr)
    if e is not None and (e[1] is obj or (addr not in _held and e[1]() is obj)):
        return e[0]
    typ = type(obj)
    _sweep()
    free = _free.get(typ)
    if free:
        n = free.pop()
    else:
        _last[0] += STEP
        n = _last[0]
    e = [n, None]
    try:
        e[1] = weakref.ref(obj, lambda r: _died(addr, typ, r))
    except TypeError:
        e[1] = obj
        _held[addr] = e
    _of[addr] = e
    return n


def install():
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'meshless' and mod is not None:
            mod.__dict__.setdefault('id', sim_id)
