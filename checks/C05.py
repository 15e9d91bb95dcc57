import z3
from vf.check import Contract
from vf.engine import bv, Ptr, simp


def calculate_capacity(eng, st, fn, args, ins):
    """Contract proved by C05cap: at least the size and the default capacity, nothing else changed."""
    this, size = args
    d = eng.load(st, Ptr(this.base, eng.addoff(this.off, eng.k('default_capacity'))), ['i', 64])
    eng.oblige(simp(z3.And(z3.UGE(bv(d, 64), 64), z3.ULT(bv(d, 64), 1 << 40), z3.ULT(bv(size, 64), 1 << 42))), 'precondition of calculate_capacity: sane sizes')
    c = eng.fresh('capacity', 64)
    eng.solver.add(z3.UGE(c, bv(size, 64)), z3.UGE(c, bv(d, 64)), z3.ULE(c, 1 << 43))
    return c


CC = [('libcwd::DebugString::calculate_capacity', calculate_capacity)]
CONTRACTS = [Contract(e, contracts=CC, lib=True) for e in ('init', 'init_empty', 'assign', 'append', 'prepend', 'reserve', 'copy', 'swallow')]
CONTRACTS += [Contract('calculate_capacity', harness='C05cap', opts={'max_split': 70}, lib=True)]
ASSUMPTIONS = ['malloc and realloc succeed', 'texts are NUL-free up to the given length and shorter than 2^40 characters', 'the text does not lie inside the DebugString itself']
