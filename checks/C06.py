from vf.check import Contract
CONTRACTS = [Contract(e, lib=True) for e in ('construct', 'copy', 'copy_derived', 'assign_derived', 'assign', 'assign_self', 'destroy', 'reset', 'release', 'lock', 'array_assign', 'array_reset')]
ASSUMPTIONS = ['operator new succeeds', 'before each operation every object has at most one owner (the invariant each contract re-establishes)']
