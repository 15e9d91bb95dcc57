import re
import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand


def G(eng, s, name, off=0):
    """The value of a ghost variable of the harness."""
    n = '_ZN12_GLOBAL__N_1%d%sE' % (len(name), name)
    for rid, r in s.mem.items():
        if r.name == n:
            return bv(eng.load(s, Ptr(rid, off), ['i', 64], False), 64)
    raise Incomplete('no ghost ' + name)


def templates(eng, st, f, header, vs, ev):
    """The invariants: what is known about the address X, the cursor into the map and the pending pieces."""
    out = []

    def add(name, g):
        out.append(Cand(name, lambda vals, s, fr: simp(g(lambda n, o=0: G(eng, s, n, o), vals))))
    first, last, sfirst, slast = (lambda g: g('entry', 0)), (lambda g: g('entry', 8)), (lambda g: g('entry', 16)), (lambda g: g('entry', 24))
    add('the range at the address contains it', lambda g, v: z3.Implies(g('covered') != 0, z3.And(z3.ULE(first(g), g('X')), z3.ULT(g('X'), last(g)))))
    add('it is part of its symbol', lambda g, v: z3.Implies(g('covered') != 0, z3.And(z3.ULE(sfirst(g), first(g)), z3.ULE(last(g), slast(g)))))
    for n in ('covered', 'pending', 'passed', 'owned', 'new_at_x'):
        add('%s is 0 or 1' % n, lambda g, v, n=n: z3.ULE(g(n), 1))
        for c in (0, 1):
            add('%s is %d' % (n, c), lambda g, v, n=n, c=c: g(n) == c)
            for d in (0, 1):
                add('%s is %d if passed is %d' % (n, c, d), lambda g, v, n=n, c=c, d=d: z3.Implies(g('passed') == d, g(n) == c))
                add('%s is %d if covered is %d' % (n, c, d), lambda g, v, n=n, c=c, d=d: z3.Implies(g('covered') == d, g(n) == c))
    add('what was inserted is the new symbol', lambda g, v: z3.Implies(g('new_at_x') == 1, z3.And(sfirst(g) == g('S'), slast(g) == g('E'), g('owned') == 1, g('covered') == 1, g('entry', 40) == g('new_is_elf'))))
    by = dict((x.name, i) for i, x in enumerate(vs))
    for x in vs:
        if not x.name.endswith('+0') or 'GLOBAL' in x.name:
            continue
        p = x.name[:-2]
        if all('%s+%d' % (p, o) in by for o in (0, 8, 16, 24)):
            w, lo, ls, hi = (lambda vals, i=by['%s+%d' % (p, o)]: bv(vals[i], 64) for o in (0, 8, 16, 24))
            have = lambda vals, i=by.get(p + '+32'), r=x: bv(vals[i], 64) if i is not None else None
            add(p + ' is a cursor', lambda g, v, w=w: z3.ULE(w(v), 2))
            add(p + ' was not looked at', lambda g, v, have=have: have(v) == 0)
            add(p + ' at the range', lambda g, v, w=w, lo=lo: z3.Implies(w(v) == 0, z3.And(g('covered') == 1, g('passed') == 0, z3.ULT(lo(v), last(g)))))
            add(p + ' not at the end before the range is passed', lambda g, v, w=w: z3.Implies(g('passed') == 0, w(v) != 2))
            add(p + ' before the range', lambda g, v, w=w, lo=lo, hi=hi: z3.Implies(z3.And(w(v) == 1, g('covered') == 1, z3.ULT(lo(v), last(g))), z3.ULE(hi(v), first(g))))
            add(p + ' before the range until it is passed', lambda g, v, lo=lo: z3.Implies(g('passed') == 0, z3.ULT(lo(v), last(g))))
            add(p + ' behind the range', lambda g, v, lo=lo: z3.Implies(z3.And(g('passed') == 1, g('covered') == 1), z3.ULE(last(g), lo(v))))
            add(p + ' behind the range at the end', lambda g, v, w=w, lo=lo: z3.Implies(z3.And(w(v) == 2, g('covered') == 1), z3.ULE(last(g), lo(v))))
            add(p + ' behind the start', lambda g, v, lo=lo: z3.ULE(g('S'), lo(v)))
    # positions in the vector of pieces
    for i, x in enumerate(vs):
        if x.w != 64 or x.ptrbase is not None or not is_conc(ev[i]) or ev[i] != 0:
            continue
        at = lambda vals, i=i: bv(vals[i], 64)
        for n in ('covered', 'new_at_x', 'pending'):
            for c in (0, 1):
                add('%s is %d once %s passed the piece' % (n, c, x.name), lambda g, v, at=at, n=n, c=c: z3.Implies(z3.ULT(g('place'), at(v)), g(n) == c))
                add('%s is %d until %s passes the piece' % (n, c, x.name), lambda g, v, at=at, n=n, c=c: z3.Implies(z3.ULE(at(v), g('place')), g(n) == c))
        add('%s does not pass the piece at an address that is removed' % x.name, lambda g, v, at=at: z3.Implies(
            z3.And(g('pending') == 1, z3.ULE(g('removal_first'), g('X')), z3.ULT(g('X'), g('removal_last'))), z3.ULE(at(v), g('place'))))
        add('%s <= count' % x.name, lambda g, v, at=at: z3.ULE(at(v), g('pieces')))
        for j, y in enumerate(vs):
            if y.w == 64 and y.ptrbase is None and i != j:
                add('%s <= %s' % (x.name, y.name), lambda g, v, at=at, j=j: z3.ULE(at(v), bv(v[j], 64)))
    p0 = G(eng, st, 'pending')
    add('no piece comes back', lambda g, v: z3.ULE(g('pending'), p0))
    add('only removed pieces are gone', lambda g, v: z3.Or(g('pending') == p0, z3.And(z3.ULE(g('removal_first'), g('X')), z3.ULT(g('X'), g('removal_last')))))
    for x in vs:
        if x.name.endswith('+16') and 'GLOBAL' not in x.name:
            p = x.name[:-3]
            idx = [by.get('%s+%d' % (p, o)) for o in (0, 8, 16, 32, 40)]
            if all(k is not None for k in idx):
                n, k, c, a, b = (lambda vals, i=i: bv(vals[i], 64) for i in idx)
                add('%s.k < n' % p, lambda g, v, n=n, k=k, c=c: z3.Implies(c(v) != 0, z3.ULT(k(v), n(v))))
                add('%s.k is place' % p, lambda g, v, k=k: k(v) == g('place'))
                add('%s.px' % p, lambda g, v, c=c, a=a, b=b: z3.Implies(c(v) != 0, z3.And(z3.ULE(g('S'), a(v)), z3.ULE(a(v), g('X')), z3.ULT(g('X'), b(v)), z3.ULE(b(v), g('E')))))
        if x.w == 8 and 'GLOBAL' not in x.name:
            j = by[x.name]
            add('%s tells whether a fragment was inserted' % x.name, lambda g, v, j=j: z3.And(z3.ZeroExt(56, bv(v[j], 8)) == g('owned'), z3.ULE(g('owned'), 1)))
        if x.name.endswith('+16') and 'GLOBAL' not in x.name:
            j = by[x.name]
            add('%s is pending' % x.name, lambda g, v, j=j: bv(v[j], 64) == g('pending'))
    return out


O = dict(fuzz=False, templates=templates, opts={'candidates': 'equal', 'loop_mode': {r'libcwd::dwarf::.*': 'inv'}})
N = dict(O, needs=['inserted'], redirect={r'libcwd::dwarf::detail::remove_pending_symbol_subrange': 'vf_remove'})
CONTRACTS = [Contract('remove_pending', needs=['removed'], **O)] + [Contract(n, **N) for n in ('existing_wins_elf', 'covered_below_dwarf', 'covered_above_dwarf', 'existing_loses_dwarf', 'existing_wins_dwarf', 'existing_loses_elf', 'covered_below_elf', 'covered_above_elf',
                                                                                                              'fresh_address_dwarf', 'outside_fresh_dwarf', 'fresh_address_elf', 'outside_fresh_elf')] + [
             Contract('history', max_len=64, bounded='histories of at most 10 insertions on 25 addresses, executed natively')]
FUZZ_SECONDS = 20
BUDGET = 500
ASSUMPTIONS = ['the DIE given with a DWARF range is a valid one (its addr is not null)', 'std::map (upper_bound, erase, emplace, try_emplace, iteration) and std::vector (insert, erase, iteration) as documented',
               'fewer than 2^40 pending pieces']
