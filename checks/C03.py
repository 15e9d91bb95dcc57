import z3
from vf.check import Contract
from vf.engine import bv, simp, INLINE, Ptr, is_conc, NULL
from vf.houdini import Cand

B64 = z3.BitVecSort(64)
# G(i, j): the mask from i on matches the name from j on.
G = z3.Function('GLOB', B64, B64, z3.BoolSort())


def rd(eng, r, i):
    b = z3.Select(r.arr, i)
    eng.solver.add(z3.Implies(z3.ULT(i, bv(r.nul, 64)), b != 0))
    eng.solver.add(z3.Implies(i == bv(r.nul, 64), b == 0))
    return b


def unfold(mi, mi1, ni, L, i, j, G):
    """The defining equation at (i, j); mi = mask[i], ni = name[j]."""
    return z3.And(
        z3.Implies(i == L, G(i, j) == (ni == 0)),
        z3.Implies(z3.And(z3.ULT(i, L), mi == 42), G(i, j) == z3.Or(G(i + 1, j), z3.And(ni != 0, G(i, j + 1)))),
        z3.Implies(z3.And(z3.ULT(i, L), mi != 42), G(i, j) == z3.And(ni != 0, ni == mi, G(i + 1, j + 1))))


def lemma(mi, mi1, L, i, j, G):
    """Two adjacent stars are as good as one."""
    return z3.Implies(z3.And(z3.ULT(i, L), z3.ULT(i + 1, L), mi == 42, mi1 == 42), G(i, j) == G(i + 1, j))


def lemma2(mi, L, i, j, G):
    """A final star matches any rest."""
    return z3.Implies(z3.And(z3.ULT(i, L), i + 1 == L, mi == 42), G(i, j))


def g(eng, st, i, j):
    mr, nr = st.mem[eng.user['mask']], st.mem[eng.user['name']]
    i, j = bv(simp(i), 64), bv(simp(j), 64)
    L, N = bv(mr.nul, 64), bv(nr.nul, 64)
    for ii in (i, bv(simp(i + 1), 64)):
        mi, mi1, ni = rd(eng, mr, ii), rd(eng, mr, ii + 1), rd(eng, nr, j)
        dom = z3.And(z3.ULE(ii, L), z3.ULE(i, L), z3.ULE(j, N))
        eng.solver.add(z3.Implies(dom, unfold(mi, mi1, ni, L, ii, j, G)))
        eng.solver.add(z3.Implies(dom, lemma2(mi, L, ii, j, G)))
        eng.solver.add(z3.Implies(dom, lemma(mi, mi1, L, ii, j, G)))
    return G(i, j)


def prove_lemma(eng, st):
    """Induction on the rest of the name: at its end, and from j + 1 to j."""
    H = z3.Function('GLOB_any', B64, B64, z3.BoolSort())
    i, j, L = z3.BitVecs('li lj lL', 64)
    mi, mi1, ni = z3.BitVecs('lmi lmi1 lni', 8)
    hyp = z3.And(z3.ULT(L, 1 << 40), z3.ULT(i + 1, L), z3.ULT(i, L), mi == 42, mi1 == 42,
                 unfold(mi, None, ni, L, i, j, H), unfold(mi1, None, ni, L, i + 1, j, H))
    concl = H(i, j) == H(i + 1, j)
    eng.oblige(simp(z3.Implies(z3.And(hyp, ni == 0), concl)), 'lemma: adjacent stars collapse (at the end of the name)')
    eng.oblige(simp(z3.Implies(z3.And(hyp, ni != 0, H(i, j + 1) == H(i + 1, j + 1)), concl)), 'lemma: adjacent stars collapse (induction step)')


def prove_lemma2(eng, st):
    H = z3.Function('GLOB_any2', B64, B64, z3.BoolSort())
    i, j, L = z3.BitVecs('l2i l2j l2L', 64)
    mi, mi1, ni = z3.BitVecs('l2mi l2mi1 l2ni', 8)
    hyp = z3.And(z3.ULT(L, 1 << 40), z3.ULT(i, L), i + 1 == L, mi == 42, unfold(mi, None, ni, L, i, j, H), unfold(mi1, None, ni, L, i + 1, j, H))
    eng.oblige(simp(z3.Implies(z3.And(hyp, ni == 0), H(i, j))), 'lemma: a final star matches (at the end of the name)')
    eng.oblige(simp(z3.Implies(z3.And(hyp, ni != 0, H(i, j + 1)), H(i, j))), 'lemma: a final star matches (induction step)')


def spec_glob(eng, st, fn, args, ins):
    eng.user['mask'], eng.user['name'] = args[0].base, args[2].base
    prove_lemma(eng, st)
    prove_lemma2(eng, st)
    eng.user['target'] = g(eng, st, args[0].off, args[2].off)
    return eng.user['target']


def match(eng, st, fn, args, ins):
    if not any(f.fn is fn for f in st.frames):
        return INLINE
    m, ln, n = args
    mr, nr = st.mem[eng.user['mask']], st.mem[eng.user['name']]
    ok = m.base == mr.id and n.base == nr.id
    eng.oblige(int(ok), 'match is called on the rest of the mask and the rest of the name')
    eng.oblige(simp(z3.And(z3.ULE(bv(m.off, 64), bv(mr.nul, 64)), bv(ln, 64) == bv(mr.nul, 64) - bv(m.off, 64))), 'precondition of match: masklen is the length of the mask')
    eng.oblige(simp(z3.ULE(bv(n.off, 64), bv(nr.nul, 64))), 'precondition of match: the name is terminated')
    eng.oblige(simp(z3.UGT(bv(m.off, 64), 0)), 'the recursion is on a shorter mask (termination)')
    return g(eng, st, m.off, n.off)


def templates(eng, st, f, header, vs, ev):
    """The answer for the current position is the answer for the whole."""
    if 'mask' not in eng.user:
        return []
    mb, nb = eng.user['mask'], eng.user['name']
    out = []

    def scope(base):
        res, seen = [], set()
        for i, v in enumerate(vs):
            if v.ptrbase == base:
                res.append((v.name, lambda vals, i=i: vals[i]))
        for k, v in f.regs.items():
            if type(v) is Ptr and v.base == base and not any(x.kind == 'phi' and x.key == k for x in vs):
                t = str(v.off)
                if t not in seen:
                    seen.add(t)
                    res.append((t, lambda vals, o=v.off: o))
        return res
    T = eng.user['target']
    for mn, mg in scope(mb):
        for nn, ng in scope(nb):
            for d in (0, -1):
                out.append(Cand('G(%s%+d,%s) == answer' % (mn, d, nn), lambda vals, s, fr, mg=mg, ng=ng, d=d: simp(g(eng, s, bv(mg(vals), 64) + d, ng(vals)) == T)))
        out.append(Cand('mask[%s] is a star' % mn, lambda vals, s, fr, mg=mg: simp(rd(eng, s.mem[mb], bv(mg(vals), 64)) == 42)))
        out.append(Cand('mask[%s-1] is a star' % mn, lambda vals, s, fr, mg=mg: simp(rd(eng, s.mem[mb], bv(mg(vals), 64) - 1) == 42)))
        L = st.mem[mb].nul
        for i, v in enumerate(vs):
            if v.ptrbase is None and v.w == 64:
                for d in (0, 1):
                    out.append(Cand('%s == L - %s + %d' % (v.name, mn, d), lambda vals, s, fr, i=i, mg=mg, d=d: simp(bv(vals[i], 64) == bv(L, 64) - bv(mg(vals), 64) + d)))
    return out


CONTRACTS = [Contract('match', contracts=[('vf_spec_glob', spec_glob), ('libcwd::_private_::match', match)], templates=templates, needs=['called', 'returned'], opts={'max_split': 4})]
