import re
import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand


def terms(eng, st):
    out = [x[2] for x in st.inputs if x[0] == 'int' and x[3] in ('channels', 'k', 'hidden channels', 'hidden k', 'r1', 'r2') and not is_conc(x[2])]
    return out


def templates(eng, st, f, header, vs, ev):
    """Elements before the current one were handled, the others not."""
    out = []
    ks = [x for x in st.inputs if x[0] == 'int' and x[3] in ('k', 'hidden k', 'r2')]
    for i, v in enumerate(vs):
        if v.w != 64 or v.ptrbase is not None or 'storage' in v.name or v.name.endswith('which'):
            continue
        for k in ks:
            for j, c in enumerate(vs):
                if c.w not in (8, 64) or c.ptrbase is not None or i == j:
                    continue
                out.append(Cand('%s is as it was until %s passes %s' % (c.name, v.name, k[3]), lambda vals, s, fr, i=i, j=j, k=k[2], w=c.w: simp(z3.Or(z3.ULT(k, bv(vals[i], 64)), bv(vals[j], w) == bv(ev[j], w)))))
                for val in ((0, 32) if c.w == 8 else (0, 1, 2)):
                    out.append(Cand('%s is %d once %s passed %s' % (c.name, val, v.name, k[3]), lambda vals, s, fr, i=i, j=j, k=k[2], w=c.w, val=val: simp(
                        bv(vals[j], w) == z3.If(z3.ULT(k, bv(vals[i], 64)), bv(val, w), bv(ev[j], w)))))
                    if 'which' in c.name:
                        out.append(Cand('%s is %d after %s passed %s' % (c.name, val, v.name, k[3]), lambda vals, s, fr, i=i, j=j, k=k[2], w=c.w, val=val: simp(
                            z3.Implies(z3.ULT(k, bv(vals[i], 64)), bv(vals[j], w) == val))))
    return out


def compare(eng, st, fn, args, ins):
    """strncmp or memcmp of short texts, without a path for each position of the first difference."""
    a, b, n, nul = args
    if not is_conc(n) or not is_conc(nul):
        raise Incomplete('comparison of symbolic length')
    rows = []
    for i in range(min(n, 64)):
        x, y = [bv(simp(bv(eng.load(st, Ptr(p.base, eng.addoff(p.off, i)), ['i', 8], False), 8)), 8) for p in (a, b)]
        rows.append((x, y))
        if nul and any(z3.is_bv_value(q) and q.as_long() == 0 for q in (x, y)):
            break
    res = bv(0, 32)
    for x, y in reversed(rows):
        eq = z3.If(x == 0, bv(0, 32), res) if nul else res
        res = z3.If(x == y, eq, z3.If(z3.ULT(x, y), bv(-1, 32), bv(1, 32)))
    return simp(res)


def models(m):
    m.add('vf_compare', compare)


O = dict(models=models, lib=True, max_len=64, fuzz=False, templates=templates, user={'terms': terms},
         opts={'loop_mode': {r'libcwd::_private_::DebugChannels::.*': 'inv'}},
         redirect={'strncmp': 'vf_strncmp', 'strcmp': 'vf_strcmp', 'memcmp': 'vf_memcmp', 'bcmp': 'vf_memcmp', 'strncasecmp': 'vf_strncasecmp'})
N = dict(O, redirect=dict(O['redirect'], **{r'libcwd::_private_::DebugChannels::instance': 'vf_instance', r'libcwd::_private_::DebugChannels::initialize_channel': 'vf_initialize_channel', r'libcwd::_private_::DebugChannels::initialize_fatal_channel': 'vf_initialize_fatal_channel'}))
CONTRACTS = [Contract('initialize_%schannel_%d' % (k, n), needs=['initialized'], **O) for n in range(8, 17) for k in ('', 'hidden_', 'fatal_')] + [
             Contract('label_too_long', needs=['too long'], **O), Contract('once', needs=['registered'], **N),
             Contract('find_hit', needs=['found'], **O), Contract('find_none', needs=['not found'], **O), Contract('for_each', needs=['visited'], **O),
             Contract('registry', lib=True, max_len=120, bounded='histories of at most 13 registrations, executed natively')]
FUZZ_SECONDS = 15
ASSUMPTIONS = ['fewer than LIBCWD_DC_MAX channels are registered', 'registered channel objects are distinct and were zero before (they are global)', 'no label contains a NUL character',
               'std::vector (insert, push_back, iteration) as documented, strncmp and strncasecmp as documented',
               'user defined fatal channels other than dc::fatal and dc::core are not padded again later (they are not in the registry)']
