import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand
from vf import models as M

B64 = z3.BitVecSort(64)
END = z3.Function('ARRAY_END', B64, B64)      # END(i): end of the array bounds that start at position i
US = z3.Function('NEXT_UNDERSCORE', B64, B64)  # US(i): the first underscore at or after position i, or the end


def rd(eng, r, i):
    b = z3.Select(r.arr, i)
    eng.solver.add(z3.Implies(z3.ULT(i, bv(r.nul, 64)), b != 0), z3.Implies(i == bv(r.nul, 64), b == 0))
    return b


def us(eng, r, i):
    L = bv(r.nul, 64)
    b = rd(eng, r, i)
    eng.solver.add(z3.Implies(z3.ULE(i, L), z3.And(z3.ULE(i, US(i)), z3.ULE(US(i), L),
                   z3.If(z3.Or(b == 0, b == ord('_')), US(i) == i, US(i) == US(i + 1)))))
    e = rd(eng, r, US(i))
    eng.solver.add(z3.Implies(z3.ULE(i, L), z3.Or(e == 0, e == ord('_'))))
    return US(i)


def end(eng, st, i):
    """The defining equation of END at i; the compiler terminates every array bound with an underscore."""
    r = st.mem[eng.user['stripped']]
    i = bv(simp(i), 64)
    L = bv(r.nul, 64)
    b = rd(eng, r, i)
    u = us(eng, r, i)
    eng.solver.add(z3.Implies(z3.ULE(i, L), z3.And(z3.ULE(i, END(i)), z3.ULE(END(i), L))))
    eng.solver.add(z3.Implies(z3.ULE(i, L), z3.If(b == ord('A'), z3.And(z3.ULT(u, L), END(i) == END(u + 1)), END(i) == i)))
    return END(i)


def spec_end(eng, st, fn, args, ins):
    eng.user['stripped'] = args[0].base
    eng.user['target'] = end(eng, st, args[1])
    return eng.user['target']


def templates(eng, st, f, header, vs, ev):
    if 'stripped' not in eng.user:
        return []
    sb = eng.user['stripped']
    out = []
    for i, v in enumerate(vs):
        if v.w == 64 and (v.ptrbase is None or v.ptrbase == sb):
            out.append(Cand('the bounds from %s on end where all bounds end' % v.name, lambda vals, s, fr, i=i: simp(z3.And(
                z3.ULE(bv(vals[i], 64), bv(s.mem[sb].nul, 64)), end(eng, s, bv(vals[i], 64)) == eng.user['target']))))
            out.append(Cand('the first underscore from %s on' % v.name, lambda vals, s, fr, i=i: simp(z3.And(
                z3.ULE(bv(vals[i], 64), bv(s.mem[sb].nul, 64)), us(eng, s.mem[sb], bv(vals[i], 64)) == us(eng, s.mem[sb], bv(ev[i], 64))))))
    return out


def strcspn(eng, st, fn, args, ins):
    s, set_ = args
    w = M.cstr_name(eng, st, set_)
    if w != '_' or s.base != eng.user.get('stripped'):
        raise Incomplete('strcspn')
    eng.oblige(simp(z3.ULE(bv(s.off, 64), bv(st.mem[s.base].nul, 64))), 'strcspn gets a terminated string')
    return simp(us(eng, st.mem[s.base], bv(s.off, 64)) - bv(s.off, 64))


def strspn(eng, st, fn, args, ins):
    s, set_ = args
    w = [ord(c) for c in M.cstr_name(eng, st, set_)]
    r = st.mem[s.base]
    if r.nul is None:
        raise Incomplete('strspn of an unterminated string')
    eng.oblige(simp(z3.ULE(bv(s.off, 64), bv(r.nul, 64))), 'strspn gets a terminated string')
    for n in range(8):
        b = rd(eng, r, bv(simp(bv(s.off, 64) + n), 64))
        if not eng.choose(simp(z3.Or(*[b == c for c in w]))):
            return n
    raise Incomplete('strspn of a long run')


def models(m):
    m.add('strspn', strspn, 'name')
    m.add('strcspn', strcspn, 'name')


def tname(eng, st, fn, args, ins):
    """std::type_info::name: one text per type."""
    k = ('typename', args[0].base, args[0].off)
    if k not in eng.user:
        eng.user[k] = eng.new_region(st, 'typename', 1, 'heap').id
    if eng.user[k] not in st.mem:
        r = eng.new_region(st, 'typename', 1, 'heap')
        eng.user[k] = r.id
    return Ptr(eng.user[k], 0)


T = dict(harness='C08types', contracts=[(r'std::type_info::name', tname)], redirect={r'libcwd::_private_::make_label': 'vf_make_label', r'libcwd::_private_::extract_exact_name': 'vf_extract'}, lib=True, needs=['returned'], max_len=8)
CONTRACTS = [Contract('exact_name_%d' % n, contracts=[('vf_spec_array_end', spec_end)], templates=templates, models=models, needs=['returned'], max_len=160) for n in range(4)] + [
             Contract('label', redirect={r'libcwd::_private_::demangle_type': 'vf_demangle_type'}, needs=['returned'], max_len=300),
             Contract('unknown', needs=['returned'], max_len=8),
             Contract('exact_types', **T), Contract('exact_pointers', **T), Contract('object_types', **T)]
ASSUMPTIONS = ['the compiler encodes T in libcwd_type_info_exact<T> as its qualifiers followed by an encoding of the unqualified type with the same array bounds',
               'the type_info_of templates are proved for 30 representative types (class, union, enum, array, reference, qualified, pointer, pointer to incomplete, void*)']
