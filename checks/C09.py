import re
import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand

S = r'__gnu_cxx::demangler::session<VA<char>\s*>::'
D1 = ['bare_function_type', 'builtin_type', 'call_offset', 'class_enum_type', 'expression', 'literal', 'local_name', 'number', 'operator_name',
      'source_name', 'template_args', 'unqualified_name', 'unscoped_name', 'non_negative_decimal_integer', 'special_name']
D2 = ['name', 'nested_name']
DQ = ['type', 'substitution', 'template_param']
RED = {S + 'decode_' + n: 'vf_' + n for n in D1 + D2 + DQ + ['type_with_postfix', 'real', 'encoding']}
QL = r'__gnu_cxx::demangler::qualifier_list<VA<char>\s*>::'
RED[QL + 'decode_qualifiers'] = 'vf_qualifiers'
RED[QL + 'decode_KVrA'] = 'vf_KVrA'


RAW = '_ZN12_GLOBAL__N_13rawE'


def cell(eng, s, name, off, n):
    """A part of a variable."""
    for rid, r in sorted(s.mem.items(), key=lambda x: -x[0]):
        if r.name == name:
            q = eng.quiet
            eng.quiet += 1
            v = eng.load(s, Ptr(rid, off), ['i', n], False)
            eng.quiet = q
            return bv(v, n)
    raise Incomplete('no ' + name)


def field(eng, s, off, n=32):
    """A member of the session."""
    return cell(eng, s, RAW, off, n)


def templates(eng, st, f, header, vs, ev):
    """The position stays in the input, what is counted is bounded by how far it went."""
    out = []
    pos = lambda s: field(eng, s, 8)
    last = lambda s: field(eng, s, 12)

    def add(name, g):
        out.append(Cand(name, lambda vals, s, fr: simp(g(vals, s))))
    p0 = pos(st)
    add('pos >= 0', lambda v, s: pos(s) >= 0)
    add('pos <= last', lambda v, s: pos(s) <= last(s))
    add('pos <= last + 1', lambda v, s: pos(s) <= last(s) + 1)
    add('pos <= last + 1 or at its start', lambda v, s: z3.Or(pos(s) <= last(s) + 1, pos(s) == p0))
    add('pos <= last + 4', lambda v, s: pos(s) <= last(s) + 4)
    add('pos >= entry', lambda v, s: pos(s) >= p0)
    add('pos > started', lambda v, s: pos(s) > cell(eng, s, '_ZN12_GLOBAL__N_17startedE', 0, 32))
    add('no failure', lambda v, s: field(eng, s, 16, 8) == 1)
    for off in (20, 24, 28):
        for k in (-1, 0, 1):
            e = simp(field(eng, st, off) + k)
            add('counter %d is as before%+d' % (off, k), lambda v, s, off=off, e=e: field(eng, s, off) == e)
    for off in (56, 80):
        add('%d elements' % off, lambda v, s, off=off: z3.ULT(field(eng, s, off, 64), 1 << 24))
    size = lambda s: cell(eng, s, '_ZN12_GLOBAL__N_11uE', 8, 64)
    iter = lambda s: cell(eng, s, 'iter', 0, 64)
    if f.fn.name.find('qualifier_list') >= 0:
        add('the cursor is in the qualifiers', lambda v, s: z3.And(z3.ULE(iter(s), size(s)), cell(eng, s, 'iter', 8, 64) == size(s), z3.ULT(size(s), 1 << 24)))
        add('the array is in the qualifiers', lambda v, s: z3.ULT(cell(eng, s, 'iter_array', 0, 64), cell(eng, s, 'iter_array', 8, 64)))
    else:
        add('the qualifiers', lambda v, s: z3.ULT(size(s), 1 << 24))
    for i, x in enumerate(vs):
        if x.ptrbase is not None:
            add(x.name + ' is in the input', lambda v, s, i=i: bv(v[i], 64) <= z3.SignExt(32, pos(s)))
            e = bv(ev[i], 64)
            add(x.name + ' went backwards', lambda v, s, i=i, e=e: z3.And(bv(v[i], 64) <= e, bv(v[i], 64) >= 0))
            for j, y in enumerate(vs):
                if y.kind == 'phi' and y.w == 64 and y.ptrbase is None:
                    g = bv(ev[j], 64)
                    add(x.name + ' moves on when %s does' % y.name, lambda v, s, i=i, j=j, e=e, g=g: z3.And(bv(v[i], 64) - e == 8 * (g - bv(v[j], 64)), z3.ULE(bv(v[j], 64), g)))
            continue
        if x.kind != 'phi' and x.name.startswith('_ZN12_GLOBAL'):
            continue
        if x.w == 32:
            e = bv(ev[i], 32)
            add(x.name + ' changes with the position', lambda v, s, i=i, e=e: z3.Or(bv(v[i], 32) == e, pos(s) > p0))
            add(x.name + ' is not negative', lambda v, s, i=i: bv(v[i], 32) >= 0)
            add(x.name + ' is at most the position', lambda v, s, i=i: bv(v[i], 32) <= pos(s) - p0)
            add(x.name + ' is at most the position + 1', lambda v, s, i=i: bv(v[i], 32) <= pos(s) - p0 + 1)
            add(x.name + ' counts the position', lambda v, s, i=i, e=e: bv(v[i], 32) - e == pos(s) - p0)
            add(x.name + ' counts down to the position', lambda v, s, i=i, e=e: e - bv(v[i], 32) == pos(s) - p0)
            add(x.name + ' fits in the input', lambda v, s, i=i, e=e: bv(v[i], 32) <= last(s) + 1)
            add(x.name + ' <= 8', lambda v, s, i=i: z3.ULE(bv(v[i], 32), 8))
            add(x.name + ' <= entry', lambda v, s, i=i, e=e: bv(v[i], 32) <= e)
            if f.fn.name.find('qualifier_list') >= 0:
                add(x.name + ' counts arrays', lambda v, s, i=i: z3.ULE(z3.ZeroExt(32, bv(v[i], 32)), 32 * iter(s) + 31))
                add(x.name + ' is there if there is an array', lambda v, s, i=i: z3.Or(bv(v[i], 32) & 8 == 0, z3.And(
                    z3.ULT(cell(eng, s, 'iter_array', 0, 64), size(s)), cell(eng, s, 'iter_array', 8, 64) == size(s))))
                add(x.name + ' counts arrays down', lambda v, s, i=i: z3.And(bv(v[i], 32) >= -z3.Extract(31, 0, iter(s)), bv(v[i], 32) <= 1 << 26))
        if x.w == 8:
            add(x.name + ' is from the input', lambda v, s, i=i: z3.Or(bv(v[i], 8) == 0, pos(s) <= last(s)))
        if x.w == 64 and x.ptrbase is None:
            e = bv(ev[i], 64)
            add(x.name + ' changes with the position', lambda v, s, i=i, e=e: z3.Or(bv(v[i], 64) == e, pos(s) > p0))
            add(x.name + ' grows', lambda v, s, i=i, e=e: z3.Or(e == 0, bv(v[i], 64) != 0))
            add(x.name + ' is not 0', lambda v, s, i=i: bv(v[i], 64) != 0)
    return out


O = dict(fuzz=False, templates=templates, opts={'direct': True, 'check_overflow': True, 'candidates': 'equal', 'loop_mode': {r'__gnu_cxx::demangler::.*': 'inv'}})


def C(n, **k):
    return Contract(n, redirect=RED, **dict(O, **k))


CONTRACTS = [C(n) for n in D1 + D2 + DQ + [n + '_qualified' for n in DQ] + ['type_with_postfix', 'type_with_postfix_qualified', 'real', 'encoding', 'qualifiers', 'KVrA']]
CONTRACTS += [Contract('names', bounded=True, max_len=64), Contract('reals', bounded=True)]
ASSUMPTIONS = ['the input has fewer than 2^30 characters and fewer than 2^24 substitutions, template arguments or qualifiers of one type',
               'the stack and the memory suffice: the text of a name may grow exponentially with its length; that a name is decoded in finite time is not proved, only that template parameters do not nest without limit',
               'std::string and std::vector behave as documented; in the proofs strings only remember whether they are empty, vectors are described at one arbitrary element, the lifetime of references into a growing vector is not modelled',
               'reals take at most 28 characters (print_IEEE_fp): bounded, not proved']
