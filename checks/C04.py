import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand
from vf import models as M

REDIRECT = {r'libcwd::_private_::DebugChannels::for_each_impl': 'vf_for_each', r'libcwd::_private_::match': 'vf_match', r'_ZNK6libcwd7Channel5is_onEv': 'vf_is_on', r'libcwd::Channel::on': 'vf_on', r'libcwd::Channel::off': 'vf_off', r'toupper': 'vf_toupper', r'memchr': 'vf_memchr', r'memcmp|bcmp': 'vf_memcmp'}
FILE = Contract('file', harness='C04file', lib=True, max_len=220, bounded='one rc file and one override file of at most 9 lines with at most 3 masks each, executed natively')
def models(m):
    m.add(r'.*std::__ostream_insert<char, std::char_traits<char> ?>', M.m_ret_arg0)

def written(eng, st, os, rd, n):
    return True

def templates(eng, st, f, header, vs, ev):
    """An off count does not go below -1."""
    return [Cand('%s is at least -1' % v.name, lambda vals, s, fr, i=i: simp(bv(vals[i], 32) >= -1)) for i, v in enumerate(vs) if v.w == 32 and v.ptrbase is None]

O = dict(templates=templates, opts={'max_split': 20}, models=models, user={'stream_write': written}, redirect=REDIRECT, lib=True, max_len=60)
# The list of masks.
NW = z3.Function('NEXT_WORD', z3.BitVecSort(64), z3.BitVecSort(64))
WE = z3.Function('WORD_END', z3.BitVecSort(64), z3.BitVecSort(64))

def position(F):
    def f(eng, st, fn, args, ins):
        i, n = bv(args[0], 64), bv(args[1], 64)
        eng.solver.add(z3.Implies(z3.ULE(i, n), z3.And(z3.ULE(i, F(i)), z3.ULE(F(i), n))))
        # A word is not empty.
        eng.solver.add(z3.Implies(z3.ULT(NW(i), n), z3.And(z3.ULT(NW(i), WE(NW(i))), z3.ULE(WE(NW(i)), n))))
        return simp(F(i))
    return f

def named(eng, st, fn, args, ins):
    if is_conc(args[0]):
        return args[0]
    x = eng.fresh('position', 64)
    eng.oblige(simp(z3.ULT(bv(args[0], 64), 1 << 31)), 'a position fits in an int')
    eng.solver.add(x == bv(args[0], 64), z3.ULT(x, 1 << 31))
    return x

def same_object(eng, st, fn, args, ins):
    a, b = args
    return int(type(a) is Ptr and type(b) is Ptr and a.base == b.base)

def undecided(eng, st, fn, args, ins):
    if eng.quiet:
        raise EndPath()         # Only looking for invariants.
    raise Incomplete('a use of std::string that the contract does not cover')

def list_templates(eng, st, f, header, vs, ev):
    """The list is the rest of the text; what comes before it was applied."""
    out = []
    for i, v in enumerate(vs):
        for j, w in enumerate(vs):
            if i != j and v.w == 64 and w.w == 64 and v.ptrbase is None and w.ptrbase is None:
                out.append(Cand('%s + %s is constant' % (v.name, w.name), lambda vals, s, fr, i=i, j=j: simp(z3.And(z3.ULE(bv(vals[j], 64), bv(ev[i], 64) + bv(ev[j], 64)), bv(vals[i], 64) + bv(vals[j], 64) == bv(ev[i], 64) + bv(ev[j], 64)))))
            if i != j and v.w == 64 and w.w == 64 and v.ptrbase is not None and w.ptrbase is None:
                out.append(Cand('%s is at %s' % (v.name, w.name), lambda vals, s, fr, i=i, j=j: simp(bv(vals[i], 64) == bv(vals[j], 64))))
    return out

STR = '_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
LIST = dict(harness='C04list', opts={'candidates': 'equal', 'loop_mode': {r'libcwd::RcFile::process_channels': 'inv'}}, templates=list_templates, fuzz=False, redirect={
    STR + '17find_first_not_ofEPKcm': 'vf_find_first_not_of', STR + '13find_first_ofEPKcm': 'vf_find_first_of', STR + '5eraseEmm': 'vf_erase', STR + 'C[12]ERKS4_': 'vf_copy',
    STR + '10_M_disposeEv': 'vf_dispose', r'.*std::transform<.*>': 'vf_transform', r'libcwd::_private_::DebugChannels::for_each_impl': 'vf_for_each',
    r'libcwd::RcFile::process_channel': 'vf_process_channel'}, contracts=[('vf_next_word', position(NW)), ('vf_word_end', position(WE)), ('vf_same_object', same_object), ('vf_undecided', undecided), ('vf_named', named)])
CONTRACTS = [Contract('process_channel', needs=['switched', 'elfutils', 'left alone'], **O), Contract('all_on', needs=['all'], **O), Contract('all_off', needs=['all'], **O),
             Contract('process_channels', needs=['applied', 'done'], **LIST), FILE]
FUZZ_SECONDS = 40
ASSUMPTIONS = ['a list of masks is shorter than 2^31 characters; in that contract the members of std::string that the code uses (copy, erase, find_first_of, find_first_not_of) and std::transform have their documented effect',
               'the messages to dc::rcfile change the state of no channel (C12, C13, C20)', 'labels are ASCII, or the locale is the C locale (toupper)',
               'the value of default_is_on and the parsing of the lines are covered by the bounded check of whole files only']
