"""What the checks of the debug object (C13, C14, C18, C19) share."""
import re
import z3
from .check import Contract
from .engine import *
from .houdini import Cand
from . import models as M


def alias(eng, st, fn, args, ins):
    st.ghost[('alias', args[0].base)] = args[1].base
    return NULL


def lock_needed(eng, st, fn, args, ins):
    v = args[0]
    st.ghost['lock_needed'] = int(v != 0) if is_conc(v) else simp(z3.If(boolv(v), bv(1, 64), bv(0, 64)))
    st.ghost.setdefault('lock_held', 0)
    return NULL


def lock_event(eng, st, fn, args, ins):
    v = args[0]
    st.ghost['lock_held'] = int(v != 0) if is_conc(v) else simp(z3.If(bv(v, 32) != 0, bv(1, 64), bv(0, 64)))
    return NULL


def stream_write(eng, st, os, rd, n):
    real = ('exp', os.base) in st.ghost
    b = st.ghost.get(('alias', os.base), os.base)
    if ('exp', b) not in st.ghost:
        return False
    if real and 'lock_needed' in st.ghost:
        need, held = st.ghost['lock_needed'], st.ghost['lock_held']
        eng.oblige(simp(z3.Or(bv(need, 64) == 0, bv(held, 64) != 0)), 'the stream is written to with its lock held')
    M.sink_write(eng, st, Ptr(b, 0), rd, n)
    return True


def flush(eng, st, fn, args, ins):
    st.ghost['flushed'] = simp(bv(st.ghost.get('flushed', 0), 64) + 1)
    if 'lock_needed' in st.ghost:
        need, held = st.ghost['lock_needed'], st.ghost['lock_held']
        eng.oblige(simp(z3.Or(bv(need, 64) == 0, bv(held, 64) != 0)), 'the stream is flushed with its lock held')
    return args[0]


def flushes(eng, st, fn, args, ins):
    return eng.trunc(st.ghost.get('flushed', 0), 64, 32)


def nop0(eng, st, fn, args, ins):
    return 0


def indirect(eng, st, p):
    return None


def sink_pos(eng, st, fn, args, ins):
    return st.ghost[('pos', args[0].base)]


ST = r'libcwd::_private_::DebugStack<libcwd::OutputState ?\*>::'
SB = r'std::basic_streambuf<char, std::char_traits<char> ?>::'
REDIRECT = {SB + 'pubseekoff': 'vf_sb_seekoff', SB + 'pubseekpos': 'vf_sb_seekpos', SB + 'sgetn': 'vf_sb_sgetn', SB + 'sgetc': 'vf_sb_sgetc', SB + 'snextc': 'vf_sb_snextc'}


def models(m):
    m.add('vf_alias', alias)
    m.add('vf_lock_needed', lock_needed)
    m.add('vf_lock_event', lock_event)
    m.add('vf_flushes', flushes)
    m.add('vf_sink_pos', sink_pos)
    m.add(r'nanosleep', nop0, 'name')
    m.add(r'std::(__cxx11::)?basic_(stringbuf|streambuf|ostream|ios|istream)<.*>::~?basic_(stringbuf|streambuf|ostream|ios|istream)|libcwd::_private_::BufferStream::~BufferStream', M.m_nop)
    m.add(r'std::ios_base::~?ios_base|std::locale::~?locale', M.m_nop)
    m.add(r'std::ostream::flush|std::basic_ostream<char, std::char_traits<char> ?>::flush', flush)
    m.add(r'pthread_mutex_lock|pthread_mutex_unlock', nop0, 'name')
    m.add(r'std::mutex::(lock|unlock)', M.m_nop)


def whitespace(eng, st, fn, args, ins):
    """The contract of write_whitespace_to, for its callers."""
    n = args[1]
    n = simp(z3.ZeroExt(32, n)) if not is_conc(n) else n
    if not (is_conc(n) and n == 0):
        M.stream_write(eng, st, args[0], lambda i: 32, n)
    return NULL


def whitespace_templates(eng, st, f, header, vs, ev):
    """As many characters were written as the counter went down."""
    out = []
    pos = [i for i, v in enumerate(vs) if v.kind == 'ghost']
    for i, v in enumerate(vs):
        for j in pos:
            if v.kind == 'phi' and v.w == 32 and v.ptrbase is None:
                out.append(Cand('%s goes down as %s goes up' % (v.name, vs[j].name), lambda vals, s, fr, i=i, j=j: simp(z3.And(z3.ULE(bv(vals[i], 32), bv(ev[i], 32)),
                    z3.ZeroExt(32, bv(ev[i], 32)) - z3.ZeroExt(32, bv(vals[i], 32)) == bv(vals[j], 64) - bv(ev[j], 64)))))
    return out


def prefix_templates(eng, st, f, header, vs, ev):
    """How far the text is read, relative to how many characters were written."""
    import z3
    out = []
    pos = [i for i, v in enumerate(vs) if v.kind == 'ghost']
    for i, v in enumerate(vs):
        for j in pos:
            if i != j and v.kind == 'cell' and v.w == 64 and v.ptrbase is None:
                out.append(Cand('%s is one behind %s' % (v.name, vs[j].name), lambda vals, s, fr, i=i, j=j: simp(
                    bv(vals[i], 64) == z3.If(bv(vals[j], 64) == bv(ev[j], 64), bv(ev[i], 64), bv(ev[i], 64) + bv(vals[j], 64) - bv(ev[j], 64) - 1))))
    return out


W = dict(harness='C13', models=models, redirect=REDIRECT, user={'stream_write': stream_write}, max_len=16, fuzz=False, lib=True)
WT = dict(W, redirect=dict(REDIRECT, **{r'libcwd::Buffer::write_prefix_to': 'vf_write_prefix_to'}))
MSG = dict(W, redirect=dict(REDIRECT, **{
    r'libcwd::Buffer::writeto': 'vf_writeto', r'__errno_location': 'vf_errno_location', r'libcwd::_private_::BufferStream::BufferStream': 'vf_bufferstream',
    ST + 'push': 'vf_stack_push', ST + 'pop': 'vf_stack_pop', ST + 'top': 'vf_stack_top', ST + 'size': 'vf_stack_size',
    r'libcwd::FatalChannelSetBootstrap::FatalChannelSetBootstrap': 'vf_fatal_start', r'libcwd::strerrno': 'vf_strerrno', r'strerror_r': 'vf_strerror_r',
    r'std::(istream|basic_istream<char, std::char_traits<char> ?>)::get': 'vf_cin_get', r'libcwd::_private_::claim_fatal_termination_ownership': 'vf_claim',
    r'std::this_thread::sleep_for<.*>': 'vf_sleep', r'abort': 'vf_abort', r'_Exit': 'vf_exit'}))
MSGS = dict(MSG, contracts=[(r'libcwd::write_whitespace_to', whitespace)])

WRITETO = [Contract('writeto_' + n, needs=['written'], harness='C13', **{k: v for k, v in WT.items() if k != 'harness'}) for n in
           ['plain', 'unfinished', 'continued', 'continued_unfinished'] + ['other_thread_%d%d%d' % (a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]]
HISTORY = Contract('history', harness='C13hist', lib=True, max_len=160, hang=True, bounded='whole histories of at most 24 statements, nested at most 4 deep, executed natively')
ASSUMED = ['std::stringbuf keeps its text and its positions (pubseekoff, pubseekpos, sgetn, sgetc, snextc as documented)',
           'margin, marker and color strings are shorter than 2^31 characters, an unwritten text is shorter than 2^31 - 1',
           'the program is single threaded (WST_multi_threaded is false); the state of another thread is arbitrary but does not change meanwhile',
           'the bounded wait for a contended lock before the fatal error about a missing continued_cf may end in a write without the lock',
           'std::cin.get returns a newline after finitely many characters (wait_cf)']
