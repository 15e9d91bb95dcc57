"""Assumed contracts of what lies outside the repository: libc, libstdc++, and the vf_* primitives.

Each handler gets (engine, state, fn, args, instruction) and returns the call's value.  Every handler
used in a run is listed in that run's evidence as trusted.
"""
import re
import z3
from . import engine as E
from .engine import Ptr, NULL, is_conc, bv, simp, Incomplete, EndPath, INLINE, PUSHED, boolv, mask


class Models(object):
    def __init__(self):
        self.exact = {}
        self.rx = []

    def add(self, pattern, h, by='short'):
        self.rx.append((re.compile(pattern), h, by))

    def find(self, fn):
        for rx, h, by in self.rx:
            if by == 'name':
                if rx.fullmatch(fn.name):
                    return h
            elif by == 'dem':
                if rx.fullmatch(fn.dem):
                    return h
            elif rx.fullmatch(fn.short):
                return h
        return None


def cstr_name(eng, st, p):
    """A concrete C string in constant memory (harness labels)."""
    if p.base == 0:
        return '?'
    r = st.mem[p.base]
    if type(r.fill) is bytes and is_conc(p.off):
        b = r.fill[p.off:]
        return b.split(b'\0')[0].decode('latin1')
    if r.fill == 'zero' and not r.cells:
        return ''
    return '?'


# ---------------------------------------------------------------- vf primitives
def vf_int(w):
    def h(eng, st, fn, args, ins):
        name = cstr_name(eng, st, args[0])
        v = eng.fresh(name, w)
        st.inputs.append(('int', w, v, name))
        return v
    return h


def vf_pick(eng, st, fn, args, ins):
    """Any value from lo to hi, one path for each."""
    name, lo, hi = cstr_name(eng, st, args[0]), args[1], args[2]
    v = eng.recorded(lambda: eng.fresh(name, 64))
    for c in range(lo, hi):
        if eng.choose(v == c):
            break
    else:
        c = hi
        eng.solver.add(v == hi)
    st.inputs.append(('int', 64, v, name))
    return c


def vf_assume(eng, st, fn, args, ins):
    c = args[0]
    if is_conc(c):
        if not c:
            raise EndPath()
        return NULL
    c = z3.simplify(boolv(c))
    if z3.is_true(c):
        return NULL
    eng.solver.add(c)
    if z3.is_false(c) or eng.check() == z3.unsat:
        raise EndPath()
    return NULL


def vf_assert(eng, st, fn, args, ins):
    eng.oblige(args[0], 'postcondition: ' + cstr_name(eng, st, args[1]))
    return NULL


def vf_cover(eng, st, fn, args, ins):
    n = cstr_name(eng, st, args[0])
    if not eng.quiet and n not in eng.covers:
        if eng.check() == z3.sat:
            eng.covers[n] = True
    return NULL


def vf_cstr(eng, st, fn, args, ins):
    name = cstr_name(eng, st, args[0])
    n = eng.fresh(name + '.len', 64)
    eng.solver.add(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    r = eng.new_region(st, name, simp(n + 1), 'heap')
    r.arr = eng.fresh_arr(name)
    r.nul = n
    r.const = True
    st.inputs.append(('cstr', name, n, r.arr))
    return Ptr(r.id, 0)


def vf_buf(eng, st, fn, args, ins):
    name = cstr_name(eng, st, args[0])
    n = args[1]
    if not is_conc(n):
        eng.solver.add(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    r = eng.new_region(st, name, n, 'heap')
    r.arr = eng.fresh_arr(name)
    st.inputs.append(('buf', name, n, r.arr))
    return Ptr(r.id, 0)


def vf_size(eng, st, fn, args, ins):
    v = vf_int(64)(eng, st, fn, args, ins)
    eng.solver.add(z3.ULT(v, z3.BitVecVal(1 << 40, 64)))
    return v


def vf_heap(eng, st, fn, args, ins):
    p = vf_buf(eng, st, fn, args, ins)
    st.ghost[('alloc', p.base)] = 'malloc'
    return p


def m_realloc(eng, st, fn, args, ins):
    p, n = args
    if p.base == 0:
        return m_malloc(eng, st, _Named('malloc'), [n], ins)
    r = st.mem[p.base]
    ok = r.kind == 'heap' and r.alive and is_conc(simp(p.off)) and simp(p.off) == 0 and st.ghost.get(('alloc', p.base), 'malloc') == 'malloc'
    eng.oblige(int(ok), 'realloc gets storage obtained from malloc, by its own address')
    q = eng.new_region(st, 'heap', n, 'heap')
    st.ghost[('alloc', q.id)] = 'malloc'
    # contents up to the smaller size are kept; anything beyond is arbitrary
    if r.arr is None:
        q.cells = dict(r.cells)
        if r.fill != 'undef' or not is_conc(n):
            raise Incomplete('realloc of a filled object')
    else:
        q.arr = r.arr
    w = st.wregion(p.base)
    w.alive = False
    w.cells = {}
    return Ptr(q.id, 0)


class _Named(object):
    def __init__(self, n):
        self.name = n


def m_strncpy(eng, st, fn, args, ins):
    """Copies up to the first NUL, then pads with NULs up to n."""
    d, s, n = args[0], args[1], simp(args[2])
    if is_conc(n) and n == 0:
        return d
    r = st.mem[s.base]
    if r.arr is None and r.nul is None and is_conc(n) and is_conc(s.off) and st.mem[d.base].arr is None and is_conc(d.off):
        out = []
        for i in range(n):
            eng.access(st, Ptr(s.base, s.off + i), 1, False, 'read (strncpy)')
            b = eng.get_bytes(st, r, s.off + i, 1)[0]
            if eng.choose(simp(bv(b, 8) == 0)):
                break
            out.append(b)
        eng.access(st, d, n, True, 'write (strncpy)')
        for i in range(n):
            eng.store(st, Ptr(d.base, d.off + i), out[i] if i < len(out) else 0, ['i', 8], False)
        return d
    eng.access(st, d, n, True, 'write (strncpy)')
    if r.nul is None:
        L = eng.fresh('strnlen', 64)
        lim = bv(n, 64)
    else:
        L = simp(bv(r.nul, 64) - bv(s.off, 64))
        lim = bv(n, 64)
    cp = simp(z3.If(z3.ULT(bv(L, 64), lim), bv(L, 64) + 1, lim))
    if r.nul is None:
        raise Incomplete('strncpy from a general buffer')
    eng.access(st, s, cp, False, 'read (strncpy)')
    eng.to_array(st, d.base)
    eng.to_array(st, s.base)
    rs, rd = st.mem[s.base], st.wregion(d.base)
    if eng.write_log is not None:
        eng.write_log.append((d.base, d.off, n))
    k = z3.BitVec('k!ncpy', 64)
    so, do = bv(s.off, 64), bv(d.off, 64)
    rd.arr = z3.Lambda([k], z3.If(z3.ULT(k - do, lim), z3.If(z3.ULT(k - do, bv(L, 64)), z3.Select(rs.arr, k - do + so), z3.BitVecVal(0, 8)), z3.Select(rd.arr, k)))
    rd.nul = None
    return d


# ---------------------------------------------------------------- expected output
class Sink(object):
    """Expected text as segments; pos is how much has been written (both in the ghost state)."""

    def __init__(self):
        self.segs = []      # (kind, length, payload)
        self.pos = 0


def ghost_get(st, p, kind):
    return st.ghost.get((kind, p.base))


def new_ostream(eng, st, name='ostream'):
    """An ostream object whose virtual-base layout is like libstdc++'s."""
    vt = eng.new_region(st, 'vtable(ostream)', 64, 'global')
    vt.const = True
    vt.cells[0] = (8, 64)          # vbase offset at vptr-24
    vt.cells[8] = (8, 0)
    vt.cells[16] = (8, 0)
    r = eng.new_region(st, name, 512, 'heap')
    r.fill = 'sym'
    r.cells[0] = (8, Ptr(vt.id, 24))
    r.cells[64] = (8, Ptr(vt.id, 24))
    st.ghost[('os', r.id)] = True
    return Ptr(r.id, 0)


def vf_sink(eng, st, fn, args, ins):
    p = new_ostream(eng, st, 'sink')
    st.ghost[('exp', p.base)] = ()
    st.ghost[('pos', p.base)] = 0
    return p


def add64(a, b):
    if is_conc(a) and is_conc(b):
        return (a + b) & mask(64)
    if is_conc(a) and a == 0:
        return b
    if is_conc(b) and b == 0:
        return a
    return simp(bv(a, 64) + bv(b, 64))


def push_seg(st, os, seg):
    k = ('exp', os.base)
    st.ghost[k] = st.ghost[k] + (seg,)
    return NULL


def vf_e_char(eng, st, fn, args, ins):
    return push_seg(st, args[0], ('c', 1, args[1]))


def vf_e_mem(eng, st, fn, args, ins):
    os, p, n = args
    n = simp(n)
    if is_conc(n) and n == 0:
        return NULL
    eng.access(st, p, n, False, 'read (expected text)')
    return push_seg(st, os, ('m', n, snapshot(eng, st, p, n)))


def vf_e_fill(eng, st, fn, args, ins):
    os, c, n = args
    return push_seg(st, os, ('f', simp(n), c))


OFF = z3.Function('OFF', z3.BitVecSort(64), z3.BitVecSort(64))
ESC = z3.Function('ESC', z3.BitVecSort(64), z3.BitVecSort(8))


def esc_len(c):
    two = z3.Or(z3.And(z3.UGE(c, 7), z3.ULE(c, 13)), c == 27, c == 92)
    one = z3.And(z3.UGE(c, 32), z3.ULE(c, 126), c != 92)
    return z3.If(one, z3.BitVecVal(1, 64), z3.If(two, z3.BitVecVal(2, 64), z3.BitVecVal(4, 64)))


def esc_char(c, j):
    """j-th character of the escape of c."""
    B = lambda ch: z3.BitVecVal(ord(ch), 8)
    one = z3.And(z3.UGE(c, 32), z3.ULE(c, 126), c != 92)
    tab = {7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r', 27: 'e', 92: '\\'}

    def hexd(n):
        return z3.If(z3.ULT(n, 10), n + 48, n + 55)
    if j == 0:
        return z3.If(one, c, B('\\'))
    if j == 1:
        e = B('x')
        for k, ch in tab.items():
            e = z3.If(c == k, B(ch), e)
        return e
    if j == 2:
        return hexd(z3.LShR(c, 4))
    return hexd(c & 15)


def esc_axioms(eng, seg, i):
    """Defining equations of the escape of the whole buffer at index i (start, start+1)."""
    rd, n = seg[2]['read'], bv(seg[2]['n'], 64)
    i = bv(i, 64)
    c = bv(rd(i), 8)
    eng.solver.add(z3.Implies(z3.ULT(i, n), z3.And(OFF(i + 1) == OFF(i) + esc_len(c), z3.ULE(OFF(i + 1), OFF(n)))))
    for j in range(4):
        eng.solver.add(z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(z3.BitVecVal(j, 64), esc_len(c))), ESC(OFF(i) + j) == esc_char(c, j)))
    eng.solver.add(z3.Implies(z3.ULE(i, n), z3.ULE(OFF(i), OFF(n))))


def vf_e_escape(eng, st, fn, args, ins):
    os, p, n = args
    n = simp(n)
    r = st.mem[p.base]
    seg = ('e', simp(OFF(bv(n, 64))), {'read': snapshot(eng, st, p, n), 'n': n, 'base': p})
    eng.solver.add(OFF(z3.BitVecVal(0, 64)) == 0)
    eng.solver.add(z3.ULE(OFF(bv(n, 64)), z3.BitVecVal(1 << 42, 64)))
    eng.esc_seg = seg
    # the defining equations are instantiated wherever the code reads the buffer
    g = dict(r.ghost or {})

    def on_load(eng, st, r, q, ty):
        if ty == ['i', 8]:
            esc_axioms(eng, seg, simp(bv(q.off, 64) - bv(p.off, 64)))
        return None
    g['on_load'] = on_load
    st.wregion(p.base).ghost = g
    return push_seg(st, os, seg)


def snapshot(eng, st, p, n):
    """A reader for the n bytes at p as they are now."""
    r = st.mem[p.base]
    if r.arr is None and is_conc(n) and is_conc(p.off) and n <= 4096:
        bs = eng.get_bytes(st, r, p.off, n)

        def rd(i):
            if is_conc(i):
                return bs[i] if i < len(bs) else 0
            e = bv(0, 8)
            for k, b in enumerate(bs):
                e = z3.If(bv(i, 64) == k, bv(b, 8), e)
            return e
        return rd
    eng.to_array(st, p.base)
    arr, off, nul = st.mem[p.base].arr, p.off, st.mem[p.base].nul

    def rd2(i):
        o = add64(off, i)
        if nul is not None:
            b = z3.Select(arr, bv(o, 64))
            eng.solver.add(z3.Implies(z3.ULT(bv(o, 64), bv(nul, 64)), b != 0))
        return z3.simplify(z3.Select(arr, bv(o, 64)))
    return rd2


def expected_len(st, os):
    t = 0
    for s in st.ghost[('exp', os.base)]:
        t = add64(t, s[1])
    return t


def expected_at(eng, st, os, x):
    """The expected character at position x."""
    start = 0
    parts = []
    for kind, ln, pay in st.ghost[('exp', os.base)]:
        parts.append((start, ln, kind, pay))
        start = add64(start, ln)
    e = None
    for start, ln, kind, pay in parts:
        if is_conc(x) and is_conc(start):
            if x < start:
                continue
            if is_conc(ln) and x >= start + ln:
                continue
        rel = simp(bv(x, 64) - bv(start, 64))
        inside = simp(z3.ULT(bv(rel, 64), bv(ln, 64)))
        if is_conc(inside) and not inside:
            continue
        if kind == 'c' or kind == 'f':
            v = pay
        elif kind == 'm':
            v = pay(rel)
        elif kind == 'e':
            v = ESC(bv(rel, 64))
        elif kind == 't':
            v = tok_char(pay, rel)
        if is_conc(inside) and inside:
            return v if e is None else fold(e + [(True, v)])
        e = (e or []) + [(inside, v)]
    if e is None:
        return None
    return fold(e)


def fold(lst):
    r = z3.BitVecVal(0, 8)
    for c, v in reversed(lst):
        r = bv(v, 8) if c is True else z3.If(c, bv(v, 8), r)
    return simp(r)


TOKLEN = z3.Function('TOKLEN', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(64))
TOKCH = z3.Function('TOKCH', z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))


def tok_char(pay, rel):
    return TOKCH(bv(pay[0], 32), bv(pay[1], 64), bv(rel, 64))


def same(a, b):
    if is_conc(a) and is_conc(b):
        return a == b
    return simp_eq(a, b)


def simp_eq(a, b):
    d = simp(bv(a, 64) - bv(b, 64))
    return is_conc(d) and d == 0


def seg_starts(st, os):
    t, out = 0, []
    for s in st.ghost[('exp', os.base)]:
        out.append(t)
        t = add64(t, s[1])
    out.append(t)
    return out


def seg_at(eng, seg, rel):
    kind, ln, pay = seg
    if kind in 'cf':
        return pay
    if kind == 'm':
        return pay(rel)
    if kind == 'e':
        return ESC(bv(rel, 64))
    return tok_char(pay, rel)


def find_seg(eng, st, os, pos, n):
    """The expected segment that the n characters from pos on are inside of, with the position in it."""
    segs = st.ghost[('exp', os.base)]
    starts = seg_starts(st, os)
    for j in range(len(segs)):
        if not same(pos, starts[j]):
            continue
        # segments in between that are empty here
        for i in range(j, len(segs)):
            if same(n, segs[i][1]) or (is_conc(n) and is_conc(segs[i][1]) and n < segs[i][1]):
                return i, 0
            if not is_conc(n) and not is_conc(segs[i][1]) and eng.check(z3.Not(z3.ULE(bv(n, 64), bv(segs[i][1], 64)))) == z3.unsat:
                return i, 0
            if is_conc(segs[i][1]) or eng.check(bv(segs[i][1], 64) != 0) != z3.unsat:
                break
    for j in range(len(segs)):
        rel = simp(bv(pos, 64) - bv(starts[j], 64))
        ln = bv(segs[j][1], 64)
        c = simp(z3.And(z3.ULT(bv(rel, 64), ln), z3.ULE(bv(n, 64), ln - bv(rel, 64))))
        if (is_conc(c) and c) or (not is_conc(c) and eng.check(z3.Not(c)) == z3.unsat):
            return j, rel
    return None


def sink_write(eng, st, os, rd, n, what='write'):
    """The code writes n characters rd(0..n-1)."""
    k = ('exp', os.base)
    pos = st.ghost[('pos', os.base)]
    end = add64(pos, n)
    segs = st.ghost[k]
    if is_conc(n) and n > 1 and len(segs) > 1 and not any(s[0] == 'e' for s in segs):
        # a write that spans more than one segment
        starts = seg_starts(st, os)
        for j in range(len(segs)):
            if same(pos, starts[j]):
                for i in range(j, len(segs)):
                    if is_conc(segs[i][1]):
                        if 0 < segs[i][1] < n:
                            c = segs[i][1]
                            sink_write(eng, st, os, rd, c)
                            return sink_write(eng, st, os, lambda k: rd(add64(c, k)), n - c)
                        if segs[i][1] > 0:
                            break
                    elif eng.check(bv(segs[i][1], 64) != 0) != z3.unsat:
                        break
                break
    hit = find_seg(eng, st, os, pos, n) if len(segs) > 1 and not any(s[0] == 'e' for s in segs) else None
    if hit:
        seg, rel0 = segs[hit[0]], hit[1]
        at = lambda i: seg_at(eng, seg, add64(rel0, i))
        if is_conc(rel0) and rel0 == 0 and (same(n, seg[1]) or not (is_conc(n) and is_conc(seg[1])) and eng.check(bv(n, 64) != bv(seg[1], 64)) == z3.unsat):
            end = seg_starts(st, os)[hit[0] + 1]
    else:
        total = expected_len(st, os)
        eng.oblige(simp(z3.And(z3.ULE(bv(end, 64), bv(total, 64)), z3.ULE(bv(pos, 64), bv(end, 64)))), 'nothing beyond the expected text is written')
        at = lambda i: expected_at(eng, st, os, add64(pos, i))
    if is_conc(n) and n <= 64:
        for i in range(n):
            e = at(i)
            b = rd(i)
            if e is None:
                eng.oblige(0, 'each character written is the expected one')
            eng.oblige(simp(bv(b, 8) == bv(e, 8)), 'each character written is the expected one')
    else:
        i = eng.fresh('k', 64)
        e = at(i)
        b = rd(i)
        if e is None:
            e = 0
        eng.oblige(simp(z3.Implies(z3.ULT(i, bv(n, 64)), bv(b, 8) == bv(e, 8))), 'each character written is the expected one')
    st.ghost[('pos', os.base)] = end


def vf_expect_done(eng, st, fn, args, ins):
    os = args[0]
    pos = st.ghost[('pos', os.base)]
    starts = seg_starts(st, os)
    segs = st.ghost[('exp', os.base)]
    what = 'postcondition: %s (nothing missing)' % cstr_name(eng, st, args[1])
    for j in range(len(segs), -1, -1):
        if same(pos, starts[j]):
            rest = [bv(s[1], 64) == 0 for s in segs[j:]]
            eng.oblige(simp(z3.And(*rest)) if rest else 1, what)
            return NULL
    eng.oblige(simp(bv(starts[-1], 64) == bv(pos, 64)), what)
    return NULL


def os_of(st, p):
    """ios_base pointers are interior pointers of the same object."""
    return Ptr(p.base, 0)


def stream_write(eng, st, os, rd, n):
    h = eng.user.get('stream_write')
    if h and h(eng, st, os, rd, n):
        return
    if ('exp', os.base) in st.ghost:
        sink_write(eng, st, os, rd, n)
        return
    raise Incomplete('write to an unmodelled stream')


def os_put(eng, st, fn, args, ins):
    stream_write(eng, st, args[0], lambda i: args[1], 1)
    return args[0]


def os_write(eng, st, fn, args, ins):
    os, p, n = args
    n = simp(n)
    if is_conc(n) and n == 0:
        return os
    eng.access(st, p, n, False, 'read (ostream::write)')
    stream_write(eng, st, os, snapshot(eng, st, p, n), n)
    return os


def os_cstr(eng, st, fn, args, ins):
    os, p = args
    n = strlen(eng, st, p)
    if is_conc(n) and n == 0:
        return os
    stream_write(eng, st, os, snapshot(eng, st, p, n), n)
    return os


# ---------------------------------------------------------------- libc
def strlen(eng, st, p):
    if p.base == 0:
        eng.access(st, p, 1, False, 'read (string)')
    r = st.mem[p.base]
    if not r.alive:
        eng.oblige(0, 'no read of freed or out-of-scope memory')
    if r.nul is not None:
        eng.oblige(simp(z3.ULE(bv(p.off, 64), bv(r.nul, 64))), 'string argument inside its object')
        return simp(bv(r.nul, 64) - bv(p.off, 64))
    if type(r.fill) is bytes and not r.cells and r.arr is None and is_conc(p.off):
        b = r.fill + b'\0' * (r.size - len(r.fill))
        k = b.find(b'\0', p.off)
        if k < 0:
            eng.oblige(0, 'string argument is NUL-terminated inside its object')
        return k - p.off
    if r.arr is None and is_conc(p.off) and is_conc(r.size):
        i = p.off
        while i < r.size:
            b = eng.get_bytes(st, st.mem[p.base], i, 1)[0]
            z = simp(bv(b, 8) == 0)
            if eng.choose(z):
                return i - p.off
            i += 1
        eng.oblige(0, 'string argument is NUL-terminated inside its object')
    if r.arr is None and not is_conc(simp(p.off)) and is_conc(r.size) and r.size <= 64:
        for v in eng.recorded(lambda: eng.candidate_offsets(st, simp(p.off))):
            if eng.choose(bv(p.off, 64) == v):
                return strlen(eng, st, Ptr(p.base, v))
        raise EndPath()
    h = eng.user.get('strlen')
    if h:
        v = h(eng, st, p)
        if v is not None:
            return v
    # some terminator inside the object is required
    raise Incomplete('strlen of a general buffer')


def m_strlen(eng, st, fn, args, ins):
    return strlen(eng, st, args[0])


def m_strcmp(eng, st, fn, args, ins):
    a, b = args[0], args[1]
    lim = args[2] if len(args) > 2 else None
    ca, cb = const_str(eng, st, a), const_str(eng, st, b)
    if ca is not None and cb is not None and (lim is None or is_conc(lim)):
        if lim is not None:
            ca, cb = ca[:lim], cb[:lim]
        return 0 if ca == cb else (1 if ca > cb else mask(32))
    if cb is None and ca is not None:
        r = m_cmp_const(eng, st, b, ca, lim)
        return simp(z3.If(bv(r, 32) == 0, bv(0, 32), -bv(r, 32)))
    if cb is not None:
        return m_cmp_const(eng, st, a, cb, lim)
    raise Incomplete('strcmp of two symbolic strings')


def m_cmp_const(eng, st, a, c, lim):
    """strcmp/strncmp(a, c) with c constant: 0, or the sign of the first difference."""
    if lim is not None and not is_conc(lim):
        lim = simp(lim)
    n = len(c) + 1
    if lim is not None and is_conc(lim):
        n = min(n, lim)
    res = bv(0, 32)
    conds = []
    # read bytes one by one; reading stops at the first difference
    c0 = c + b'\0'
    diffs = []
    for i in range(n):
        if lim is not None and not is_conc(lim):
            # length limit symbolic
            if eng.choose(z3.ULE(bv(lim, 64), i)):
                return 0
        p = Ptr(a.base, eng.addoff(a.off, i))
        v = eng.load(st, p, ['i', 8])
        d = simp(bv(v, 8) != c0[i])
        if eng.choose(d):
            return simp(z3.If(z3.ULT(bv(v, 8), c0[i]), bv(mask(32), 32), bv(1, 32)))
    return 0


def const_str(eng, st, p):
    if p.base == 0:
        return None
    r = st.mem[p.base]
    if not is_conc(p.off) or r.arr is not None:
        return None
    if type(r.fill) is bytes and not r.cells:
        b = r.fill[p.off:]
        k = b.find(b'\0')
        return b[:k] if k >= 0 else b
    if r.fill == 'zero' and not r.cells:
        return b''
    if is_conc(r.size) and r.size <= 64:
        out = []
        i = p.off
        while i < r.size:
            if not eng.covered(r, i) and r.fill not in ('zero',) and type(r.fill) is not bytes:
                return None
            b = eng.get_bytes(st, r, i, 1)[0]
            if not is_conc(b):
                return None
            if b == 0:
                return bytes(out)
            out.append(b)
            i += 1
    return None


def m_strcpy(eng, st, fn, args, ins):
    d, s = args
    n = strlen(eng, st, s)
    st = eng.cur
    a = st.mem[s.base].arr
    if a is not None:
        eng.solver.add(z3.Select(a, bv(s.off, 64) + bv(n, 64)) == 0)
    eng.memcpy(st, d, s, simp(bv(n, 64) + 1))
    if is_conc(d.off) and d.off == 0 and st.mem[d.base].arr is not None:
        st.wregion(d.base).nul = n
    return d


def m_strrchr(eng, st, fn, args, ins):
    """The last occurrence of a character other than NUL, or null."""
    p, c = args
    if not is_conc(c) or c & 255 == 0:
        raise Incomplete('strrchr of an arbitrary character')
    n = strlen(eng, st, p)
    st = eng.cur
    eng.to_array(st, p.base)
    r = st.mem[p.base]
    a0, p0, c = r.arr, bv(p.off, 64), z3.BitVecVal(c & 255, 8)
    end = simp(p0 + bv(n, 64))
    hit = eng.recorded(lambda: eng.fresh('strrchr.found', 1))
    q = eng.recorded(lambda: eng.fresh('strrchr.at', 64))
    found = eng.choose(hit)
    if found:
        eng.solver.add(z3.ULE(p0, q), z3.ULT(q, bv(end, 64)), z3.Select(a0, q) == c)
        lo = q + 1
    else:
        lo = p0
    g = dict(st.mem[p.base].ghost or {})
    old = g.get('on_load')

    def on_load(eng, st, r, l, ty):
        if ty == ['i', 8]:
            o = bv(l.off, 64)
            eng.solver.add(z3.Implies(z3.And(z3.UGE(o, lo), z3.ULE(o, bv(end, 64))), z3.Select(a0, o) != c))
        return old(eng, st, r, l, ty) if old else None
    g['on_load'] = on_load
    st.wregion(p.base).ghost = g
    return Ptr(p.base, simp(q)) if found else NULL


def m_malloc(eng, st, fn, args, ins):
    n = args[-1] if fn.name == 'calloc' else args[0]
    if fn.name == 'calloc':
        n = eng.binop('mul', 64, args[0], args[1])
    r = eng.new_region(st, 'heap', n, 'heap')
    if not is_conc(n):
        r.arr = eng.fresh_arr('heap')
    if fn.name == 'calloc':
        r.fill = 'zero'
    st.ghost[('alloc', r.id)] = {'malloc': 'malloc', 'calloc': 'malloc', '_Znwm': 'new', '_Znam': 'new[]'}.get(fn.name, 'malloc')
    return Ptr(r.id, 0)


def m_free(eng, st, fn, args, ins):
    p = args[0]
    if p.base == 0:
        if is_conc(p.off) and p.off == 0:
            return NULL
        raise Incomplete('free of an arbitrary pointer')
    kind = {'free': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]'}[fn.name]
    r = st.mem[p.base]
    ok = r.kind == 'heap' and r.alive and is_conc(simp(p.off)) and simp(p.off) == 0
    eng.oblige(int(ok), 'storage is released at most once, by its own address')
    eng.oblige(int(st.ghost.get(('alloc', p.base), kind) == kind), 'storage is released the way it was obtained')
    w = st.wregion(p.base)
    w.alive = False
    w.cells = {}
    st.ghost['frees'] = st.ghost.get('frees', ()) + (p.base,)
    return NULL


def m_memcpy(eng, st, fn, args, ins):
    eng.memcpy(st, args[0], args[1], simp(args[2]))
    return args[0]


def m_memset(eng, st, fn, args, ins):
    c = eng.trunc(args[1], 32, 8)
    eng.memset(st, args[0], c, simp(args[2]))
    return args[0]


def m_nop(eng, st, fn, args, ins):
    if fn.ret[0] == 'v':
        return NULL
    return 0 if fn.ret[0] == 'i' else NULL


def m_ret_arg0(eng, st, fn, args, ins):
    return args[0]


def m_noreturn(eng, st, fn, args, ins):
    h = eng.user.get('noreturn')
    if h:
        h(eng, st, fn, args)
    raise EndPath()


def m_assert_fail(eng, st, fn, args, ins):
    eng.oblige(0, 'the assertion in the code holds')
    raise EndPath()


def m_abort(eng, st, fn, args, ins):
    eng.oblige(0, 'abort is not reached')
    raise EndPath()


def m_fatal(eng, st, fn, args, ins):
    """The program ends with a fatal message: allowed exactly where the contract says so."""
    e = st.ghost.get('fatal', 0)
    eng.oblige(e if is_conc(e) else boolv(e), 'a fatal error happens only where the contract requires one')
    raise EndPath()


def vf_expect_fatal(eng, st, fn, args, ins):
    st.ghost['fatal'] = args[0]
    return NULL


def vf_arbitrary(eng, st, fn, args, ins):
    r = eng.new_region(st, 'arbitrary', args[0], 'heap')
    r.arr = eng.fresh_arr('arbitrary')
    return Ptr(r.id, 0)


def m_throw(eng, st, fn, args, ins):
    h = eng.user.get('throw')
    if h:
        h(eng, st, fn, args)
    raise EndPath()


def base_models():
    m = Models()
    a = m.add
    a('vf_u64', vf_int(64))
    a('vf_u32', vf_int(32))
    a('vf_u16', vf_int(16))
    a('vf_u8', vf_int(8))
    a('vf_bool', vf_int(1))
    a('vf_pick', vf_pick)
    a('vf_assume', vf_assume)
    a('vf_assert', vf_assert)
    a('vf_cover', vf_cover)
    a('vf_cstr', vf_cstr)
    a('vf_buf', vf_buf)
    a('vf_size', vf_size)
    a('vf_heap', vf_heap)
    a('realloc', m_realloc, 'name')
    a('strncpy', m_strncpy, 'name')
    a('vf_symbolic', lambda *x: 1)
    a('vf_sink', vf_sink)
    a('vf_e_char', vf_e_char)
    a('vf_e_mem', vf_e_mem)
    a('vf_e_fill', vf_e_fill)
    a('vf_e_escape', vf_e_escape)
    a('vf_expect_done', vf_expect_done)
    # ostream
    a(r'std::ostream::put|std::basic_ostream<char, std::char_traits<char> ?>::put', os_put)
    a(r'std::ostream::write|std::basic_ostream<char, std::char_traits<char> ?>::write', os_write)
    a(r'std::(basic_ostream<char, std::char_traits<char> ?>& std::)?operator<< ?<(std::char_traits<char>|char, std::char_traits<char>) ?>', os_inserter)
    a(r'strlen', m_strlen)
    a(r'strcmp|strncmp', m_strcmp)
    a(r'malloc|calloc|_Znwm|_Znam', m_malloc, 'name')
    a(r'free|_ZdlPv|_ZdlPvm|_ZdaPv|_ZdaPvm', m_free, 'name')
    a(r'memcpy|memmove', m_memcpy, 'name')
    a(r'memset', m_memset, 'name')
    a(r'strcpy', m_strcpy, 'name')
    a(r'strrchr', m_strrchr, 'name')
    a(r'__assert_fail', m_assert_fail, 'name')
    a(r'libcwd::_private_::assert_fail', m_assert_fail)
    a(r'__cxa_throw', m_throw, 'name')
    a(r'abort', m_fatal, 'name')
    a(r'libcwd::core_dump', m_fatal)
    a(r'libcwd::FatalChannelSetBootstrap::FatalChannelSetBootstrap', m_fatal)
    a(r'vf_expect_fatal', vf_expect_fatal)
    a(r'vf_arbitrary', vf_arbitrary)
    a(r'__cxa_atexit|__cxa_guard_release|__cxa_guard_abort', m_nop, 'name')
    return m


def os_inserter(eng, st, fn, args, ins):
    d = fn.dem
    if re.search(r', (signed |unsigned )?char\)$', d):
        return os_put(eng, st, fn, args, ins)
    if re.search(r', (signed |unsigned )?char const\*\)$', d):
        return os_cstr(eng, st, fn, args, ins)
    if fn.decl:
        raise Incomplete('no contract for %s' % d)
    return INLINE
