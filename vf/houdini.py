"""Cutting a loop at its header with an inferred inductive invariant.

Candidates come from templates over everything the loop changes (phi values, memory cells, ghost
values) related to the values on entry and to other values in scope; the largest inductive subset is
kept.  The surviving conjunction is then an obligation on entry and on every back edge of the real
exploration, so nothing is trusted here: a bad inference can only make a proof fail.
"""
import sys
import z3
from . import engine as E
from .engine import Ptr, is_conc, bv, simp, Incomplete, EndPath, boolv
from .ir import tsize


class Var(object):
    """Something the loop changes."""

    def __init__(self, kind, key, name):
        self.kind = kind      # phi | cell | ghost
        self.key = key
        self.name = name
        self.ptrbase = None
        self.w = None         # width of the scalar

    def get(self, eng, st, f):
        if self.kind == 'phi':
            v = f.regs.get(self.key)
        elif self.kind == 'cell':
            r = st.mem[self.key[0]]
            c = r.cells.get(self.key[1])
            if c is None or c[0] != self.key[2]:
                v = eng.to_cells_value(st, r, self.key[1], ['p'] if self.ptrbase is not None else ['i', 8 * self.key[2]])
            else:
                v = c[1]
        else:
            v = st.ghost.get(self.key)
        return v


def scalar(v):
    if type(v) is Ptr:
        return v.off
    return v


def havoc_value(eng, v, name, w):
    """Fresh value of the same shape as v."""
    if type(v) is Ptr:
        return Ptr(v.base, eng.fresh(name + '.off', 64))
    if is_conc(v):
        return eng.fresh(name, w)
    if z3.is_bool(v):
        return eng.fresh(name, 1)
    if z3.is_bv(v):
        return eng.fresh(name, v.size())
    if z3.is_fp(v):
        eng.counter += 1
        return z3.FP('%s!%d' % (name, eng.counter), v.sort())
    if isinstance(v, list):
        raise Incomplete('aggregate phi')
    raise Incomplete('cannot havoc %r' % (v,))


class Cut(object):
    pass


def phis_of(block):
    out = []
    for ins in block:
        if ins['op'] != 'phi':
            break
        out.append(ins)
    return out


def cut(eng, st, f, header):
    fn = f.fn
    body = fn.loops[header]
    key = (f.uid, header)
    entry_regs = dict(f.regs)
    entry_ghost = dict(st.ghost)
    entry_regions = set(st.mem.keys())
    phis = phis_of(fn.blocks[header])
    mods = {}        # rid -> {'arr':bool, 'cells': set((off,size)), 'all':bool}
    gmods = set()
    multi = {}       # phi id -> list of the pointers (all at fixed offsets) that it may be
    vs_box = [None]
    sels = []        # of the last havoc: (phi id, which one it is)

    def which(i, v):
        for n, a in enumerate(multi[i]):
            if type(v) is Ptr and a.base == v.base and a.off == v.off:
                return n
        raise Incomplete('pointer moves between objects in a loop at %s' % eng.real_where(eng.cur))

    def settle(f2):
        """Offsets that have only one possible value, for pointers that move between objects."""
        for p in phis:
            v0, v1 = entry_regs[p['id']], f2.regs[p['id']]
            if type(v1) is Ptr and not is_conc(v1.off) and (p['id'] in multi or type(v0) is Ptr and v0.base != v1.base):
                e = simp(v1.off)
                if not is_conc(e) and eng.check(z3.BoolVal(True)) == z3.sat:
                    c = eng.solver.model().eval(e, model_completion=True)
                    if eng.check(e != c) == z3.unsat:
                        e = c.as_long()
                if is_conc(e):
                    f2.regs[p['id']] = Ptr(v1.base, e)

    def alternatives(s):
        """The states in which the pointers in multi have each of their values, with their conditions."""
        out = [(s, [])]
        for i, sel in sels:
            nxt = []
            for t, c in out:
                for n, a in enumerate(multi[i]):
                    u = t.clone()
                    u.frames[-1].regs[i] = a
                    nxt.append((u, c + [sel == n]))
            out = nxt
        return [(t, z3.And(*c) if c else None) for t, c in out]

    def havocked(values, s, fr):
        """The values right after a havoc: a pointer in multi is still any of its alternatives."""
        for i, sel in sels:
            fr.regs[i] = multi[i][0]
        hv = values(s, fr)
        for n, v in enumerate(vs_box[0]):
            if v.kind == 'phi' and v.key in multi:
                hv[n] = dict(sels)[v.key]
        return hv

    def explore(s):
        eng.explore([(t, eng.level, c) for t, c in alternatives(s)])

    def apply_havoc(s, fr):
        """Havoc everything the loop may change in state s; returns the list of scalar Vars."""
        vs = []
        del sels[:]
        for p in phis:
            v = fr.regs[p['id']]
            ty = p['ty']
            w = ty[1] if ty[0] == 'i' else 64
            nm = p.get('vn') or 'phi'
            if p['id'] in multi:
                sel = eng.fresh(nm + '.which', 64)
                sels.append((p['id'], sel))
                x = Var('phi', p['id'], nm + '.which')
                x.w = 64
                x.get = (lambda i: lambda e, s2, f2: which(i, f2.regs[i]))(p['id'])
                vs.append(x)
                continue
            if type(v) is Ptr and isinstance(v.base, tuple):
                raise Incomplete('function pointer phi')
            nv = havoc_value(eng, v, nm, w)
            fr.regs[p['id']] = nv
            if ty[0] in 'ip':
                x = Var('phi', p['id'], nm)
                x.w = w
                if type(v) is Ptr:
                    x.ptrbase = v.base
                vs.append(x)
        for rid, m in mods.items():
            r = s.wregion(rid)
            if not r.alive:
                continue
            if r.arr is not None:
                r.arr = eng.fresh_arr(r.name, r.esz)
                r.nul = None
                continue
            cells = m['cells']
            if m['all']:
                cells = set((o, c[0]) for o, c in r.cells.items())
                if r.fill not in ('undef', 'sym'):
                    raise Incomplete('loop writes a constant-initialised object at a symbolic offset')
            for off, size in sorted(cells):
                c = r.cells.get(off)
                if c is not None and c[0] == size:
                    nv = havoc_value(eng, c[1], '%s+%d' % (r.name, off), 8 * size)
                    r.cells[off] = (size, nv)
                    x = Var('cell', (rid, off, size), '%s+%d' % (r.name, off))
                    x.w = 8 * size
                    if type(nv) is Ptr:
                        x.ptrbase = nv.base
                        x.w = 64
                    if not (z3.is_expr(nv) and z3.is_fp(nv)):
                        vs.append(x)
                else:
                    v0 = None
                    if r.fill not in ('undef',) or eng.covered(r, off):
                        # materialise as an integer cell
                        v0 = eng.fresh('%s+%d' % (r.name, off), 8 * size)
                        eng.put_cell(s, r, off, size, v0)
                        r = s.wregion(rid)
                        x = Var('cell', (rid, off, size), '%s+%d' % (r.name, off))
                        x.w = 8 * size
                        vs.append(x)
        for k in sorted(gmods, key=str):
            v = s.ghost.get(k)
            if hasattr(v, 'havoc'):
                s.ghost[k] = v.havoc(eng, s)
                for sub in v.parts():
                    x = Var('ghost', k, '%s.%s' % (k, sub))
                    x.sub = sub
                    x.w = 64
                    x.get = (lambda k, sub: lambda e, s2, f2: s2.ghost[k].part(sub))(k, sub)
                    vs.append(x)
            else:
                s.ghost[k] = havoc_value(eng, v, 'ghost_%s' % (k,), 64)
                x = Var('ghost', k, str(k))
                x.w = 64 if not (z3.is_expr(s.ghost[k]) and z3.is_bool(s.ghost[k])) else 1
                vs.append(x)
        return vs

    def covered(rid, off, n):
        m = mods.get(rid)
        if m is None:
            return False
        if m['all'] or m['arr']:
            return True
        if not is_conc(off):
            return False
        return (off, n) in m['cells']

    # --- discovery of the modified set
    eng.quiet += 1
    saved_log = eng.write_log
    saved_stop = eng.hstack
    try:
        for rnd in range(12):
            s = st.clone()
            fr = s.frames[-1]
            changed = [False]
            log = []
            eng.solver.push()
            eng.level += 1
            apply_havoc(s, fr)

            def back(s2, f2):
                settle(f2)
                for p in phis:
                    v0, v1 = entry_regs[p['id']], f2.regs[p['id']]
                    if p['id'] in multi or type(v0) is Ptr and (type(v1) is not Ptr or v1.base != v0.base):
                        alts = multi.get(p['id'], [v0])
                        hv1 = hav_regs[p['id']]
                        if type(v1) is Ptr and v1.base == hv1.base and (v1.off is hv1.off or z3.is_expr(v1.off) and z3.is_expr(hv1.off) and v1.off.eq(hv1.off)):
                            continue
                        if type(v1) is Ptr and not isinstance(v1.base, tuple) and all(is_conc(x.off) for x in alts + [v1]) and len(alts) < 6:
                            if not any(x.base == v1.base and x.off == v1.off for x in alts):
                                multi[p['id']] = alts + [v1]
                                changed[0] = True
                            continue
                        raise Incomplete('pointer %s moves between objects in a loop at %s' % (p.get('vn'), eng.real_where(s2)))
                for k, v in s2.ghost.items():
                    if k in entry_ghost and s.ghost.get(k) is not None and v is not hav_ghost.get(k) and k not in gmods:
                        if is_conc(v) and is_conc(hav_ghost.get(k)) and v == hav_ghost.get(k):
                            continue
                        gmods.add(k)
                        changed[0] = True
            hav_ghost = dict(s.ghost)
            hav_regs = dict(fr.regs)
            s.loopctx = dict(s.loopctx)
            s.loopctx[key] = {'back': back}
            eng.write_log = log
            eng.hstack = saved_stop + [(f.uid, body)]
            explore(s)
            eng.hstack = saved_stop
            eng.solver.pop()
            eng.level -= 1
            for rid, off, n in log:
                if rid not in entry_regions:
                    continue
                if covered(rid, off, n):
                    continue
                if not st.mem[rid].alive:
                    continue
                m = mods.setdefault(rid, {'arr': False, 'cells': set(), 'all': False})
                if st.mem[rid].arr is not None:
                    m['arr'] = True
                elif not is_conc(off):
                    m['all'] = True
                else:
                    inside = sorted((o, c[0]) for o, c in st.mem[rid].cells.items() if off <= o < off + n) if n > 8 else []
                    if inside and inside[0][0] == off and all(a + k == b for (a, k), b in zip(inside, [o for o, _ in inside[1:]] + [off + n])):
                        if all(x in m['cells'] for x in inside):
                            continue
                        m['cells'].update(inside)       # a copy of several members
                    else:
                        m['cells'].add((off, n))
                changed[0] = True
            if saved_log is not None:
                saved_log.extend(x for x in log if x[0] in entry_regions)
            eng.cur = st
            if not changed[0]:
                break
        else:
            raise Incomplete('modified set does not stabilise')

        # --- candidates
        s = st.clone()
        fr = s.frames[-1]
        eng.solver.push()
        eng.level += 1
        vs = apply_havoc(s, fr)
        vs_box[0] = vs
        entry_vals = [scalar(v.get(eng, st, f)) for v in vs]
        cands = make_candidates(eng, st, f, vs, entry_vals, entry_regs, phis)
        cands += sink_candidates(eng, st, vs, entry_vals)
        if eng.templates:
            cands += eng.templates(eng, st, f, header, vs, entry_vals) or []
        eng.solver.pop()
        eng.level -= 1

        def values(s2, f2):
            return [scalar(v.get(eng, s2, f2)) for v in vs]

        ev = entry_vals
        # entry filter
        keep = prune(eng, cands, st, f, ev)
        # Houdini
        for rnd in range(200):
            s = st.clone()
            fr = s.frames[-1]
            eng.solver.push()
            eng.level += 1
            apply_havoc(s, fr)
            hv = havocked(values, s, fr)
            ok = True
            for c in keep:
                e = c.f(hv, s, fr)
                if not (type(e) is int and e):
                    eng.solver.add(boolv(e))
            box = [keep]

            def back2(s2, f2):
                settle(f2)
                box[0] = prune(eng, box[0], s2, f2, values(s2, f2))
            s.loopctx = dict(s.loopctx)
            s.loopctx[key] = {'back': back2}
            eng.hstack = saved_stop + [(f.uid, body)]
            eng.write_log = []
            explore(s)
            eng.hstack = saved_stop
            eng.solver.pop()
            eng.level -= 1
            eng.cur = st
            if len(box[0]) == len(keep):
                break
            keep = box[0]
    finally:
        eng.quiet -= 1
        eng.write_log = saved_log
        eng.hstack = saved_stop
        eng.cur = st

    # the other candidates for a value that never changes say nothing more
    fixed = set(c.name[:-len(' == entry')] for c in keep if c.name.endswith(' == entry'))
    keep = [c for c in keep if not any(c.name.startswith((n + ' >', n + ' <', n + ' !')) and len(c.name) > len(n) for n in fixed)]
    eng.invariants.setdefault('%s loop at %s' % (fn.short, eng.where(st)), [c.name for c in keep])
    # --- obligations: established on entry
    eng.oblige_all([c.f(ev, st, f) for c in keep], 'loop invariant holds on entry')
    apply_havoc(st, f)
    hv = havocked(values, st, f)
    for c in keep:
        e = c.f(hv, st, f)
        if not (type(e) is int and e):
            eng.solver.add(boolv(e))

    def back3(s2, f2):
        settle(f2)
        for p in phis:
            v0, v1 = entry_regs[p['id']], f2.regs[p['id']]
            if p['id'] not in multi and type(v0) is Ptr and v1.base != v0.base:
                raise Incomplete('pointer moves between objects')
        v2 = values(s2, f2)
        eng.oblige_all([c.f(v2, s2, f2) for c in keep], 'loop invariant is preserved')
        eng.complete_paths += 1
    st.loopctx[key] = {'back': back3}
    if sels:
        alts = alternatives(st)
        base = eng.level
        for t, c in alts[1:]:
            eng.work.append((t, base, c))
        f.regs.update(alts[0][0].frames[-1].regs)
        eng.solver.push()
        eng.level += 1
        eng.solver.add(alts[0][1])
    if eng.write_log is not None:
        for rid, m in mods.items():
            if m['all'] or m['arr']:
                eng.write_log.append((rid, eng.fresh('anyoff', 64), 1))
            for off, n in m['cells']:
                eng.write_log.append((rid, off, n))


class Cand(object):
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f


def prune(eng, cands, st, f, vals):
    """The candidates that hold on the current path, by repeatedly dropping those a model falsifies."""
    live = []
    exprs = []
    for c in cands:
        try:
            e = c.f(vals, st, f)
        except Incomplete:
            continue
        if type(e) is int:
            if e:
                live.append((c, None))
            continue
        e = z3.simplify(e)
        if z3.is_true(e):
            live.append((c, None))
        elif z3.is_false(e):
            if eng.check() == z3.unsat:
                return cands
        else:
            exprs.append((c, e))
    while exprs:
        eng.solver.push()
        eng.solver.add(z3.Not(z3.And(*[e for _, e in exprs])) if len(exprs) > 1 else z3.Not(exprs[0][1]))
        r = eng.check()
        if r == z3.unsat:
            eng.solver.pop()
            break
        if r == z3.unknown:
            eng.solver.pop()
            # decide one by one
            out = []
            for c, e in exprs:
                if eng.check(z3.Not(e)) == z3.unsat:
                    out.append((c, e))
            exprs = out
            break
        m = eng.model()
        nxt = [(c, e) for c, e in exprs if z3.is_true(m.eval(e, model_completion=True))]
        eng.solver.pop()
        if len(nxt) == len(exprs):
            out = []
            for c, e in exprs:
                if eng.check(z3.Not(e)) == z3.unsat:
                    out.append((c, e))
            exprs = out
            break
        exprs = nxt
    names = set(id(c) for c, _ in live) | set(id(c) for c, _ in exprs)
    return [c for c in cands if id(c) in names]


def sink_candidates(eng, st, vs, entry_vals):
    """How much of an escaped buffer has been written, as a function of each value the loop changes."""
    from .models import OFF, add64
    out = []
    for pi, pv in enumerate(vs):
        if pv.kind != 'ghost' or not isinstance(pv.key, tuple) or pv.key[0] != 'pos':
            continue
        start = 0
        for kind, ln, pay in st.ghost[('exp', pv.key[1])]:
            if kind == 'e':
                p = pay['base']
                for i, v in enumerate(vs):
                    if v is pv or v.w not in (32, 64):
                        continue
                    forms = []
                    if v.ptrbase is not None:
                        if v.ptrbase == p.base:
                            forms.append(('index', lambda x, w: bv(x, 64) - bv(p.off, 64)))
                    else:
                        e0 = bv(entry_vals[i], v.w)
                        z = (lambda x, w: z3.ZeroExt(64 - w, x) if w < 64 else x)
                        forms.append(('count', lambda x, w, e0=e0, z=z: z(bv(x, w) - e0, w)))
                        forms.append(('down', lambda x, w, e0=e0, z=z: z(e0 - bv(x, w), w)))
                    for nm, g in forms:
                        for d in (0, 1):
                            out.append(Cand('written == start + OFF(%s %s+%d)' % (nm, v.name, d), lambda vals, s, f, i=i, pi=pi, g=g, d=d, start=start, w=v.w: simp(bv(vals[pi], 64) == bv(start, 64) + OFF(g(vals[i], w) + d))))
            start = add64(start, ln)
    return out


def make_candidates(eng, st, f, vs, entry_vals, entry_regs, phis):
    out = []
    phi_ids = set(p['id'] for p in phis)
    # values in scope, by width / by pointer base
    terms = {}
    pterms = {}
    seen = set()
    for k, v in entry_regs.items():
        if k in phi_ids:
            continue
        if type(v) is Ptr:
            if not isinstance(v.base, tuple) and v.base != 0:
                t = ('%s' % v.off)
                if (v.base, t) not in seen:
                    seen.add((v.base, t))
                    pterms.setdefault(v.base, []).append(v.off)
        elif is_conc(v):
            pass
        elif z3.is_bv(v):
            t = (v.size(), v.get_id())
            if t not in seen and len(terms.get(v.size(), [])) < 24:
                seen.add(t)
                terms.setdefault(v.size(), []).append(v)
    for t in eng.user.get('terms', lambda e, s: [])(eng, st):
        terms.setdefault(t.size(), []).append(t)

    def ext(x, w):
        x = bv(x, w)
        return z3.ZeroExt(64 - w, x) if w < 64 else x

    def add(name, fn):
        out.append(Cand(name, fn))

    for i, v in enumerate(vs):
        e0 = entry_vals[i]
        w = v.w
        if eng.opts.get('candidates') == 'equal' and w <= 64 and not (z3.is_expr(e0) and z3.is_bool(e0)):
            add('%s == entry' % v.name, lambda vals, s, f, i=i, w=w, e=bv(e0, w): simp(bv(vals[i], w) == e))
            continue
        if w == 1 or (z3.is_expr(e0) and z3.is_bool(e0)):
            add('%s unchanged' % v.name, lambda vals, s, f, i=i, e0=e0: simp(boolv(vals[i]) == boolv(e0)))
            add('%s false' % v.name, lambda vals, s, f, i=i: simp(z3.Not(boolv(vals[i]))))
            continue
        if w > 64:
            continue
        e0b = bv(e0, w)
        add('%s == entry' % v.name, lambda vals, s, f, i=i, w=w, e=e0b: simp(bv(vals[i], w) == e))
        add('%s >=s entry' % v.name, lambda vals, s, f, i=i, w=w, e=e0b: simp(bv(vals[i], w) >= e))
        add('%s <=s entry' % v.name, lambda vals, s, f, i=i, w=w, e=e0b: simp(bv(vals[i], w) <= e))
        add('%s >=u entry' % v.name, lambda vals, s, f, i=i, w=w, e=e0b: simp(z3.UGE(bv(vals[i], w), e)))
        add('%s <=u entry' % v.name, lambda vals, s, f, i=i, w=w, e=e0b: simp(z3.ULE(bv(vals[i], w), e)))
        if v.ptrbase is not None:
            rid = v.ptrbase
            if rid != 0 and not isinstance(rid, tuple):
                r = st.mem[rid]
                sz = bv(r.size, 64)
                add('%s inside or one past its object' % v.name, lambda vals, s, f, i=i, sz=sz: simp(z3.ULE(bv(vals[i], 64), sz)))
                add('%s inside its object' % v.name, lambda vals, s, f, i=i, sz=sz: simp(z3.ULT(bv(vals[i], 64), sz)))
                if r.nul is not None:
                    nn = bv(r.nul, 64)
                    add('%s at or before the terminator' % v.name, lambda vals, s, f, i=i, nn=nn: simp(z3.ULE(bv(vals[i], 64), nn)))
                    add('%s before the terminator' % v.name, lambda vals, s, f, i=i, nn=nn: simp(z3.ULT(bv(vals[i], 64), nn)))
                for t in pterms.get(rid, []):
                    tb = bv(t, 64)
                    add('%s <= %s' % (v.name, t), lambda vals, s, f, i=i, t=tb: simp(z3.ULE(bv(vals[i], 64), t)))
                    add('%s < %s' % (v.name, t), lambda vals, s, f, i=i, t=tb: simp(z3.ULT(bv(vals[i], 64), t)))
                    add('%s >= %s' % (v.name, t), lambda vals, s, f, i=i, t=tb: simp(z3.UGE(bv(vals[i], 64), t)))
        else:
            add('%s >=s 0' % v.name, lambda vals, s, f, i=i, w=w: simp(bv(vals[i], w) >= 0))
            add('%s != 0' % v.name, lambda vals, s, f, i=i, w=w: simp(bv(vals[i], w) != 0))
            for t in terms.get(w, []):
                add('%s <=s %s' % (v.name, t.sexpr()[:40]), lambda vals, s, f, i=i, t=t: simp(bv(vals[i], t.size()) <= t))
                add('%s <=u %s' % (v.name, t.sexpr()[:40]), lambda vals, s, f, i=i, t=t: simp(z3.ULE(bv(vals[i], t.size()), t)))
                add('%s >=u %s' % (v.name, t.sexpr()[:40]), lambda vals, s, f, i=i, t=t: simp(z3.UGE(bv(vals[i], t.size()), t)))
    # pairs
    n = len(vs)
    if n <= 14 and eng.opts.get('candidates') != 'equal':
        for i in range(n):
            for j in range(i + 1, n):
                a, b = vs[i], vs[j]
                if a.w in (1,) or b.w in (1,) or a.w > 64 or b.w > 64:
                    continue
                ea, eb = entry_vals[i], entry_vals[j]
                if any(z3.is_expr(x) and z3.is_bool(x) for x in (ea, eb)):
                    continue
                w = min(a.w, b.w)

                def lo(x, wx, w=w):
                    x = bv(x, wx)
                    return z3.Extract(w - 1, 0, x) if wx > w else x
                add('d(%s) == d(%s)' % (a.name, b.name), lambda vals, s, f, i=i, j=j, wa=a.w, wb=b.w, ea=ea, eb=eb, lo=lo: simp(lo(vals[i], wa) - lo(ea, wa) == lo(vals[j], wb) - lo(eb, wb)))
                add('d(%s) == -d(%s)' % (a.name, b.name), lambda vals, s, f, i=i, j=j, wa=a.w, wb=b.w, ea=ea, eb=eb, lo=lo: simp(lo(vals[i], wa) - lo(ea, wa) == lo(eb, wb) - lo(vals[j], wb)))
                if a.w != b.w:
                    add('zext d(%s) == d(%s)' % (a.name, b.name), lambda vals, s, f, i=i, j=j, wa=a.w, wb=b.w, ea=ea, eb=eb: simp(ext(bv(vals[i], wa) - bv(ea, wa), wa) == ext(bv(vals[j], wb) - bv(eb, wb), wb)))
                if a.w == b.w and (a.ptrbase is None) == (b.ptrbase is None) and a.ptrbase == b.ptrbase:
                    add('%s <=u %s' % (a.name, b.name), lambda vals, s, f, i=i, j=j, w=a.w: simp(z3.ULE(bv(vals[i], w), bv(vals[j], w))))
                    add('%s >=u %s' % (a.name, b.name), lambda vals, s, f, i=i, j=j, w=a.w: simp(z3.UGE(bv(vals[i], w), bv(vals[j], w))))
                    add('%s <=s %s' % (a.name, b.name), lambda vals, s, f, i=i, j=j, w=a.w: simp(bv(vals[i], w) <= bv(vals[j], w)))
                    add('%s >=s %s' % (a.name, b.name), lambda vals, s, f, i=i, j=j, w=a.w: simp(bv(vals[i], w) >= bv(vals[j], w)))
    return out
