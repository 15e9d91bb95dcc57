"""Verification-condition generator and discharger for LLVM IR.

A contract is a C++ harness function: nondeterministic state restricted by vf_assume (the
precondition), one call of the real function, and vf_assert (the postcondition).  The engine walks
every path of the harness symbolically, calling real callees through their bodies or, where a
contract is registered, through the contract.  A loop is either unrolled until its guard is
infeasible on every path (complete) or cut at its header by an inductive invariant which is inferred
from templates (Houdini) and checked on entry and on every back edge.  Every memory access, assert,
callee precondition and invariant is an obligation, discharged by z3 for all values of the inputs.
"""
import re, sys, time
import z3
from . import ir
from .ir import tsize

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)


class Incomplete(Exception):
    """The engine cannot continue this path: the obligation set is not complete."""


class Restart(Exception):
    pass


class EndPath(Exception):
    pass


class Ptr(object):
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base = base
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.base, self.off)


NULL = Ptr(0, 0)


class Undef(object):
    __slots__ = ()

    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


def is_conc(v):
    return type(v) is int


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    return v


def simp(e):
    """Simplify to a Python int when constant."""
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def boolv(c):
    if type(c) is int:
        return z3.BoolVal(bool(c))
    return c


def bnot(c):
    if type(c) is int:
        return 1 - c
    return z3.Not(c)


class Region(object):
    __slots__ = ('id', 'name', 'size', 'cells', 'arr', 'alive', 'const', 'fill', 'ghost', 'nul', 'kind', 'esz', 'ptrs')

    def __init__(self, rid, name, size, kind='mem'):
        self.id = rid
        self.name = name
        self.size = size          # int or BV64
        self.cells = {}           # offset -> (size, value)   (cell mode)
        self.arr = None           # z3 array BV64 -> BV(8*esz) (array mode)
        self.esz = 1
        self.alive = True
        self.const = False
        self.fill = 'undef'       # what unspecified bytes are: undef | zero | sym | a bytes object
        self.ghost = None
        self.nul = None           # for NUL-terminated strings: index of the terminator
        self.kind = kind          # stack | heap | global | mem | opaque
        self.ptrs = None          # array mode: offset -> pointer last stored there (checked against the bytes when loaded)

    def clone(self):
        r = Region.__new__(Region)
        r.id = self.id
        r.name = self.name
        r.size = self.size
        r.cells = dict(self.cells)
        r.arr = self.arr
        r.esz = self.esz
        r.alive = self.alive
        r.const = self.const
        r.fill = self.fill
        r.ghost = self.ghost
        r.nul = self.nul
        r.kind = self.kind
        r.ptrs = dict(self.ptrs) if self.ptrs else None
        return r


class Frame(object):
    __slots__ = ('fn', 'bb', 'ii', 'regs', 'prev', 'ret_id', 'allocas', 'uid', 'counts', 'on_return', 'normal')

    def __init__(self, fn, uid):
        self.fn = fn
        self.bb = 0
        self.ii = 0
        self.regs = {}
        self.prev = -1
        self.ret_id = None
        self.allocas = []
        self.uid = uid
        self.counts = {}
        self.on_return = None
        self.normal = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.bb = self.bb
        f.ii = self.ii
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.ret_id = self.ret_id
        f.allocas = list(self.allocas)
        f.uid = self.uid
        f.counts = dict(self.counts)
        f.on_return = self.on_return
        f.normal = self.normal
        return f


class State(object):
    __slots__ = ('frames', 'mem', 'owned', 'ghost', 'inputs', 'decisions', 'dpos', 'loopctx', 'notes', 'splits')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.ghost = {}
        self.inputs = []
        self.decisions = []
        self.dpos = 0
        self.loopctx = {}
        self.notes = []
        self.splits = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.ghost = dict(self.ghost)
        s.inputs = list(self.inputs)
        s.decisions = list(self.decisions)
        s.dpos = 0
        s.loopctx = dict(self.loopctx)
        s.notes = list(self.notes)
        s.splits = self.splits
        return s

    def region(self, rid):
        return self.mem[rid]

    def wregion(self, rid):
        r = self.mem[rid]
        if rid not in self.owned:
            r = r.clone()
            self.mem[rid] = r
            self.owned.add(rid)
        return r


class Oblig(object):
    __slots__ = ('name', 'where', 'status', 'count', 'model', 'inputs', 'time', 'detail', 'smt')

    def __init__(self, name, where):
        self.name = name
        self.where = where
        self.status = 'discharged'
        self.count = 0
        self.model = None
        self.inputs = None
        self.time = 0.0
        self.detail = ''
        self.smt = None


class Engine(object):
    def __init__(self, module, models, opts=None):
        self.m = module
        self.models = models
        o = opts or {}
        self.max_unroll = o.get('max_unroll', 600)
        self.max_split = o.get('max_split', 12)
        self.check_overflow = o.get('check_overflow', False)
        self.timeout_ms = o.get('timeout_ms', 20000)
        self.deadline = o.get('deadline', None)
        self.contracts = o.get('contracts', [])      # list of (regex on short name, handler)
        self.templates = o.get('templates', None)    # callback giving extra invariant candidates
        self.no_inline = o.get('no_inline', None)
        self.loop_mode = dict(o.get('loop_mode', {}))  # (fn short regex) -> 'unroll'|'inv'
        self.mode_memo = {}
        self.trace = o.get('trace', False)
        self.opts = opts or {}
        self.max_paths = o.get('max_paths', 200000)
        self.user = o.get('user', {})
        self.obligs = {}
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.complete_paths = 0
        self.covers = {}
        self.incomplete = []
        self.fns_seen = {}
        self.models_used = set()
        self.redirect = o.get('redirect') or {}
        self.direct = o.get('direct', False)         # what the harness calls itself is never redirected
        self.redirect_cache = {}
        self.contracts_used = set()
        self.invariants = {}
        self.counter = 0
        self.quiet = 0
        self.model_cache = {}
        self.global_ids = {}
        self.stop_on_fail = o.get('stop_on_fail', False)
        self.setup_solver()

    # ------------------------------------------------------------------ solver
    def setup_solver(self):
        self.solver = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
        self.solver.set('timeout', 400)
        self.level = 0

    def fresh(self, name, w):
        self.counter += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.counter))
        return z3.BitVec('%s!%d' % (name, self.counter), w)

    def fresh_arr(self, name, esz=1):
        self.counter += 1
        return z3.Array('%s!%d' % (name, self.counter), BV64, z3.BitVecSort(8 * esz))

    def check(self, *conds):
        """Satisfiability of the path condition and conds: first incrementally, then by a fresh solver, then by cvc5."""
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Incomplete('time budget exhausted')
        self.answer = self.solver
        r = self.solver.check(*conds)
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(self.solver.assertions())
            for c in conds:
                s.add(c)
            r = s.check()
            self.answer = s
            if r == z3.unknown:
                self.fresh_unknown += 1
                if self.cvc5_unsat(s):
                    r = z3.unsat
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        if self.trace and dt > 0.5:
            sys.stderr.write('slow query %.2fs %s at %s\n' % (dt, r, self.where(self.cur) if self.cur.frames else ''))
        return r

    fresh_unknown = 0
    cvc5_proved = 0

    def cvc5_unsat(self, s):
        import subprocess
        try:
            txt = s.to_smt2()
            if 'lambda' in txt:
                return False
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout_ms], input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=self.timeout_ms / 1000 + 5)
            if p.stdout.strip() == 'unsat':
                self.cvc5_proved += 1
                return True
        except (subprocess.TimeoutExpired, OSError):
            pass
        return False

    def model(self):
        return self.answer.model()

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise EndPath()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise EndPath()
        self.solver.add(c)

    def feasible(self, c):
        if type(c) is int:
            return bool(c)
        return self.check(c) != z3.unsat

    def must(self, c):
        """Is c valid on this path?"""
        if type(c) is int:
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            # only valid if the path is infeasible
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def k(self, name):
        """The value of VF_CONST(name) in the harness."""
        g = self.m.globals['vf_k_' + name]
        return int(g['init'][2])

    def choose(self, c):
        """Branch on c.  Must be called before the current instruction has changed the state."""
        st = self.cur
        if type(c) is int:
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = st.dpos
        st.dpos += 1
        if k < len(st.decisions):
            return st.decisions[k]
        nc = z3.Not(c)
        r1 = self.check(c)
        if r1 == z3.unsat:
            st.decisions.append(False)
            return False
        r2 = self.check(nc)
        if r2 == z3.unsat:
            st.decisions.append(True)
            return True
        st.splits += 1
        alt = st.clone()
        alt.decisions.append(False)
        self.work.append((alt, self.level, nc))
        self.solver.push()
        self.level += 1
        self.solver.add(c)
        st.decisions.append(True)
        return True

    def recorded(self, fn):
        """A value computed from the path condition, kept when the instruction is executed again for another choice."""
        st = self.cur
        k = st.dpos
        st.dpos += 1
        if k < len(st.decisions):
            return st.decisions[k]
        v = fn()
        st.decisions.append(v)
        return v

    # ------------------------------------------------------------------ obligations
    def where(self, st):
        for f in reversed(st.frames):
            if f.fn.blocks and f.bb < len(f.fn.blocks):
                i = f.fn.blocks[f.bb][min(f.ii, len(f.fn.blocks[f.bb]) - 1)]
                fl = i.get('fl', f.fn.file)
                return '%s:%s' % (fl.split('/')[-1], i.get('ln', '?'))
        return '?'

    def real_where(self, st):
        """Innermost location inside a libcwd source (not a system header)."""
        for f in reversed(st.frames):
            i = f.fn.blocks[f.bb][min(f.ii, len(f.fn.blocks[f.bb]) - 1)]
            fl = i.get('fl', f.fn.file)
            if '/c++/' not in fl:
                return '%s:%s in %s' % (fl.split('/')[-1], i.get('ln', '?'), f.fn.short)
        return self.where(st)

    def oblige_all(self, conds, name):
        """Several obligations of the same name, at once when they all hold."""
        st = self.cur
        rest = []
        done = 0
        for c in conds:
            c = z3.BoolVal(bool(c)) if type(c) is int else z3.simplify(c)
            if z3.is_true(c):
                done += 1
            else:
                rest.append(c)
        if not self.quiet and rest:
            w = self.real_where(st) if st.frames else '?'
            ob = self.obligs.get((name, w))
            if ob is None:
                ob = self.obligs[(name, w)] = Oblig(name, w)
            t = time.time()
            parts = rest if len(rest) <= 100 else [z3.And(*rest)]
            if all(self.check(z3.Not(x)) == z3.unsat for x in parts):
                ob.count += done + len(rest)
                ob.time += time.time() - t
                return
            ob.time += time.time() - t
        for c in rest:
            self.oblige(c, name)
        if not rest and done:
            self.oblige(1, name)

    def oblige(self, cond, name, fatal=True):
        """cond must hold on this path.  Records the obligation; afterwards cond is assumed."""
        st = self.cur
        if self.quiet:
            try:
                if type(cond) is int:
                    if not cond:
                        raise EndPath()
                else:
                    self.assume(cond)
            except EndPath:
                raise
            return
        w = self.real_where(st) if st.frames else '?'
        key = (name, w)
        ob = self.obligs.get(key)
        if ob is None:
            ob = self.obligs[key] = Oblig(name, w)
        ob.count += 1
        if type(cond) is int:
            if cond:
                return
            cond = z3.BoolVal(False)
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(cond))
        r = self.check()
        ob.time += time.time() - t
        if r == z3.unsat:
            self.solver.pop()
        else:
            if r == z3.sat:
                if ob.status != 'failed':
                    ob.status = 'failed'
                    try:
                        ob.inputs = self.concretize(st)
                    except z3.Z3Exception as e:
                        ob.detail = 'no model values: %s' % e
                    ob.detail = '; '.join(st.notes[-6:])
                    if self.trace:
                        sys.stderr.write('FAILED %s at %s: %s\n' % (name, w, ob.inputs))
            else:
                if ob.status == 'discharged':
                    ob.status = 'unknown'
                    ob.detail = 'unknown: ' + self.answer.reason_unknown()
                if self.trace:
                    sys.stderr.write('UNKNOWN %s at %s\n' % (name, w))
            self.solver.pop()
            if self.stop_on_fail:
                raise Restart('stop')
        if z3.is_false(cond):
            raise EndPath()
        self.solver.add(cond)

    def concretize(self, st):
        """Values of the harness inputs in a small model of the current solver state."""
        lens = [i[2] for i in st.inputs if i[0] in ('cstr', 'buf') and not is_conc(i[2])]
        pushed = 0
        for bound in (2, 4, 8, 16, 32, 64, 256, 4096):
            if not lens:
                break
            self.solver.push()
            for l in lens:
                self.solver.add(z3.ULE(l, bound))
            if self.check() == z3.sat:
                pushed = 1
                break
            self.solver.pop()
        if self.check() != z3.sat:
            if pushed:
                self.solver.pop()
            return None
        m = self.model()

        def ev(e):
            if is_conc(e):
                return e
            v = m.eval(e, model_completion=True)
            if z3.is_true(v):
                return 1
            if z3.is_false(v):
                return 0
            if z3.is_fp(v):
                v = m.eval(z3.fpToIEEEBV(v), model_completion=True)
            return v.as_long()
        out = []
        for i in st.inputs:
            if i[0] == 'int':
                out.append([i[0], i[1], ev(i[2])])
            else:
                n = min(ev(i[2]), 1 << 16)
                arr = i[3]
                data = []
                for k in range(n):
                    data.append(ev(z3.Select(arr, z3.BitVecVal(k, 64))) if arr is not None else 0)
                out.append([i[0], i[1], data])
        if pushed:
            self.solver.pop()
        return out

    # ------------------------------------------------------------------ regions
    def new_region(self, st, name, size, kind='mem'):
        self.counter += 1
        rid = self.counter
        r = Region(rid, name, size, kind)
        st.mem[rid] = r
        st.owned.add(rid)
        return r

    def base_addr(self, rid):
        if isinstance(rid, tuple):
            return z3.BitVec('addr_%s' % rid[1], 64)
        return z3.BitVec('addr!%d' % rid, 64)

    def global_ptr(self, st, name):
        seen = 0
        while name in self.m.aliases and seen < 5:
            o = self.m.aliases[name]
            seen += 1
            if o[0] == 'g':
                name = o[1]
            else:
                break
        if name in self.m.fns:
            return Ptr(('f', name), 0)
        g = self.m.globals[name]
        gid = self.global_ids.get(name)
        if gid is None:
            self.counter += 1
            gid = self.counter
            self.global_ids[name] = gid
        if gid not in st.mem:
            r = Region(gid, name, max(g['size'], 0), 'global')
            st.mem[gid] = r
            st.owned.add(gid)
            if 'init' in g and (g['const'] or self.use_init(name, g)):
                r.fill = 'zero'
                self.init_cells(st, r, 0, g['init'], g['type'])
                r.const = g['const']
            elif g['ext'] or not g['const']:
                r.fill = 'sym'
        return Ptr(gid, 0)

    def use_init(self, name, g):
        """Mutable globals start arbitrary unless the check says they start as initialised."""
        f = self.user.get('global_init')
        if f:
            v = f(name, g)
            if v is not None:
                return v
        return True

    def init_cells(self, st, r, off, init, ty):
        k = init[0]
        if k == 'b':
            data = bytes.fromhex(init[1])
            if off == 0 and len(data) == r.size:
                r.fill = data
            else:
                for i, c in enumerate(data):
                    r.cells[off + i] = (1, c)
        elif k == 'agg':
            ty = init[1]
            if ty[0] == 's':
                for (o, t), x in zip(ty[2], init[2]):
                    self.init_cells(st, r, off + o, x, t)
            else:
                for i, x in enumerate(init[2]):
                    self.init_cells(st, r, off + i * ty[3], x, ty[2])
        elif k in ('z', 'u'):
            pass
        else:
            v = self.const_operand(st, init)
            sz = tsize(ty) if ty[0] in 'ipf' else 8
            r.cells[off] = (sz, v)

    def const_operand(self, st, o):
        return self.operand(st, None, o)

    # ------------------------------------------------------------------ operands
    def operand(self, st, regs, o):
        k = o[0]
        if k == 'r':
            return regs[o[1]]
        if k == 'i':
            return int(o[2])
        if k == 'n':
            return NULL
        if k == 'g':
            return self.global_ptr(st, o[1])
        if k == 'u':
            return self.undef_value(o[1])
        if k == 'gep':
            return self.gep(st, regs, o)
        if k == 'z':
            return self.zero_value(o[1])
        if k == 'agg':
            return [self.operand(st, regs, x) for x in o[2]]
        if k == 'fp':
            return self.fp_const(o[1], int(o[2]))
        if k == 'ce':
            return self.constexpr(st, regs, o)
        if k == 'm':
            return None
        raise Incomplete('operand %r' % (o,))

    def constexpr(self, st, regs, o):
        op, ty, args, sty = o[1], o[2], o[3], o[4]
        a = [self.operand(st, regs, x) for x in args]
        if op == 'ptrtoint':
            return self.ptrtoint(a[0], ty[1])
        if op == 'inttoptr':
            return self.inttoptr(a[0])
        if op in ('sub', 'add', 'mul', 'shl'):
            return self.binop(op, ty[1], a[0], a[1])
        if op == 'trunc':
            return self.trunc(a[0], sty[1], ty[1])
        if op == 'bitcast':
            return a[0]
        raise Incomplete('constexpr %s' % op)

    def undef_value(self, ty):
        k = ty[0]
        if k == 'i':
            return self.fresh('undef', ty[1])
        if k == 'p':
            return Ptr(0, self.fresh('undefp', 64))
        if k == 's':
            return [self.undef_value(t) for _, t in ty[2]]
        if k in ('a', 'x'):
            return [self.undef_value(ty[2]) for _ in range(ty[1])]
        if k == 'f':
            return self.fresh_fp('undef', ty[1])
        raise Incomplete('undef %r' % (ty,))

    def zero_value(self, ty):
        k = ty[0]
        if k == 'i':
            return 0
        if k == 'p':
            return NULL
        if k == 's':
            return [self.zero_value(t) for _, t in ty[2]]
        if k in ('a', 'x'):
            return [self.zero_value(ty[2]) for _ in range(ty[1])]
        if k == 'f':
            return self.fp_const(ty[1], 0)
        raise Incomplete('zero %r' % (ty,))

    def fp_sort(self, w):
        if w == 64:
            return z3.Float64()
        if w == 32:
            return z3.Float32()
        return z3.FPSort(15, 64)

    def fp_const(self, w, bits):
        if w in (32, 64):
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, w), self.fp_sort(w)))
        if bits == 0:
            return z3.FPVal(0, self.fp_sort(w))
        # x87: explicit integer bit
        man = bits & ((1 << 64) - 1)
        exp = (bits >> 64) & 0x7fff
        s = bits >> 79
        v = z3.fpToFP(z3.BitVecVal((s << 78) | (exp << 63) | (man & ((1 << 63) - 1)), 79), self.fp_sort(w))
        return z3.simplify(v)

    def fresh_fp(self, name, w):
        self.counter += 1
        return z3.FP('%s!%d' % (name, self.counter), self.fp_sort(w))

    # ------------------------------------------------------------------ arithmetic
    def gep(self, st, regs, g):
        base = self.operand(st, regs, g[1])
        off = base.off
        c = g[2]
        if c:
            off = (off + c) & mask(64) if is_conc(off) else off + c
        for op, stride, w in g[3]:
            v = self.operand(st, regs, op)
            if is_conc(v):
                v = sgn(v, w)
                d = (v * stride) & mask(64)
                off = (off + d) & mask(64) if is_conc(off) else off + d
            else:
                if w < 64:
                    v = z3.SignExt(64 - w, v)
                d = v if stride == 1 else v * z3.BitVecVal(stride & mask(64), 64)
                off = bv(off, 64) + d
        if not is_conc(off):
            off = simp(off)
        return Ptr(base.base, off)

    def ptrtoint(self, p, w=64):
        if type(p) is not Ptr:
            raise Incomplete('ptrtoint of %r' % (p,))
        if p.base == 0:
            v = p.off
        else:
            v = self.base_addr(p.base) + bv(p.off, 64)
        if w < 64:
            return self.trunc(v, 64, w)
        return v

    def inttoptr(self, v):
        if is_conc(v):
            return Ptr(0, v)
        e = z3.simplify(v)
        # find a base symbol
        seen = []
        todo = [e]
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('addr'):
                seen.append(x)
            todo += x.children()
        if len(seen) == 1:
            n = seen[0].decl().name()
            rid = int(n.split('!')[1]) if '!' in n else ('f', n[5:])
            d = simp(e - seen[0])
            return Ptr(rid, d)
        return Ptr(0, e)

    def trunc(self, v, sw, dw):
        if is_conc(v):
            return v & mask(dw)
        if dw == 1:
            return simp(z3.Extract(0, 0, v) == 1)
        return z3.Extract(dw - 1, 0, v)

    def as_bv(self, v, w):
        """A w-bit value as a z3 bit-vector (i1 values are Bools)."""
        if is_conc(v):
            return z3.BitVecVal(v, w)
        if w == 1 and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    def binop(self, op, w, a, b):
        if type(a) is Ptr or type(b) is Ptr:
            raise Incomplete('pointer in arithmetic')
        if is_conc(a) and is_conc(b):
            M = mask(w)
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & M
            if op == 'udiv':
                return a // b if b else 0
            if op == 'urem':
                return a % b if b else 0
            sa, sb = sgn(a, w), sgn(b, w)
            if sb == 0:
                return 0
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (sa - q * sb) & M
        if w == 1:
            ba, bb = boolv(a), boolv(b)
            if op == 'and':
                return simp(z3.And(ba, bb))
            if op == 'or':
                return simp(z3.Or(ba, bb))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(ba, bb))
            raise Incomplete('i1 %s' % op)
        # cheap identities
        if op in ('add', 'or', 'xor') and is_conc(a) and a == 0:
            return b
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and is_conc(b) and b == 0:
            return a
        if op == 'mul' and ((is_conc(a) and a == 0) or (is_conc(b) and b == 0)):
            return 0
        if op == 'mul' and is_conc(b) and b == 1:
            return a
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return z3.simplify(x + y)
        if op == 'sub':
            return simp(x - y)
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Incomplete('binop %s' % op)

    def overflow_cond(self, op, w, a, b):
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        if op == 'sub':
            return z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        if op == 'mul':
            return z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        return 1

    def ptr_eq(self, a, b):
        if type(a) is not Ptr or type(b) is not Ptr:
            raise Incomplete('pointer compare with %r %r' % (a, b))
        if a.base == b.base:
            if is_conc(a.off) and is_conc(b.off):
                return int(a.off == b.off)
            return simp(bv(a.off, 64) == bv(b.off, 64))
        if a.base == 0 or b.base == 0:
            raw, reg = (a, b) if a.base == 0 else (b, a)
            if is_conc(raw.off) and raw.off < 4096:
                return 0
            if is_conc(raw.off):
                return 0
            # an arbitrary address compared with a known object
            return simp(raw.off == self.base_addr(reg.base) + bv(reg.off, 64))
        return 0

    def icmp(self, pred, w, a, b):
        if type(a) is Ptr or type(b) is Ptr:
            if type(a) is Ptr and type(b) is Ptr:
                if pred == 'eq':
                    return self.ptr_eq(a, b)
                if pred == 'ne':
                    return bnot(self.ptr_eq(a, b))
                if a.base == b.base:
                    # offsets, as signed distances inside one object
                    p = 's' + pred[1:] if a.base != 0 else pred
                    return self.icmp(p, 64, a.off, b.off)
                return self.icmp(pred, 64, self.ptrtoint(a), self.ptrtoint(b))
            a = self.ptrtoint(a) if type(a) is Ptr else a
            b = self.ptrtoint(b) if type(b) is Ptr else b
            w = 64
        if is_conc(a) and is_conc(b):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if w == 1:
            x, y = boolv(a), boolv(b)
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(z3.Xor(x, y))
            raise Incomplete('i1 compare %s' % pred)
        x, y = bv(a, w), bv(b, w)
        if pred == 'eq':
            return simp(x == y)
        if pred == 'ne':
            return simp(x != y)
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}.get(pred)
        if f:
            return simp(f(x, y))
        if pred == 'slt':
            return simp(x < y)
        if pred == 'sle':
            return simp(x <= y)
        if pred == 'sgt':
            return simp(x > y)
        return simp(x >= y)

    # ------------------------------------------------------------------ memory
    def in_bounds(self, r, off, n):
        if is_conc(off) and is_conc(r.size) and is_conc(n):
            return int(0 <= off and off + n <= r.size)
        o, s = bv(off, 64), bv(r.size, 64)
        nn = bv(n, 64)
        return z3.And(z3.ULE(o, s), z3.ULE(nn, s - o))

    def access(self, st, p, n, write, what):
        """Oblige that [p, p+n) may be accessed; returns the region."""
        if type(p) is not Ptr:
            raise Incomplete('access through %r' % (p,))
        if p.base == 0:
            if not is_conc(p.off):
                raise Incomplete('access through an arbitrary address at %s' % self.real_where(st))
            self.oblige(0, 'no null-pointer %s' % what)
        if isinstance(p.base, tuple):
            raise Incomplete('data access to function')
        r = st.mem.get(p.base)
        if r is None:
            raise Incomplete('dead region')
        if not r.alive:
            self.oblige(0, 'no %s of freed or out-of-scope memory' % what)
        if write and r.const:
            self.oblige(0, 'no write to constant memory')
        c = self.in_bounds(r, p.off, n)
        if type(c) is int and c:
            return r
        self.oblige(c, 'memory %s inside its object' % what)
        return r

    def to_cells_value(self, st, r, off, ty):
        """Value of type ty at concrete offset of a cell-mode region."""
        sz = tsize(ty)
        c = r.cells.get(off)
        if c is not None and c[0] == sz:
            return self.convert(c[1], sz, ty)
        # overlapping cells?
        over = None
        for o in range(off - 15, off + sz):
            cc = r.cells.get(o)
            if cc is not None and o + cc[0] > off and cc[0] > 0:
                over = True
                break
        if not over:
            f = r.fill
            if type(f) is bytes:
                b = f[off:off + sz]
                if len(b) < sz:
                    b = b + b'\0' * (sz - len(b))
                return self.convert(int.from_bytes(b, 'little'), sz, ty)
            if f == 'zero':
                return self.zero_value(ty)
            v = self.sym_value(r, off, ty)
            w = st.wregion(r.id)
            w.cells[off] = (sz, v)
            return v
        if ty[0] == 'p':
            bs = self.get_bytes(st, r, off, sz)
            # eight bytes of one pointer cell?
            raise Incomplete('pointer assembled from bytes')
        bs = self.get_bytes(st, r, off, sz)
        if all(is_conc(b) for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
        else:
            v = z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if sz > 1 else bs[0]
        return self.convert(v, sz, ty)

    def get_bytes(self, st, r, off, n):
        out = []
        i = off
        while i < off + n:
            hit = None
            for o in range(i, i - 17, -1):
                cc = r.cells.get(o)
                if cc is not None:
                    if o + cc[0] > i:
                        hit = (o, cc)
                    break
            if hit is None:
                f = r.fill
                if type(f) is bytes:
                    out.append(f[i] if i < len(f) else 0)
                elif f == 'zero':
                    out.append(0)
                else:
                    v = self.fresh('mem', 8)
                    st.wregion(r.id).cells[i] = (1, v)
                    r = st.mem[r.id]
                    out.append(v)
                i += 1
                continue
            o, (sz, v) = hit
            if type(v) is Ptr:
                if v.base == 0 and is_conc(v.off):
                    v = v.off
                else:
                    v = self.ptrtoint(v)
            if z3.is_expr(v) and z3.is_fp(v):
                v = z3.fpToIEEEBV(v)
            if z3.is_expr(v) and z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            while i < off + n and i < o + sz:
                k = i - o
                if is_conc(v):
                    out.append((v >> (8 * k)) & 255)
                else:
                    out.append(simp(z3.Extract(8 * k + 7, 8 * k, v)) if v.size() > 8 else v)
                i += 1
        return out

    def sym_value(self, r, off, ty):
        k = ty[0]
        nm = '%s+%d' % (r.name, off)
        if k == 'i':
            if ty[1] == 1:
                return self.fresh(nm, 1)
            return self.fresh(nm, tsize(ty) * 8)
        if k == 'p':
            h = self.user.get('lazy_pointer')
            if h:
                v = h(self, self.cur, r, off)
                if v is not None:
                    return v
            return Ptr(0, self.fresh(nm + 'p', 64))
        if k == 'f':
            return self.fresh_fp(nm, ty[1])
        raise Incomplete('symbolic %r' % (ty,))

    def convert(self, v, sz, ty):
        """Reinterpret a stored value as type ty."""
        k = ty[0]
        if k == 'p':
            if type(v) is Ptr:
                return v
            if is_conc(v):
                return Ptr(0, v)
            if z3.is_bv(v):
                return self.inttoptr(v)
            raise Incomplete('pointer from %r' % (v,))
        if k == 'i':
            if type(v) is Ptr:
                v = self.ptrtoint(v)
            if is_conc(v):
                return v & mask(ty[1])
            if z3.is_fp(v):
                v = z3.fpToIEEEBV(v)
            if z3.is_bool(v):
                if ty[1] == 1:
                    return v
                return z3.If(v, z3.BitVecVal(1, ty[1]), z3.BitVecVal(0, ty[1]))
            if ty[1] == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            if v.size() > ty[1]:
                return z3.Extract(ty[1] - 1, 0, v)
            return v
        if k == 'f':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            if is_conc(v):
                return self.fp_const(ty[1], v)
            if ty[1] in (32, 64):
                return z3.fpBVToFP(v, self.fp_sort(ty[1]))
        raise Incomplete('convert to %r' % (ty,))

    def load(self, st, p, ty, checked=True):
        k = ty[0]
        if k == 's':
            return [self.load(st, Ptr(p.base, self.addoff(p.off, o)), t, checked) for o, t in ty[2]]
        if k in ('a', 'x'):
            return [self.load(st, Ptr(p.base, self.addoff(p.off, i * ty[3])), ty[2], checked) for i in range(ty[1])]
        n = tsize(ty)
        r = self.access(st, p, n, False, 'read') if checked else st.mem[p.base]
        r = st.mem[p.base]
        h = r.ghost and r.ghost.get('on_load')
        if h:
            v = h(self, st, r, p, ty)
            if v is not None:
                return v
        if r.arr is None and not is_conc(p.off):
            off = simp(p.off)
            if not is_conc(off):
                return self.load_sym(st, r, off, ty)
            p = Ptr(p.base, off)
        if r.arr is not None:
            return self.load_arr(st, r, p.off, ty)
        return self.to_cells_value(st, r, p.off, ty)

    def load_arr(self, st, r, off, ty):
        n = tsize(ty)
        if r.esz == n and n > 1:
            i = self.elem_index(off, n)
            return self.convert(z3.Select(r.arr, bv(i, 64)), n, ty)
        if r.esz != 1:
            raise Incomplete('odd access to element array')
        bs = []
        for i in range(n):
            o = self.addoff(off, i)
            bs.append(z3.simplify(z3.Select(r.arr, bv(o, 64))))
            if r.nul is not None:
                self.nul_axiom(r, o)
        if n == 1:
            v = simp(bs[0])
        else:
            v = simp(z3.Concat(*reversed(bs)))
        if ty[0] == 'p' and r.ptrs:
            for o, q in list(r.ptrs.items()):
                if not is_conc(off):
                    if not self.choose(bv(off, 64) == o):
                        continue
                elif off != o:
                    continue
                a = bv(self.ptrtoint(q), 64)
                if (not is_conc(v) and v.eq(a)) or self.must(bv(v, 64) == a):
                    return q
                break
        return self.convert(v, n, ty)

    def nul_axiom(self, r, o):
        """Instantiate 'index nul is the first NUL' at o."""
        b = z3.Select(r.arr, bv(o, 64))
        oo = bv(o, 64)
        nn = bv(r.nul, 64)
        self.solver.add(z3.Implies(z3.ULT(oo, nn), b != 0))
        self.solver.add(z3.Implies(oo == nn, b == 0))

    def elem_index(self, off, n):
        if is_conc(off):
            if off % n:
                raise Incomplete('misaligned element access')
            return off // n
        q = z3.simplify(z3.UDiv(off, z3.BitVecVal(n, 64)))
        # off = n*i is the common shape
        e = z3.simplify(off)
        if z3.is_app_of(e, z3.Z3_OP_BMUL) and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == n:
            return e.arg(1)
        return q

    def addoff(self, a, b):
        if is_conc(a) and is_conc(b):
            return (a + b) & mask(64)
        if is_conc(b) and b == 0:
            return a
        return simp(bv(a, 64) + bv(b, 64))

    def candidate_offsets(self, st, off, limit=300):
        """All concrete values off can take on this path."""
        vals = []
        self.solver.push()
        try:
            while True:
                if self.check() != z3.sat:
                    break
                v = self.model().eval(off, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise Incomplete('symbolic offset with more than %d values' % limit)
                self.solver.add(off != v)
        finally:
            self.solver.pop()
        return vals

    def load_sym(self, st, r, off, ty):
        if type(r.fill) is bytes and not r.cells and ty[0] == 'i':
            # constant table of bytes: turn it into an array
            self.table_array(st, r)
            return self.load_arr(st, st.mem[r.id], off, ty)
        vals = self.recorded(lambda: self.candidate_offsets(st, off))
        if not vals:
            raise EndPath()
        if ty[0] == 'p':
            # group equal pointers, branch over the groups
            groups = []
            for v in vals:
                pv = self.to_cells_value(st, st.mem[r.id], v, ty)
                for g in groups:
                    if g[0].base == pv.base and is_conc(g[0].off) and is_conc(pv.off) and g[0].off == pv.off:
                        g[1].append(v)
                        break
                else:
                    groups.append((pv, [v]))
            for pv, vs in groups[:-1]:
                if self.choose(z3.Or(*[off == x for x in vs])):
                    return pv
            return groups[-1][0]
        res = None
        for v in vals:
            x = self.to_cells_value(st, st.mem[r.id], v, ty)
            if ty[0] == 'i':
                x = self.as_bv(x, ty[1])
            res = x if res is None else z3.If(off == v, x, res)
        if ty[0] == 'i' and ty[1] == 1:
            return simp(res == 1)
        return simp(res) if ty[0] == 'i' else res

    def table_array(self, st, r):
        a = self.fresh_arr(r.name)
        for i, b in enumerate(r.fill):
            self.solver.add(z3.Select(a, z3.BitVecVal(i, 64)) == b)
        # local to this path: keep the solver facts and the region in step
        w = st.wregion(r.id)
        w.arr = a

    def store(self, st, p, v, ty, checked=True):
        k = ty[0]
        if k == 's':
            for (o, t), x in zip(ty[2], v):
                self.store(st, Ptr(p.base, self.addoff(p.off, o)), x, t, checked)
            return
        if k in ('a', 'x'):
            for i, x in enumerate(v):
                self.store(st, Ptr(p.base, self.addoff(p.off, i * ty[3])), x, ty[2], checked)
            return
        n = tsize(ty)
        if checked:
            self.access(st, p, n, True, 'write')
        off = p.off
        if not is_conc(off):
            off = simp(off)
        r = st.mem[p.base]
        h = r.ghost and r.ghost.get('on_store')
        if h and h(self, st, r, p, v, ty):
            return
        if self.write_log is not None:
            self.write_log.append((p.base, off, n))
        r = st.wregion(p.base)
        if k == 'i' and not is_conc(v) and type(v) is not Ptr and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if r.arr is not None:
            if r.esz == n and n > 1:
                if type(v) is Ptr:
                    v = self.ptrtoint(v)
                r.arr = z3.Store(r.arr, bv(self.elem_index(off, n), 64), bv(v, 8 * n))
                return
            if type(v) is Ptr:
                if v.base != 0 or not is_conc(v.off):
                    if not is_conc(off):
                        raise Incomplete('pointer stored at a symbolic offset of a byte array')
                    if r.ptrs is None:
                        r.ptrs = {}
                    r.ptrs[off] = v
                    v = self.ptrtoint(v)
                else:
                    v = v.off
            if k == 'f':
                v = z3.fpToIEEEBV(v)
            r.nul = None
            for i in range(n):
                b = (v >> (8 * i)) & 255 if is_conc(v) else (z3.Extract(8 * i + 7, 8 * i, v) if v.size() > 8 else v)
                r.arr = z3.Store(r.arr, bv(self.addoff(off, i), 64), bv(b, 8))
            return
        if not is_conc(off):
            vals = self.candidate_offsets(st, off)
            if not vals:
                raise EndPath()
            for o in vals:
                old = self.to_cells_value(st, st.mem[p.base], o, ty)
                r = st.wregion(p.base)
                if k == 'p':
                    if type(old) is Ptr and old.base == v.base:
                        self.put_cell(st, r, o, n, Ptr(v.base, simp(z3.If(off == o, bv(v.off, 64), bv(old.off, 64)))))
                    else:
                        raise Incomplete('pointer stored at symbolic offset')
                else:
                    w = 8 * n
                    nv = simp(z3.If(off == o, self.as_bv(v, w) if not (z3.is_expr(v) and z3.is_fp(v)) else v, self.as_bv(old, w) if not (z3.is_expr(old) and z3.is_fp(old)) else old))
                    self.put_cell(st, r, o, n, nv)
            return
        self.put_cell(st, r, off, n, v)

    def put_cell(self, st, r, off, n, v):
        c = r.cells.get(off)
        if c is not None and c[0] == n:
            r.cells[off] = (n, v)
            return
        # split overlapping cells
        for o in range(off - 15, off + n):
            cc = r.cells.get(o)
            if cc is None or o + cc[0] <= off:
                continue
            if o >= off and o + cc[0] <= off + n:
                del r.cells[o]
                continue
            bs = self.get_bytes(st, r, o, cc[0])
            r = st.wregion(r.id)
            del r.cells[o]
            for i, b in enumerate(bs):
                if not (off <= o + i < off + n):
                    r.cells[o + i] = (1, b)
        r.cells[off] = (n, v)

    def memcpy(self, st, d, s, n):
        """Copy n bytes (n may be symbolic only between array-mode regions)."""
        if is_conc(n) and n == 0:
            return
        if not is_conc(n):
            n = simp(n)
        self.access(st, s, n, False, 'read (memcpy)')
        self.access(st, d, n, True, 'write (memcpy)')
        rs, rd = st.mem[s.base], st.mem[d.base]
        if is_conc(n) and rs.arr is None and rd.arr is None and is_conc(s.off) and is_conc(d.off):
            new = {}
            i = 0
            while i < n:
                o = s.off + i
                c = rs.cells.get(o)
                if c is not None and i + c[0] <= n:
                    new[i] = c
                    i += c[0]
                    continue
                b = self.get_bytes(st, rs, o, 1)[0] if rs.fill != 'undef' or self.covered(rs, o) else None
                rs = st.mem[s.base]
                if b is not None:
                    new[i] = (1, b)
                i += 1
            if self.write_log is not None:
                self.write_log.append((d.base, d.off, n))
            rd = st.wregion(d.base)
            # clear the destination
            for o in list(rd.cells):
                sz = rd.cells[o][0]
                if o < d.off + n and o + sz > d.off:
                    if o < d.off or o + sz > d.off + n:
                        bs = self.get_bytes(st, rd, o, sz)
                        rd = st.wregion(d.base)
                        del rd.cells[o]
                        for k, b in enumerate(bs):
                            if not (d.off <= o + k < d.off + n):
                                rd.cells[o + k] = (1, b)
                    else:
                        del rd.cells[o]
            if rd.fill not in ('undef', 'sym'):
                for k in range(n):
                    pass
            cov = 0
            for i, c in new.items():
                rd.cells[d.off + i] = c
                cov += c[0]
            if cov < n and rd.fill not in ('undef', 'sym'):
                i = 0
                while i < n:
                    if i in new:
                        i += new[i][0]
                    else:
                        rd.cells[d.off + i] = (1, self.fresh('undef', 8))
                        i += 1
            return
        if is_conc(n) and n <= 64 and rd.arr is None and is_conc(d.off):
            bs = []
            for i in range(n):
                bs.append(self.load(st, Ptr(s.base, self.addoff(s.off, i)), ['i', 8], False))
            for i in range(n):
                self.store(st, Ptr(d.base, self.addoff(d.off, i)), bs[i], ['i', 8], False)
            return
        self.to_array(st, d.base)
        self.to_array(st, s.base)
        rs, rd = st.mem[s.base], st.wregion(d.base)
        if self.write_log is not None:
            self.write_log.append((d.base, d.off, n))
        if is_conc(n) and n <= 64:
            a = rd.arr
            for i in range(n):
                a = z3.Store(a, bv(self.addoff(d.off, i), 64), z3.Select(rs.arr, bv(self.addoff(s.off, i), 64)))
            rd.arr = a
            rd.nul = None
            return
        k = z3.BitVec('k!cpy', 64)
        so, do, nn = bv(s.off, 64), bv(d.off, 64), bv(n, 64)
        rd.arr = z3.Lambda([k], z3.If(z3.ULT(k - do, nn), z3.Select(rs.arr, k - do + so), z3.Select(rd.arr, k)))
        rd.nul = None

    def covered(self, r, o):
        for k in range(o, o - 17, -1):
            c = r.cells.get(k)
            if c is not None:
                return k + c[0] > o
        return False

    def memset(self, st, d, c, n):
        if is_conc(n) and n == 0:
            return
        self.access(st, d, n, True, 'write (memset)')
        r = st.mem[d.base]
        if is_conc(n) and r.arr is None and is_conc(d.off):
            if self.write_log is not None:
                self.write_log.append((d.base, d.off, n))
            r = st.wregion(d.base)
            if is_conc(c) and c == 0 and d.off == 0 and is_conc(r.size) and n == r.size:
                r.cells = {}
                r.fill = 'zero'
                return
            if is_conc(c) and c == 0:
                i = 0
                for o in list(r.cells):
                    sz = r.cells[o][0]
                    if d.off <= o and o + sz <= d.off + n:
                        del r.cells[o]
                while i < n:
                    step = 8 if (d.off + i) % 8 == 0 and n - i >= 8 else 1
                    self.put_cell(st, r, d.off + i, step, 0)
                    r = st.wregion(d.base)
                    i += step
                return
            for i in range(n):
                self.put_cell(st, r, d.off + i, 1, c)
                r = st.wregion(d.base)
            return
        self.to_array(st, d.base)
        r = st.wregion(d.base)
        if self.write_log is not None:
            self.write_log.append((d.base, d.off, n))
        k = z3.BitVec('k!set', 64)
        r.arr = z3.Lambda([k], z3.If(z3.ULT(k - bv(d.off, 64), bv(n, 64)), bv(c, 8), z3.Select(r.arr, k)))
        r.nul = None

    def to_array(self, st, rid):
        r = st.mem[rid]
        if r.arr is not None:
            return
        if is_conc(r.size) and r.size > 4096 and r.fill not in ('undef', 'sym'):
            raise Incomplete('large region to array')
        if type(r.fill) is bytes and not r.cells:
            self.table_array(st, r)
            return
        a = self.fresh_arr(r.name)
        if is_conc(r.size):
            for o, (sz, v) in r.cells.items():
                if type(v) is Ptr:
                    raise Incomplete('array view of an object with pointers')
            bs = {}
            if r.fill in ('undef', 'sym'):
                where = set(o + k for o, c in r.cells.items() for k in range(c[0]))
            else:
                where = range(r.size)
            for o in where:
                if True:
                    bs[o] = self.get_bytes(st, r, o, 1)[0]
            for o, b in bs.items():
                a = z3.Store(a, z3.BitVecVal(o, 64), bv(b, 8))
        w = st.wregion(rid)
        w.cells = {}
        w.arr = a

    # ------------------------------------------------------------------ execution
    def run(self, fname, args=None, setup=None):
        """Verify one harness function."""
        fn = self.m.fns[fname]
        while True:
            try:
                self.setup_solver()
                self.obligs = {}
                self.covers = {}
                self.incomplete = []
                self.paths = 0
                self.complete_paths = 0
                self.invariants = {}
                self.write_log = None
                self.hstack = []
                self.quiet = 0
                self.global_ids = {}
                st = State()
                if setup:
                    setup(self, st)
                self.cur = st
                self.push_frame(st, fn, args or [], None)
                self.explore([(st, 0, None)])
                return
            except Restart as e:
                if str(e) == 'stop':
                    return
                continue

    def push_frame(self, st, fn, args, ret_id, on_return=None):
        fn.compute_loops()
        self.counter += 1
        f = Frame(fn, self.counter)
        for (aid, ty, *rest), v in zip(fn.args, args):
            f.regs[aid] = v
        f.ret_id = ret_id
        f.on_return = on_return
        st.frames.append(f)
        self.fns_seen[fn.name] = self.fns_seen.get(fn.name, 0) + 1
        if len(st.frames) > 120:
            raise Incomplete('call depth')
        return f

    def explore(self, work, stop=None):
        """Depth-first over all paths.  stop(state) -> True ends a path (used by the Houdini passes)."""
        saved = (getattr(self, 'work', None), self.level)
        base_level = self.level
        self.work = work
        self.stop = stop
        try:
            while work:
                st, level, cond = work.pop()
                while self.level > level:
                    self.solver.pop()
                    self.level -= 1
                self.solver.push()
                self.level += 1
                if cond is not None:
                    self.solver.add(cond)
                self.cur = st
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Incomplete('path budget exhausted')
                try:
                    self.run_path(st)
                except EndPath:
                    pass
                except Incomplete as e:
                    if self.quiet:
                        raise
                    msg = str(e)
                    w = self.real_where(st) if st.frames else '?'
                    if self.trace:
                        sys.stderr.write('INCOMPLETE %s at %s\n' % (msg, w))
                        for f in st.frames:
                            i = f.fn.blocks[f.bb][min(f.ii, len(f.fn.blocks[f.bb]) - 1)]
                            sys.stderr.write('    in %s line %s\n' % (f.fn.short, i.get('ln')))
                    self.incomplete.append((msg, w))
                    if 'budget' in msg or len(self.incomplete) > 20:
                        return
        finally:
            while self.level > base_level:
                self.solver.pop()
                self.level -= 1
            self.work = saved[0]

    def run_path(self, st):
        while True:
            if not st.frames:
                self.complete_paths += 1
                return
            f = st.frames[-1]
            block = f.fn.blocks[f.bb]
            ins = block[f.ii]
            st.dpos = 0
            self.step(st, f, ins)
            if st.decisions:
                st.decisions = []

    def step(self, st, f, ins):
        op = ins['op']
        h = getattr(self, 'op_' + op, None)
        if h is None:
            a = ins.get('ops')
            if op in BINOPS:
                x = self.operand(st, f.regs, a[0])
                y = self.operand(st, f.regs, a[1])
                ty = ins['ty']
                if ty[0] == 'x':
                    v = [self.binop(op, ty[2][1], p, q) for p, q in zip(x, y)]
                else:
                    w = ty[1]
                    if op in ('udiv', 'sdiv', 'urem', 'srem'):
                        z = self.icmp('ne', w, y, 0)
                        if not (type(z) is int and z):
                            self.oblige(z, 'no division by zero')
                    if self.check_overflow and ins.get('nsw') and not (is_conc(x) and is_conc(y)) and '/c++/' not in ins.get('fl', ''):
                        self.oblige(self.overflow_cond(op, w, x, y), 'no signed overflow')
                    v = self.binop(op, w, x, y)
                f.regs[ins['id']] = v
                f.ii += 1
                return
            if op in FPOPS:
                x = self.operand(st, f.regs, a[0])
                y = self.operand(st, f.regs, a[1])
                rm = z3.RNE()
                v = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
                     'fdiv': lambda: z3.fpDiv(rm, x, y), 'frem': lambda: z3.fpRem(x, y)}[op]()
                f.regs[ins['id']] = v
                f.ii += 1
                return
            raise Incomplete('instruction %s' % op)
        h(st, f, ins)

    def op_alloca(self, st, f, ins):
        n = self.operand(st, f.regs, ins['n'])
        size = ins['size'] * n if is_conc(n) else z3.simplify(bv(n, 64) * ins['size'])
        r = self.new_region(st, ins.get('vn') or 'tmp', size, 'stack')
        f.allocas.append(r.id)
        if ins['aty'][0] == 'a' and not is_conc(n):
            r.arr = self.fresh_arr('vla')
        elif not is_conc(n):
            r.arr = self.fresh_arr('vla')
        f.regs[ins['id']] = Ptr(r.id, 0)
        f.ii += 1

    def op_load(self, st, f, ins):
        p = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = self.load(st, p, ins['ty'])
        f.ii += 1

    def op_store(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        p = self.operand(st, f.regs, ins['ops'][1])
        self.store(st, p, v, ins['sty'])
        f.ii += 1

    def op_getelementptr(self, st, f, ins):
        g = ins['gep']
        v = self.gep(st, f.regs, g)
        f.regs[ins['id']] = v
        f.ii += 1

    def op_icmp(self, st, f, ins):
        a = self.operand(st, f.regs, ins['ops'][0])
        b = self.operand(st, f.regs, ins['ops'][1])
        ty = ins['oty']
        if ty[0] == 'x':
            raise Incomplete('vector icmp')
        w = ty[1] if ty[0] == 'i' else 64
        f.regs[ins['id']] = self.icmp(ins['pred'], w, a, b)
        f.ii += 1

    def op_fcmp(self, st, f, ins):
        a = self.operand(st, f.regs, ins['ops'][0])
        b = self.operand(st, f.regs, ins['ops'][1])
        p = ins['pred']
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b)}
        if p == 'uno':
            v = un
        elif p == 'ord':
            v = z3.Not(un)
        elif p[0] == 'o':
            v = z3.And(z3.Not(un), base[p[1:]])
        else:
            v = z3.Or(un, base[p[1:]])
        f.regs[ins['id']] = simp(v)
        f.ii += 1

    def op_zext(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        sw, dw = ins['sty'][1], ins['ty'][1]
        if not is_conc(v):
            if sw == 1:
                v = z3.If(v, z3.BitVecVal(1, dw), z3.BitVecVal(0, dw))
            else:
                v = z3.ZeroExt(dw - sw, v)
        f.regs[ins['id']] = v
        f.ii += 1

    def op_sext(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        sw, dw = ins['sty'][1], ins['ty'][1]
        if is_conc(v):
            v = sgn(v, sw) & mask(dw)
        elif sw == 1:
            v = z3.If(v, z3.BitVecVal(mask(dw), dw), z3.BitVecVal(0, dw))
        else:
            v = z3.SignExt(dw - sw, v)
        f.regs[ins['id']] = v
        f.ii += 1

    def op_trunc(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = self.trunc(v, ins['sty'][1], ins['ty'][1])
        f.ii += 1

    def op_ptrtoint(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = self.ptrtoint(v, ins['ty'][1])
        f.ii += 1

    def op_inttoptr(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = self.inttoptr(v)
        f.ii += 1

    def op_bitcast(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        s, d = ins['sty'], ins['ty']
        if s[0] == 'f' and d[0] == 'i':
            v = z3.fpToIEEEBV(v)
        elif s[0] == 'i' and d[0] == 'f':
            v = z3.fpBVToFP(bv(v, s[1]), self.fp_sort(d[1]))
        elif s != d:
            raise Incomplete('bitcast')
        f.regs[ins['id']] = v
        f.ii += 1

    def op_fpext(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpFPToFP(z3.RNE(), v, self.fp_sort(ins['ty'][1]))
        f.ii += 1

    op_fptrunc = op_fpext

    def op_sitofp(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpSignedToFP(z3.RNE(), bv(v, ins['sty'][1]), self.fp_sort(ins['ty'][1]))
        f.ii += 1

    def op_uitofp(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpUnsignedToFP(z3.RNE(), bv(v, ins['sty'][1]), self.fp_sort(ins['ty'][1]))
        f.ii += 1

    def op_fptosi(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(ins['ty'][1]))
        f.ii += 1

    def op_fptoui(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(ins['ty'][1]))
        f.ii += 1

    def op_fneg(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        f.regs[ins['id']] = z3.fpNeg(v)
        f.ii += 1

    def op_freeze(self, st, f, ins):
        f.regs[ins['id']] = self.operand(st, f.regs, ins['ops'][0])
        f.ii += 1

    def op_select(self, st, f, ins):
        c = self.operand(st, f.regs, ins['ops'][0])
        a = self.operand(st, f.regs, ins['ops'][1])
        b = self.operand(st, f.regs, ins['ops'][2])
        f.regs[ins['id']] = self.ite(c, a, b, ins['ty'])
        f.ii += 1

    def ite(self, c, a, b, ty):
        if is_conc(c):
            return a if c else b
        if ty[0] == 'i':
            if is_conc(a) and is_conc(b) and a == b:
                return a
            if ty[1] == 1:
                return simp(z3.If(c, boolv(a), boolv(b)))
            return z3.If(c, bv(a, ty[1]), bv(b, ty[1]))
        if ty[0] == 'p' and a.base == b.base:
            return Ptr(a.base, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
        if ty[0] == 'f':
            return z3.If(c, a, b)
        return a if self.choose(c) else b

    def op_extractvalue(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        for i in ins['idx']:
            v = v[i]
        f.regs[ins['id']] = v
        f.ii += 1

    def op_insertvalue(self, st, f, ins):
        a = self.operand(st, f.regs, ins['ops'][0])
        v = self.operand(st, f.regs, ins['ops'][1])

        def ins_at(x, idx):
            x = list(x)
            if len(idx) == 1:
                x[idx[0]] = v
            else:
                x[idx[0]] = ins_at(x[idx[0]], idx[1:])
            return x
        f.regs[ins['id']] = ins_at(a, ins['idx'])
        f.ii += 1

    def op_extractelement(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0])
        i = self.operand(st, f.regs, ins['ops'][1])
        if not is_conc(i):
            raise Incomplete('extractelement')
        f.regs[ins['id']] = v[i]
        f.ii += 1

    def op_insertelement(self, st, f, ins):
        v = list(self.operand(st, f.regs, ins['ops'][0]))
        x = self.operand(st, f.regs, ins['ops'][1])
        i = self.operand(st, f.regs, ins['ops'][2])
        v[i] = x
        f.regs[ins['id']] = v
        f.ii += 1

    def op_fence(self, st, f, ins):
        f.ii += 1

    def op_atomicrmw(self, st, f, ins):
        p = self.operand(st, f.regs, ins['ops'][0])
        v = self.operand(st, f.regs, ins['ops'][1])
        ty = ins['ty']
        old = self.load(st, p, ty)
        k = ins['rmw']
        if k == 'xchg':
            new = v
        elif k in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(k, ty[1], old, v)
        else:
            raise Incomplete('atomicrmw %s' % k)
        self.store(st, p, new, ty)
        f.regs[ins['id']] = old
        f.ii += 1

    def op_cmpxchg(self, st, f, ins):
        p, c, n = [self.operand(st, f.regs, o) for o in ins['ops'][:3]]
        ty = ins['ty'][2][0][1]
        old = self.load(st, p, ty)
        eq = self.ptr_eq(old, c) if ty[0] == 'p' else self.icmp('eq', ty[1], old, c)
        ok = self.choose(eq)
        if ok:
            self.store(st, p, n, ty)
        f.regs[ins['id']] = [old, int(ok)]
        f.ii += 1

    def op_unreachable(self, st, f, ins):
        self.oblige(0, 'no undefined behaviour: control never reaches an unreachable point')
        raise EndPath()

    def op_landingpad(self, st, f, ins):
        f.regs[ins['id']] = [NULL, 0]
        f.ii += 1

    def op_resume(self, st, f, ins):
        raise EndPath()

    def op_br(self, st, f, ins):
        if 'cond' in ins:
            c = self.operand(st, f.regs, ins['cond'])
            t = ins['dst'][0] if self.choose(c) else ins['dst'][1]
        else:
            t = ins['dst'][0]
        self.jump(st, f, t)

    def op_switch(self, st, f, ins):
        v = self.operand(st, f.regs, ins['cond'])
        if is_conc(v):
            for c, t in ins['cases']:
                if int(c) == v:
                    self.jump(st, f, t)
                    return
            self.jump(st, f, ins['default'])
            return
        w = ins['w']
        groups = {}
        for c, t in ins['cases']:
            groups.setdefault(t, []).append(int(c))
        dflt = ins['default']
        for t, cs in groups.items():
            if t == dflt:
                continue
            if self.choose(z3.Or(*[self.icmpz(v, c, w) for c in cs])):
                self.jump(st, f, t)
                return
        self.jump(st, f, dflt)

    def icmpz(self, v, c, w):
        return boolv(self.icmp('eq', w, v, c))

    hstack = []

    def jump(self, st, f, t):
        loops = f.fn.loops
        if self.hstack and self.hstack[-1][0] == f.uid and t not in self.hstack[-1][1]:
            raise EndPath()
        prev = f.bb
        f.prev = prev
        f.bb = t
        f.ii = 0
        st.decisions = []
        # phis
        block = f.fn.blocks[t]
        if block[0]['op'] == 'phi':
            vals = []
            i = 0
            for ins in block:
                if ins['op'] != 'phi':
                    break
                for b, o in ins['in']:
                    if b == prev:
                        vals.append((ins['id'], self.operand(st, f.regs, o)))
                        break
                else:
                    raise Incomplete('phi without incoming value')
                i += 1
            for k, v in vals:
                f.regs[k] = v
            f.ii = i
        if t in loops:
            self.at_header(st, f, t, prev in loops[t])

    def op_ret(self, st, f, ins):
        v = self.operand(st, f.regs, ins['ops'][0]) if ins['ops'] else None
        if self.hstack and self.hstack[-1][0] == f.uid:
            raise EndPath()
        st.frames.pop()
        for rid in f.allocas:
            if rid in st.mem:
                r = st.wregion(rid)
                r.alive = False
                r.cells = {}
        st.decisions = []
        if f.on_return:
            v = f.on_return(self, st, v)
        if self.stop_ret is not None and len(st.frames) < self.stop_ret:
            raise EndPath()
        if st.frames:
            c = st.frames[-1]
            if f.ret_id is not None:
                c.regs[f.ret_id] = v
            if f.normal is not None:
                self.jump(st, c, f.normal)
            else:
                c.ii += 1

    stop_ret = None

    # ------------------------------------------------------------------ calls
    def op_call(self, st, f, ins):
        callee = self.operand(st, f.regs, ins['callee']) if ins['callee'][0] != 'asm' else None
        if callee is None:
            raise Incomplete('inline asm')
        if type(callee) is not Ptr or not isinstance(callee.base, tuple):
            callee = self.resolve_indirect(st, callee)
        name = callee.base[1]
        fn = self.m.fns[name]
        if name.startswith('llvm.'):
            args = [self.operand(st, f.regs, a) for a in ins['args']] if not name.startswith('llvm.dbg') else []
            self.intrinsic(st, f, ins, name, args)
            return
        args = [self.operand(st, f.regs, a) for a in ins['args']]
        if self.redirect:
            t = self.redirect_of(fn)
            if t is not None and not (self.direct and len(st.frames) == 1):
                self.contracts_used.add(fn.short)
                fn = t
        # contracts first, then models, then the body
        h = self.find_handler(fn)
        if h is not None:
            v = h(self, st, fn, args, ins)
            if v is INLINE:
                h = None
            elif v is PUSHED:
                if ins['op'] == 'invoke':
                    st.frames[-1].normal = ins['normal']
                return
        if h is None:
            if fn.decl:
                raise Incomplete('no contract for external function %s' % fn.dem)
            nf = self.push_frame(st, fn, args, ins.get('id'))
            for k, (aid, ty, *rest) in enumerate(fn.args):
                if 'byval' in rest:
                    # the callee gets its own copy
                    size = rest[rest.index('byval') + 1]
                    r = self.new_region(st, 'byval', size, 'stack')
                    self.memcpy(st, Ptr(r.id, 0), args[k], size)
                    nf.regs[aid] = Ptr(r.id, 0)
                    nf.allocas.append(r.id)
            nf.normal = ins['normal'] if ins['op'] == 'invoke' else None
            # loop headers at entry block are impossible in LLVM
            return
        if 'id' in ins:
            if v is None:
                raise Incomplete('contract of %s gave no value' % fn.dem)
            f.regs[ins['id']] = v
        if ins['op'] == 'invoke':
            self.jump(st, f, ins['normal'])
        else:
            f.ii += 1

    op_invoke = op_call

    def resolve_indirect(self, st, p):
        h = self.user.get('indirect_call')
        if h:
            r = h(self, st, p)
            if r is not None:
                return r
        raise Incomplete('indirect call through %r' % (p,))

    def redirect_of(self, fn):
        """The harness function that states the contract of fn, if any."""
        if fn.name in self.redirect_cache:
            return self.redirect_cache[fn.name]
        t = None
        for rx, target in self.redirect.items():
            if re.fullmatch(rx, fn.short) or re.fullmatch(rx, fn.name):
                t = self.m.fns[target]
        self.redirect_cache[fn.name] = t
        return t

    def find_handler(self, fn):
        key = fn.name
        if key in self.model_cache:
            return self.model_cache[key]
        h = None
        for rx, hh in self.contracts:
            if re.fullmatch(rx, fn.short) or re.fullmatch(rx, fn.name):
                h = hh
                self.contracts_used.add(fn.short)
                break
        if h is None:
            h = self.models.find(fn)
            if h is not None:
                self.models_used.add(fn.dem)
        self.model_cache[key] = h
        return h

    def intrinsic(self, st, f, ins, name, args):
        v = None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.va_') or name.startswith('llvm.stacksave') or name.startswith('llvm.stackrestore') or name.startswith('llvm.invariant'):
            v = NULL
        elif name.startswith('llvm.assume'):
            pass
        elif name.startswith('llvm.expect'):
            v = args[0]
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
        elif name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2])
        elif name.startswith('llvm.trap'):
            self.oblige(0, 'no trap')
            raise EndPath()
        elif name.startswith('llvm.abs'):
            w = ins['ty'][1]
            a = args[0]
            v = self.ite(self.icmp('slt', w, a, 0), self.binop('sub', w, 0, a), a, ins['ty'])
        elif re.match(r'llvm\.(umax|umin|smax|smin)', name):
            w = ins['ty'][1]
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name.split('.')[1]]
            v = self.ite(self.icmp(pr, w, args[0], args[1]), args[0], args[1], ins['ty'])
        elif name.startswith('llvm.fabs'):
            v = z3.fpAbs(args[0])
        elif re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow', name):
            w = ins['ty'][2][0][1][1]
            k = name.split('.')[1]
            x, y = bv(args[0], w), bv(args[1], w)
            s = k[0] == 's'
            o = k[1:]
            if o == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y)) if s else z3.BVAddNoOverflow(x, y, False)
            elif o == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if s else z3.UGE(x, y)
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y)) if s else z3.BVMulNoOverflow(x, y, False)
            v = [self.binop(o, w, args[0], args[1]), simp(z3.Not(ok))]
        elif name.startswith('llvm.threadlocal.address'):
            v = args[0]
        elif name.startswith('llvm.eh.typeid') or name.startswith('llvm.objectsize') or name.startswith('llvm.is.constant'):
            v = 0
        elif name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            w = ins['ty'][1]
            x = bv(args[0], w)
            res = z3.BitVecVal(w, w)
            rng = range(w) if name.startswith('llvm.ctlz') else range(w - 1, -1, -1)
            for b in rng:
                res = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal((w - 1 - b) if name.startswith('llvm.ctlz') else b, w), res)
            v = simp(res)
        elif name.startswith('llvm.returnaddress') or name.startswith('llvm.frameaddress'):
            v = Ptr(0, self.fresh('retaddr', 64))
        else:
            raise Incomplete('intrinsic %s' % name)
        if 'id' in ins:
            f.regs[ins['id']] = v
        if ins['op'] == 'invoke':
            self.jump(st, f, ins['normal'])
        else:
            f.ii += 1

    # ------------------------------------------------------------------ loops
    def loop_policy(self, fn, header):
        m = self.mode_memo.get((fn.name, header))
        if m:
            return m
        for rx, mode in self.loop_mode.items():
            if re.fullmatch(rx, fn.short):
                return mode
        return 'unroll'

    def at_header(self, st, f, header, back):
        key = (f.uid, header)
        if back:
            ctx = st.loopctx.get(key)
            if ctx is not None:
                ctx['back'](st, f)
                raise EndPath()
            n, m, sp = f.counts.get(header, (0, 0, 0))
            n, m = n + 1, m + (st.splits > sp)
            f.counts[header] = (n, m, st.splits)
            if n > self.max_unroll or m > self.max_split:
                mk = (f.fn.name, header)
                if self.loop_policy(f.fn, header) == 'unroll' and mk not in self.mode_memo:
                    self.mode_memo[mk] = 'inv'
                    if self.trace:
                        sys.stderr.write('loop in %s at %s needs an invariant: restart\n' % (f.fn.short, self.where(st)))
                    raise Restart('invariant needed')
                raise Incomplete('loop not unrolled completely (more than %d iterations)' % n)
            return
        # inner loops start afresh
        f.counts[header] = (0, 0, st.splits)
        if self.loop_policy(f.fn, header) == 'inv':
            from . import houdini
            houdini.cut(self, st, f, header)


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FPOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class _Marker(object):
    pass


INLINE = _Marker()
PUSHED = _Marker()
