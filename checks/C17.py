import z3
from vf.check import Contract
from vf.engine import *
from vf.houdini import Cand


def G(eng, s, name, off=0):
    """The value of a ghost variable of the harness."""
    n = '_ZN12_GLOBAL__N_1%d%sE' % (len(name), name)
    for rid, r in s.mem.items():
        if r.name == n:
            return bv(eng.load(s, Ptr(rid, off), ['i', 64], False), 64)
    raise Incomplete('no ghost ' + name)


def templates(eng, st, f, header, vs, ev):
    """The invariants of a walk over the map: where the cursor is relative to the element at the arbitrary address."""
    out = []

    def add(name, g):
        out.append(Cand(name, lambda vals, s, fr: simp(g(lambda n, o=0: G(eng, s, n, o), vals))))
    c0 = G(eng, st, 'covered')
    first, last = (lambda g: g('entry', 0)), (lambda g: g('entry', 8))
    flags = ('covered', 'passed', 'removed_self', 'removed_other', 'clashes')
    for n in flags:
        add('%s is 0 or 1' % n, lambda g, v, n=n: z3.ULE(g(n), 1))
        for c in (0, 1):
            add('%s is %d' % (n, c), lambda g, v, n=n, c=c: g(n) == c)
            for d in (0, 1):
                add('%s is %d if passed is %d' % (n, c, d), lambda g, v, n=n, c=c, d=d: z3.Implies(g('passed') == d, g(n) == c))
    add('covered as before until passed', lambda g, v: z3.Implies(g('passed') == 0, g('covered') == c0))
    add('covered as before', lambda g, v: g('covered') == c0)
    add('not covered, not passed', lambda g, v: z3.Implies(c0 == 0, g('passed') == 0))
    add('the object asked for was not passed', lambda g, v: z3.Implies(g('passed') != 0, g('entry_lbase') != g('asked_lbase')))
    by = dict((x.name, i) for i, x in enumerate(vs))
    for i, x in enumerate(vs):
        if x.name.endswith('.which'):
            for c in (0, 1):
                add('%s tells what was removed (%d)' % (x.name, c), lambda g, v, i=i, c=c: bv(v[i], 64) == (g('removed_self') if c == 0 else 1 - g('removed_self')))
        if not x.name.endswith('+0') or 'GLOBAL' in x.name:
            continue
        p = x.name[:-2]
        if all('%s+%d' % (p, o) in by for o in (0, 8, 16)):
            w, cf, cl = (lambda vals, i=by['%s+%d' % (p, o)]: bv(vals[i], 64) for o in (0, 8, 16))
            more = lambda vals, i=by.get(p + '+24'): bv(vals[i], 64)
            add(p + ' is a cursor', lambda g, v, w=w: z3.ULE(w(v), 2))
            add(p + ' is not empty', lambda g, v, w=w, cf=cf, cl=cl: z3.Or(w(v) == 2, z3.ULT(cf(v), cl(v))))
            add(p + ' not at the end before the range is passed', lambda g, v, w=w: z3.Implies(z3.And(c0 == 1, g('passed') == 0), w(v) != 2))
            add(p + ' before the range', lambda g, v, w=w, cl=cl: z3.Implies(z3.And(w(v) == 1, c0 == 1, g('passed') == 0), z3.ULE(cl(v), first(g))))
            add(p + ' behind the range', lambda g, v, w=w, cf=cf: z3.Implies(z3.And(w(v) == 1, c0 == 1, g('passed') == 1), z3.ULE(last(g), cf(v))))
            add(p + ' not at the range once it is passed', lambda g, v, w=w: z3.Implies(g('passed') == 1, w(v) != 0))
            if p + '+24' in by:
                add(p + ' at the range', lambda g, v, w=w, cf=cf, cl=cl, more=more: z3.Implies(w(v) == 0, z3.And(c0 == 1, cf(v) == first(g), cl(v) == last(g), more(v) == g('entry', 16))))
    return out

B64 = z3.BitVecSort(64)
COVER = z3.Function('COVERED_BY', B64, z3.BoolSort())    # one of the first n program headers covers the address
SOME = z3.Function('LOADABLE', B64, z3.BoolSort())       # one of the first n program headers is loadable and not empty


def phdrs(eng, st, fn, args, ins):
    st.ghost['phdrs'] = (args[0].base, bv(args[1], 64), bv(args[2], 64))
    eng.solver.add(z3.Not(COVER(z3.BitVecVal(0, 64))), z3.Not(SOME(z3.BitVecVal(0, 64))))


def unfold(eng, s, i):
    """The defining equations of the two functions at i."""
    rid, lbase, x = s.ghost['phdrs']
    at = lambda o, n: bv(eng.load(s, Ptr(rid, simp(i * 56 + o)), ['i', n], False), n)
    q = eng.quiet
    eng.quiet += 1
    t, v, m = at(0, 32), at(16, 64), at(40, 64)
    eng.quiet = q
    ok = z3.And(t == 1, m != 0)
    eng.solver.add(COVER(i + 1) == z3.Or(COVER(i), z3.And(ok, z3.ULE(lbase + v, x), z3.ULT(x, lbase + v + m))), SOME(i + 1) == z3.Or(SOME(i), ok))


def covered_by(eng, st, fn, args, ins):
    return COVER(bv(args[0], 64))


def loadable(eng, st, fn, args, ins):
    return SOME(bv(args[0], 64))


def header_templates(eng, st, f, header, vs, ev):
    out = templates(eng, st, f, header, vs, ev)
    if 'phdrs' not in st.ghost:
        return out
    c0 = G(eng, st, 'covered')
    o0 = G(eng, st, 'entry', 16)

    def add(name, i, g):
        def h(vals, s, fr):
            v = bv(vals[i], vs[i].w)
            v = simp(z3.ZeroExt(64 - vs[i].w, v)) if vs[i].w < 64 else v
            unfold(eng, s, v)
            return simp(g(v, s, vals))
        out.append(Cand(name, h))
    for i, x in enumerate(vs):
        if x.kind != 'phi' or x.w not in (16, 32, 64) or x.ptrbase is not None:
            continue
        add('%s <= count' % x.name, i, lambda v, s, vals: z3.ULE(v, G(eng, s, 'phdr_count')))
        add('covered by the headers before %s' % x.name, i, lambda v, s, vals: G(eng, s, 'covered') == z3.If(z3.Or(c0 != 0, COVER(v)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        add('not covered twice by the headers before %s' % x.name, i, lambda v, s, vals: z3.Not(z3.And(c0 != 0, COVER(v))))
        add('object at the address before %s' % x.name, i, lambda v, s, vals: G(eng, s, 'entry', 16) == z3.If(COVER(v), z3.BitVecVal(0, 64), o0))
        add('the address is in its segment before %s' % x.name, i, lambda v, s, vals: z3.Implies(G(eng, s, 'covered') != 0, z3.And(z3.ULE(G(eng, s, 'entry', 0), G(eng, s, 'X')), z3.ULT(G(eng, s, 'X'), G(eng, s, 'entry', 8)))))
        for j, y in enumerate(vs):
            if y.w in (1, 8):
                add('%s tells whether a header before %s is loadable' % (y.name, x.name), i, lambda v, s, vals, j=j, w=y.w: (bv(vals[j], w) != 0) == SOME(v))
                add('%s is 0 or 1 (%s)' % (y.name, x.name), i, lambda v, s, vals, j=j, w=y.w: z3.ULE(bv(vals[j], w), 1))
    return out


def given_up(eng, st, fn, args, ins):
    """An assertion of the code about what the dynamic linker reports (segments that overlap or wrap)."""
    raise EndPath()


def nothing(eng, st, fn, args, ins):
    return None


O = dict(fuzz=False, lib=True, templates=templates, opts={'candidates': 'equal', 'loop_mode': {r'libcwd::dwarf::.*': 'inv'}})
D = r'libcwd::dwarf::'
NEW = {'_Znwm': 'vf_new', '_ZdlPv|_ZdlPvm': 'vf_delete', D + 'ObjectFile::ObjectFile': 'vf_construct', D + 'ObjectFile::~ObjectFile': 'vf_destroy'}
CLOSE = {D + 'ObjectFileData::close_dwarf': 'vf_close_dwarf'}
INSERT = {D + 'insert_function_symbol_range': 'vf_insert'}
LOADER = {D + r'\(anonymous namespace\)::dlopen_map': 'vf_dlopen_map', 'libcwd::initialize': 'vf_initialize', D + r'\(anonymous namespace\)::ForceLoadingDebugOutput::~?ForceLoadingDebugOutput': 'vf_no_output',
          'dlinfo': 'vf_dlinfo', D + 'ObjectFileRegistry::register_object_file_at_lbase': 'vf_register', D + 'ObjectFileData::unregister_object_file_ranges': 'vf_unregister'}


def C(n, red={}, **k):
    o = dict(O)
    o.update(k)
    return Contract(n, redirect=dict({D + 'ObjectFileRegistry::object_files_map': 'vf_object_files_map'}, **red), **o)


ONCE = [(r'std::call_once.*', nothing)]
CONTRACTS = [C('symbol_of'), C('object_of', {D + 'ObjectFile::realize_symbols': 'vf_realize_symbols'}),
             C('object_of_pointer', {D + 'ObjectFileRegistry::find_object_file': 'vf_find_object_file', D + 'ensure_initialization': 'vf_ensure_initialization'}),
             C('find_symbol', {D + 'ObjectFileData::load_elf_function_symbols': 'vf_load_elf'}),
             C('function_name', {D + 'find_object_file': 'vf_find_object_file_of', D + 'ObjectFile::find_symbol': 'vf_find_symbol'}),
             C('add_range', INSERT), C('add_elf', INSERT), C('registered_object'), C('unregister_own', CLOSE), C('unregister_other', CLOSE),
             *[C(n, dict(NEW, **{D + 'ObjectFileRegistry::find_registered_object_file': 'vf_find_registered'}), templates=header_templates,
               contracts=[('libcwd::_private_::assert_fail', given_up), ('vf_phdrs', phdrs), ('vf_covered_by', covered_by), ('vf_loadable', loadable)]) for n in ('callback', 'callback_names', 'callback_known')],
             C('opening', LOADER, contracts=ONCE), C('closing', dict(LOADER, **NEW), contracts=ONCE),
             Contract('history', bounded=True, lib=True), Contract('loading', bounded=True, lib=True)]
FUZZ_SECONDS = 20
BUDGET = 400
ASSUMPTIONS = ['the dynamic linker reports segments that neither overlap nor wrap (the code asserts it)',
               'std::map behaves as documented: the contracts describe it at one arbitrary address or handle, the other elements are arbitrary, disjoint, nonempty and sorted',
               'threadsafe::Unlocked is a stand-in that counts readers and writers; less than 2^31 references per handle',
               'what libdw reports about functions is arbitrary: the names and ranges that it reports are trusted',
               'objects that stay loaded only because another object depends on them, and dependencies that dlopen loads along, are outside the statement']
