"""Driver: decides one property by verifying all of its contracts against /repo's current source.

python3-vt -m vf.check <id> <quick|thorough>
"""
import importlib.util, json, multiprocessing as mp, os, re, shutil, subprocess, sys, time, traceback
from . import build, ir, engine, models, spec

VERIF = build.VERIF


class Contract(object):
    """One harness function (entry) of harness/<harness>.cxx together with the callee contracts it relies on."""

    def __init__(self, entry, harness=None, contracts=(), user=None, templates=None, opts=None, models=None, setup=None, fuzz=True,
                 flags=(), max_len=256, needs=(), bounded=None, lib=False, hang=False, redirect=None):
        self.redirect = redirect       # {callee: extern "C" harness function that states its contract}
        self.lib = lib                 # the native harness is linked with the rest of the library
        self.hang = hang               # not terminating within 10 s violates the contract
        self.entry = entry
        self.harness = harness
        self.contracts = list(contracts)
        self.user = user or {}
        self.templates = templates
        self.opts = opts or {}
        self.models = models
        self.setup = setup
        self.fuzz = fuzz
        self.flags = list(flags)
        self.max_len = max_len
        self.needs = list(needs)       # covers that must be reached
        self.bounded = bounded         # text: this contract is a bounded check, never counted as proved


def load_prop(pid):
    p = os.path.join(VERIF, 'checks', pid + '.py')
    s = importlib.util.spec_from_file_location('checks_' + pid, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def verify(pid, idx, jsonfile, tier, budget):
    """Runs in a worker process."""
    m = load_prop(pid)
    c = m.CONTRACTS[idx]
    t0 = time.time()
    res = {'entry': c.entry, 'harness': c.harness or pid, 'status': 'error', 'obligations': [], 'incomplete': []}
    try:
        mod = ir.Module(jsonfile)
        mm = models.base_models()
        if c.models:
            c.models(mm)
        o = dict(c.opts)
        o.setdefault('timeout_ms', 30000 if tier == 'quick' else 120000)
        o['contracts'] = [(rx, h) for rx, h in c.contracts]
        o['user'] = dict(c.user)
        o['redirect'] = c.redirect
        o['templates'] = c.templates
        o['deadline'] = t0 + budget
        o['trace'] = bool(os.environ.get('VF_TRACE'))
        sys.setrecursionlimit(20000)
        eng = engine.Engine(mod, mm, o)
        try:
            eng.run('vf_harness_' + c.entry, setup=c.setup)
        except engine.Incomplete as e:
            eng.incomplete.append((str(e), ''))
        claims = getattr(m, 'CLAIMS', None)
        for ob in eng.obligs.values():
            if claims and not re.search(claims, ob.name):
                continue                # belongs to another property, which lists the same contract
            res['obligations'].append({'name': ob.name, 'where': ob.where, 'status': ob.status, 'paths': ob.count, 'time': round(ob.time, 3),
                                       'inputs': ob.inputs, 'detail': ob.detail})
        res['incomplete'] = sorted(set(eng.incomplete))
        res['paths'] = eng.complete_paths
        res['queries'] = eng.queries
        res['solver_time'] = round(eng.solver_time, 3)
        res['covers'] = sorted(eng.covers)
        res['functions'] = sorted(set(mod.fns[n].short for n in eng.fns_seen))
        res['models'] = sorted(eng.models_used)
        res['callee_contracts'] = sorted(eng.contracts_used)
        res['invariants'] = eng.invariants
        failed = [o for o in res['obligations'] if o['status'] == 'failed']
        unknown = [o for o in res['obligations'] if o['status'] == 'unknown']
        if failed:
            res['status'] = 'failed'
        elif res['incomplete'] or unknown:
            res['status'] = 'undecided'
        elif not res['obligations'] or not eng.covers or any(n not in eng.covers for n in c.needs):
            res['status'] = 'vacuous'
        else:
            res['status'] = 'proved'
    except Exception as e:
        res['status'] = 'undecided'
        res['incomplete'].append(('%s: %s' % (type(e).__name__, e), traceback.format_exc()[-3500:]))
    res['wall'] = round(time.time() - t0, 2)
    return res


def inputs_text(inputs):
    out = []
    for i in inputs or []:
        if i[0] == 'int':
            out.append('i %d %d' % (i[1], i[2]))
        else:
            out.append('s %d %s' % (len(i[2]), ''.join('%02x' % b for b in i[2])))
    return '\n'.join(out) + '\n'


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1')


def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode('latin1')


def replay(binary, entry, path, hang=False):
    """True if the real code violates the contract on the values in path."""
    rc, out = run([binary, entry, '--replay', path], 20, cwd=os.path.dirname(path))
    if rc is None:
        return hang, out + '\nVF-FAILED: the call does not return within 20 s\n'
    return rc not in (0, 3), out


def fuzz(binary, entry, seconds, wd, max_len, seed, hang=False):
    d = os.path.join(wd, 'fuzz.' + entry)
    os.makedirs(os.path.join(d, 'corpus'), exist_ok=True)
    env = dict(ENV, VF_ENTRY=entry)
    rc, out = run([binary, '-max_total_time=%d' % seconds, '-max_len=%d' % max_len, '-seed=%d' % seed, '-timeout=10', '-rss_limit_mb=3000', '-len_control=20',
                   '-artifact_prefix=%s/' % d, '-print_final_stats=1', os.path.join(d, 'corpus')], seconds + 30, env=env, cwd=d)
    m = re.findall(r'stat::number_of_executed_units: *(\d+)', out)
    n = int(m[-1]) if m else 0
    crashes = sorted(x for x in os.listdir(d) if x.startswith(('crash-', 'timeout-') if hang else ('crash-',)))
    hits = []
    for c in crashes:
        vf = os.path.join(d, c + '.vf')
        run([binary, entry, '--convert', os.path.join(d, c), vf], 30, cwd=d)
        if os.path.exists(vf):
            bad, txt = replay(binary, entry, vf, hang)
            if bad:
                hits.append((vf, txt))
    return n, hits, out


def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = load_prop(pid)
    if getattr(m, 'CLAIMS', None):
        ENV['VF_CLAIMS'] = m.CLAIMS
    only = os.environ.get('VF_ONLY')
    wd = build.workdir(pid)
    rdir = os.path.join(VERIF, 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    quick = tier != 'thorough'
    budget = getattr(m, 'BUDGET', 300 if quick else 1500)
    violations, finding_lines, notes = [], [], []
    inc = build.config(wd)
    spec.generate(os.path.join(inc))
    harnesses = {}
    for i, c in enumerate(m.CONTRACTS):
        harnesses.setdefault((c.harness or pid, tuple(c.flags)), []).append(i)
    results = {}
    native = {}
    pool = mp.Pool(8)
    jobs = {}
    nat_jobs = {}
    rt_job = pool.apply_async(build_rt, (wd, inc))
    for hk in harnesses:
        nat_jobs[hk] = pool.apply_async(build_native, (wd, inc, hk[0], hk[1]))
    lib_jobs = [pool.apply_async(build_unit, (wd, inc, u)) for u in build.UNITS] if any(c.lib for c in m.CONTRACTS) else []
    for hk, idxs in harnesses.items():
        try:
            js = build.ir(wd, inc, hk[0], hk[1])
        except build.BuildError as e:
            for i in idxs:
                results[i] = {'entry': m.CONTRACTS[i].entry, 'status': 'undecided', 'obligations': [], 'incomplete': [('the harness no longer compiles', str(e)[-2000:])]}
            continue
        for i in idxs:
            if only and m.CONTRACTS[i].entry != only:
                continue
            if m.CONTRACTS[i].bounded:
                results[i] = {'entry': m.CONTRACTS[i].entry, 'status': 'bounded', 'obligations': [], 'incomplete': [(m.CONTRACTS[i].bounded, '')]}
                continue
            jobs[i] = pool.apply_async(verify, (pid, i, js, tier, budget))
    for i, j in jobs.items():
        try:
            results[i] = j.get(budget + 120)
        except mp.TimeoutError:
            results[i] = {'entry': m.CONTRACTS[i].entry, 'status': 'undecided', 'obligations': [], 'incomplete': [('time budget exhausted', '')]}
    libs = []
    for j in lib_jobs:
        try:
            o = j.get(600)
            if o:
                libs.append(o)
        except Exception as e:
            notes.append('library unit not built: %s' % str(e)[-800:])
    if libs:
        build.sh(['ar', 'rcs', os.path.join(wd, 'lib.a')] + libs)
    for hk, j in nat_jobs.items():
        try:
            o = j.get(600)
            native[hk] = build.native_link(wd, hk[0], [o, rt_job.get(600)] + ([os.path.join(wd, 'lib.a')] if libs else []))
        except Exception as e:
            native[hk] = None
            notes.append('native harness %s not built: %s' % (hk[0], str(e)[-1500:]))
    pool.terminate()
    # --- native runs: replay of counterexamples, search where a proof failed or is bounded, and a short model validation
    execs = {}
    fuzzjobs = []
    pool2 = mp.pool.ThreadPool(8)
    for hk, idxs in harnesses.items():
        for i in idxs:
            if i not in results:
                continue
            c, r = m.CONTRACTS[i], results[i]
            b = native.get(hk)
            r['hit'] = None
            if b is None:
                continue
            if r['status'] == 'failed':
                for k, o in enumerate(x for x in r['obligations'] if x['status'] == 'failed'):
                    if not o['inputs'] and o['inputs'] != []:
                        continue
                    p = os.path.join(rdir, '%s.%d.vf' % (c.entry, k))
                    open(p, 'w').write(inputs_text(o['inputs']))
                    bad, txt = replay(b, c.entry, p, c.hang)
                    if bad:
                        r['hit'] = (p, o['name'] + ' at ' + o['where'], txt)
                        break
            if r['hit'] or not c.fuzz:
                continue
            secs = (60 if quick else 240) if r['status'] in ('failed', 'undecided', 'vacuous', 'bounded') else (6 if quick else 120)
            if getattr(m, 'FUZZ_SECONDS', None) and r['status'] in ('bounded',):
                calm = all(x['status'] in ('proved', 'bounded') for x in results.values())
                secs = (m.FUZZ_SECONDS if calm else 90) if quick else 8 * m.FUZZ_SECONDS
            fuzzjobs.append((i, pool2.apply_async(fuzz, (b, c.entry, secs, wd, c.max_len, seed, c.hang))))
    for i, j in fuzzjobs:
        n, hits, out = j.get()
        execs[m.CONTRACTS[i].entry] = n
        if n == 0 and not hits:
            notes.append('native search of %s executed nothing: %s' % (m.CONTRACTS[i].entry, out[-400:]))
        for k, (vf, txt) in enumerate(hits[:1]):
            p = os.path.join(rdir, '%s.search%d.vf' % (m.CONTRACTS[i].entry, k))
            shutil.copy(vf, p)
            results[i]['hit'] = (p, failed_name(txt), txt)
    pool2.terminate()
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    for i, r in sorted(results.items()):
        c = m.CONTRACTS[i]
        hit = r.get('hit')
        if hit:
            p, what, txt = hit
            with open(p) as f:
                body = f.read()
            with open(p, 'w') as f:
                f.write('# property %s, contract %s: %s\n# replay: build/work/%s/%s.native %s --replay <this file>   (values below)\n' % (pid, c.entry, what, pid, c.harness or pid, c.entry))
                f.write(body)
                f.write(''.join('# ' + l + '\n' for l in txt[-6000:].splitlines()))
            violations.append((p, '', '%s: %s' % (c.entry, what)))
        elif r['status'] == 'failed':
            p = os.path.join(rdir, '%s.obligation.txt' % c.entry)
            with open(p, 'w') as f:
                f.write('property %s, contract %s: obligations refuted by the verifier, no failing input found\n' % (pid, c.entry))
                for o in r['obligations']:
                    if o['status'] == 'failed':
                        f.write('FAILED %s\n  at %s\n  verifier model: %s\n  %s\n' % (o['name'], o['where'], o['inputs'], o['detail']))
                f.write(json.dumps(r.get('invariants'), indent=1))
            violations.append((p, ' no-failing-input-found', '%s: %s' % (c.entry, [o['name'] + ' at ' + o['where'] for o in r['obligations'] if o['status'] == 'failed'])))
    if any(not v[1] for v in violations):
        # a failing input says it all; the refuted obligations are in the evidence and beside it
        violations = [v for v in violations if not v[1]]
    write_evidence(pid, tier, seed, m, results, execs, violations, notes, time.time() - t0, known)
    for i, r in sorted(results.items()):
        print('%-34s %-10s %4d obligations, %5d paths, %6.1fs  %s' % (r['entry'], r['status'], len(r['obligations']), r.get('paths', 0), r.get('wall', 0),
              '; '.join('%s [%s]' % (a, b[-int(os.environ.get("VF_TAIL","300")):]) for a, b in r['incomplete'][:3])))
    for n in notes:
        print('note:', n)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for p, tail, what in violations:
        print('  ' + what)
        print('VIOLATION property=%s replay=%s%s' % (pid, p, tail))
    sys.exit(1 if violations else 0)


def failed_name(txt):
    m = re.search(r'VF-FAILED: (.*)', txt)
    if m:
        return m.group(1)
    m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*)', txt)
    return m.group(1) if m else 'abnormal end'


def build_native(wd, inc, harness, flags):
    return build.native_obj(wd, inc, harness, flags)


def build_rt(wd, inc):
    obj = os.path.join(wd, 'vf_native.o')
    build.sh([build.LLVM + '/clang++', '-c', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,bounds,pointer-overflow'] + build.SAN + build.flags(inc) + [os.path.join(VERIF, 'harness/vf_native.cxx'), '-o', obj])
    return obj


def build_unit(wd, inc, u):
    return build.lib_unit(wd, inc, u)


def write_evidence(pid, tier, seed, m, results, execs, violations, notes, wall, known):
    obs = dis = 0
    by = {}
    funcs, mods, cc = set(), set(), set()
    st = 0.0
    bounded = []
    for i, r in results.items():
        obs += len(r['obligations'])
        d = sum(1 for o in r['obligations'] if o['status'] == 'discharged')
        dis += d
        st += r.get('solver_time', 0)
        funcs |= set(f for f in r.get('functions', ()) if not f.startswith(('std::', '__gnu_cxx::', 'vf_')))
        mods |= set(r.get('models', ()))
        cc |= set(r.get('callee_contracts', ()))
        if r['status'] in ('undecided', 'vacuous', 'bounded'):
            bounded.append({'contract': r['entry'], 'status': r['status'], 'why': [a for a, b in r['incomplete'][:5]],
                            'stand_in': 'bounded: %d concrete executions of the real code under ASan/UBSan' % execs.get(r['entry'], 0)})
    level = 'proof' if not bounded else getattr(m, 'FALLBACK_LEVEL', 'proof')
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': getattr(m, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': obs, 'discharged': dis,
            'checker_cmd': 'python3-vt -m vf.check %s %s (own VC generator over clang-18 LLVM IR of /repo; back end z3 %s)' % (pid, tier, z3v()),
            'trusted_base': ['clang 18 front end and the LLVM passes sroa and simplifycfg (the verified text is their output for /repo\'s current source)',
                             'vf/engine.py (VC generator), z3'] + ['assumed contract: ' + x for x in sorted(mods) if not x.startswith('vf_')] +
                            ['contract used at call sites (not re-proved in this run unless listed as a contract): ' + x for x in sorted(cc)],
            'functions_under_contract': sorted(funcs),
            'backends': {'z3': dis},
            'solver_seconds': round(st, 2),
            'contracts': [{'contract': r['entry'], 'status': r['status'], 'obligations': len(r['obligations']), 'paths': r.get('paths', 0),
                           'covers': r.get('covers', []), 'invariants': r.get('invariants', {}), 'wall_s': r.get('wall'),
                           'named': sorted(set(o['name'] for o in r['obligations']))} for i, r in sorted(results.items())],
            'bounded_stand_ins': bounded,
            'native_executions': execs,
            'notes': notes,
        },
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])),
        'violations': len(violations),
        'wall_s': round(wall, 2),
    }
    if known:
        ev['coverage']['known_findings'] = [k['what'] for k in known]
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
