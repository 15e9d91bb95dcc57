"""Rebuilding the verified text from /repo: C++ -> LLVM IR -> JSON, and the native replay programs."""
import hashlib, os, subprocess, shutil, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


def tools():
    d = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'tools/irdump.cpp')
    if not os.path.exists(d) or os.path.getmtime(d) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        flags = sh([LLVM + '/llvm-config', '--cxxflags']).replace('-fno-exceptions', '').split()
        libs = sh([LLVM + '/llvm-config', '--ldflags', '--libs', 'core', 'irreader', 'support']).split()
        tmp = d + '.%d' % os.getpid()
        sh(['g++', '-O1'] + flags + [src, '-o', tmp] + libs)
        os.rename(tmp, d)
    return d


def workdir(check):
    d = os.path.join(BUILD, 'work', check)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def config(wd):
    """The generated headers, from /repo's own *.in files."""
    inc = os.path.join(wd, 'cfg')
    sh(['cmake', '-S', os.path.join(VERIF, 'tools/config'), '-B', inc, '-DREPO=' + REPO],
       env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', CXXFLAGS='', CFLAGS=''))
    return os.path.join(inc, 'include')


def flags(inc):
    return ['-std=c++20', '-fno-access-control', '-DCWDEBUG', '-DVERSION="verif"', '-w',
            '-DLIBCWD_TESTSUITE_VERIF',
            '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'harness/stubs'), '-I' + inc,
            '-I' + REPO + '/include', '-I' + REPO]


def ir(wd, inc, harness, extra=()):
    base = os.path.join(wd, harness)
    src = os.path.join(VERIF, 'harness', harness + '.cxx')
    sh([LLVM + '/clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-S', '-emit-llvm', '-fno-discard-value-names'] + flags(inc) + list(extra) +
       [src, '-o', base + '.ll'])
    sh([LLVM + '/opt', '-passes=sroa,simplifycfg', base + '.ll', '-o', base + '.bc'])
    out = sh([tools(), base + '.bc'])
    open(base + '.json', 'w').write(out)
    return base + '.json'


SAN = ['-O1', '-g1', '-fno-sanitize-recover=all', '-DVF_NATIVE']
UNITS = ['debug', 'demangle', 'dwarf', 'environ', 'init_functions', 'location', 'strerrno', 'threading', 'type_info',
         'utils/attach_gdb', 'utils/buf2str', 'utils/char2str', 'utils/exec_prog', 'utils/match', 'utils/rcfile']


def lib_unit(wd, inc, unit):
    """One of /repo's own translation units, instrumented, for linking harnesses that need the rest of the library."""
    src = os.path.join(REPO, 'src', unit + '.cxx')
    if not os.path.exists(src):
        return None
    out = os.path.join(wd, 'lib.' + os.path.basename(unit) + '.o')
    sh([LLVM + '/clang++', '-c', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=vptr,function,bounds,pointer-overflow'] + SAN + flags(inc) + [src, '-o', out])
    return out


def native_obj(wd, inc, harness, extra=()):
    """The same harness, compiled and instrumented: replays concrete values and searches for failing ones."""
    obj = os.path.join(wd, harness + '.native.o')
    src = harness if harness.startswith('/') else os.path.join(VERIF, 'harness', harness + '.cxx')
    sh([LLVM + '/clang++', '-c', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=vptr,function,bounds,pointer-overflow'] + SAN + flags(inc) + list(extra) + [src, '-o', obj])
    return obj


def native_link(wd, harness, objs):
    out = os.path.join(wd, harness + '.native')
    sh([LLVM + '/clang++', '-fsanitize=address,undefined,fuzzer', '-Wl,--allow-multiple-definition', '-fno-sanitize=vptr,function,bounds,pointer-overflow'] + objs + ['-o', out, '-lpthread', '-ldl', '-ldw', '-lelf'])
    return out
