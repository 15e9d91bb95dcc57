"""Specification tables derived from this system (not from /repo)."""
import re, subprocess


def errno_header(path):
    out = subprocess.run(['gcc', '-E', '-dM', '-include', 'errno.h', '-x', 'c', '/dev/null'], capture_output=True, text=True, check=True).stdout
    defs = dict(re.findall(r'#define (E[A-Z0-9]+) (\w+)', out))

    def val(n, d=0):
        v = defs.get(n)
        if v is None or d > 4:
            return None
        return int(v) if v.isdigit() else val(v, d + 1)
    by = {}
    for n in defs:
        v = val(n)
        if v is not None and n != 'ERRNO':
            by.setdefault(v, []).append(n)
    with open(path, 'w') as f:
        f.write('static bool has_name(unsigned e) { switch (e) { %s return true; default: return false; } }\n' % ' '.join('case %d:' % v for v in sorted(by)))
        f.write('static bool is_name_of(unsigned e, char const* s) { switch (e) {\n')
        for v in sorted(by):
            f.write('  case %d: return %s;\n' % (v, ' || '.join('std::strcmp(s, "%s") == 0' % n for n in sorted(by[v]))))
        f.write('  default: return false; } }\n')


def generate(d):
    errno_header(d + '/errno_spec.h')
