"""Loading of the JSON that tools/irdump prints: functions, blocks, loops, globals."""
import json, subprocess, re


class Fn:
    __slots__ = ('name', 'dem', 'decl', 'noreturn', 'args', 'ret', 'blocks', 'file', 'line', 'loops', 'loop_of', 'vararg', 'short')

    def __init__(self, j, dem):
        self.name = j['name']
        self.dem = dem
        self.short = strip_params(dem)
        self.decl = j['decl']
        self.noreturn = j['noreturn']
        self.vararg = j['vararg']
        self.args = j['args']
        self.ret = j['ret']
        self.blocks = j.get('blocks')
        self.file = j.get('file', '?')
        self.line = j.get('line', 0)
        self.loops = None

    def compute_loops(self):
        """Natural loops: header -> set of body blocks (back edges by dominance)."""
        if self.loops is not None:
            return
        n = len(self.blocks)
        succ = [successors(b) for b in self.blocks]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        # dominators
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        dom = {b: None for b in order}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in dom and dom[p] is not None:
                        new = set(dom[p]) if new is None else new & dom[p]
                new = (new or set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    changed = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += [p for p in pred[x] if p in dom]
        self.loops = loops


def successors(block):
    t = block[-1]
    op = t['op']
    if op == 'br':
        return t['dst']
    if op == 'switch':
        return [t['default']] + [c[1] for c in t['cases']]
    if op == 'invoke':
        return [t['normal'], t['unwind']]
    return []


def strip_params(dem):
    """'ret ns::f<int>(a, b) const' -> 'ns::f<int>' (drop the parameter list and any return type)."""
    s = dem
    # find the last top-level '('
    depth = 0
    end = None
    i = len(s) - 1
    # strip trailing qualifiers
    m = re.search(r'\)(?: const| volatile|&|&&| \[clone [^\]]*\]|\[abi:[^\]]*\])*$', s)
    if not m:
        return s
    i = m.start()
    while i >= 0:
        c = s[i]
        if c == ')':
            depth += 1
        elif c == '(':
            depth -= 1
            if depth == 0:
                end = i
                break
        i -= 1
    if end is None:
        return s
    s = s[:end]
    # drop a return type: last top-level space not inside <> or ()
    depth = 0
    cut = 0
    i = 0
    if ' operator' in s or s.startswith('operator') or '::operator' in s:
        k = s.find('operator')
        pre, post = s[:k], s[k:]
    else:
        pre, post = s, ''
    for i, c in enumerate(pre):
        if c in '<({[':
            depth += 1
        elif c in '>)}]':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = i + 1
    return pre[cut:] + post


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        names = [f['name'] for f in j['functions']]
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
        dems = p.stdout.split('\n')
        self.fns = {}
        for f, d in zip(j['functions'], dems):
            self.fns[f['name']] = Fn(f, d)
        self.globals = {g['name']: g for g in j['globals']}
        self.aliases = j['aliases']
        self.by_short = {}
        for f in self.fns.values():
            self.by_short.setdefault(f.short, []).append(f)


def tsize(t):
    k = t[0]
    if k == 'i':
        return (t[1] + 7) // 8 if t[1] <= 8 else 1 << ((t[1] + 7) // 8 - 1).bit_length()
    if k == 'p':
        return 8
    if k == 'f':
        return t[2]
    if k == 's':
        return t[1]
    if k in ('a', 'x'):
        return t[1] * t[3]
    raise Exception('tsize %r' % (t,))
