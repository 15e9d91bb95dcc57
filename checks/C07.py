from vf.check import Contract
L = dict(lib=True)
CONTRACTS = [Contract('lookup', needs=['known', 'delayed'], **L), Contract('relookup', **L), Contract('default_construct', **L), Contract('copy', needs=['the copy owned the path'], **L),
             Contract('assign', **L), Contract('assign_self', **L), Contract('clear', **L), Contract('lock', **L), Contract('print', **L)]
ASSUMPTIONS = ['the lookup layer (object file registry, DWARF reader) answers anything its interface allows, with known implying a file',
               'debug output of libcwd itself (channel ELFUTILS) is off during the lookup',
               'line 0 is resolved with the rule of the clang build, which contains the other branch']
