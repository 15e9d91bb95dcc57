from vf.check import Contract
from vf.engine import *

def nop(eng, st, fn, args, ins):
    return None

L = dict(lib=True, max_len=64)
CONTRACTS = [Contract('channel_off', **L), Contract('channel_on', **L), Contract('channel_balance', **L), Contract('channel_force', needs=['restored'], **L),
             Contract('channel_force_nested', **L), Contract('object_off', **L), Contract('object_on', **L), Contract('object_balance', **L),
             Contract('object_force', contracts=[(r'libcwd::ST_initialize_globals', nop)], needs=['restored'], **L), Contract('flush', **L), Contract('conditional', **L)]
ASSUMPTIONS = ['counters stay below INT_MAX', 'a fatal error ends the program (claimed ownership of termination is C22)']
