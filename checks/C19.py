from vf.check import Contract
from vf.debugobj import *

CLAIMS = 'errno'
CONTRACTS = [Contract(n, needs=['started'], **MSGS) for n in ('start_first', 'start_nested', 'start_interrupting_first', 'start_interrupting_again')] + [
    Contract('start_resumed', needs=['resumed'], **MSG), Contract('finish_message', needs=['finished'], **MSG), HISTORY]
FUZZ_SECONDS = 15
ASSUMPTIONS = ASSUMED
