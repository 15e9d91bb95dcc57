from vf.check import Contract
from vf.debugobj import *

CLAIMS = '^(?!.*(lock|errno))'
CONTRACTS = WRITETO + [Contract('write_prefix', needs=['written'], templates=prefix_templates, **W)] + [
    Contract(n, needs=['started'], **MSGS) for n in ('start_first', 'start_nested', 'start_interrupting_first', 'start_interrupting_again')] + [
    Contract('start_resumed', needs=['resumed'], **MSG), Contract('finish_message', needs=['finished'], **MSG), Contract('finish_statement', needs=['finished'], **MSG),
    Contract('whitespace', needs=['written'], templates=whitespace_templates, **W), Contract('stack', needs=['popped'], **W), HISTORY]
FUZZ_SECONDS = 15
ASSUMPTIONS = ASSUMED
