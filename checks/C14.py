from vf.check import Contract
from vf.debugobj import *

CLAIMS = 'prefix|character|beyond|indent|blanks'
CONTRACTS = [Contract(n, needs=['started'], **MSGS) for n in ('start_first', 'start_nested', 'start_interrupting_first', 'start_interrupting_again')] + [
    Contract('whitespace', needs=['written'], templates=whitespace_templates, **W), HISTORY]
FUZZ_SECONDS = 15
ASSUMPTIONS = ASSUMED
