from vf.check import Contract
from vf.debugobj import *

CLAIMS = 'lock'
CONTRACTS = WRITETO + [Contract('write_prefix', needs=['written'], templates=prefix_templates, **W), Contract('start_resumed', needs=['resumed'], **MSG),
    Contract('finish_message', needs=['finished'], **MSG), Contract('finish_statement', needs=['finished'], **MSG), Contract('start_first', needs=['started'], **MSGS), 
    Contract('start_interrupting_first', needs=['started'], **MSGS), HISTORY]
FUZZ_SECONDS = 15
ASSUMPTIONS = ASSUMED
