from vf.check import Contract
CONTRACTS = [Contract('strerrno', fuzz=True, needs=['strerrno returns'])]
