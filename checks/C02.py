from vf.check import Contract
CONTRACTS = [Contract('char2str'), Contract('buf2str')]
