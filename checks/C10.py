from vf.check import Contract
STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
STRK = '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
RED = {STR + 'C[12]Ev': 'vf_string', STR + 'D[12]Ev': 'vf_string', STR + '6assignEPKcm': 'vf_assign_n', STR + '(6assign|aS)EPKc': 'vf_assign',
       STR + '6appendEPKcm': 'vf_append_n', STR + '(6append|pL)EPKc': 'vf_append', STR + '(6append|pL)ERKS4_': 'vf_append_s', STR + '5clearEv': 'vf_clear'}
S = r'__gnu_cxx::demangler::session<std::allocator<char>\s*>::'
ENC = {S + 'decode_encoding': 'vf_encoding', S + 'decode_type': 'vf_type'}
PUB = {'libcwd::_private_::demangle_(symbol|type)': 'vf_demangle'}


def C(n, red):
    return Contract(n, redirect=dict(RED, **red), fuzz=False, flags=['-Wno-everything'])


CONTRACTS = [C('symbol', ENC), C('type', ENC), C('append_symbol', PUB), C('append_type', PUB), Contract('names', bounded=True, max_len=64)]
ASSUMPTIONS = ['what the decoder accepts defines which names can be decoded: it may report any result and write any text',
               'the input has fewer than 2^30 characters', 'std::string assign and append behave as documented']
