from vf.check import Contract
from vf.models import m_ret_arg0

def models(m):
    m.add(r'std::ostream::operator<<|std::basic_ostream<char, std::char_traits<char> ?>::operator<<', m_ret_arg0)

L = dict(lib=True, max_len=64)
CONTRACTS = [Contract(e, **L) for e in ('first_channel', 'first_always', 'first_fatal', 'add_channel', 'add_fatal', 'add_flag', 'start_continued', 'continue_or_finish')] + \
    [Contract(e, harness='C20dout', models=models, **L) for e in ('one_channel', 'two_channels', 'two_channels_and_flag', 'flag_between_channels',
                                                                  'conditional_channel', 'always', 'two_statements')]
ASSUMPTIONS = ['statements of up to two channels are instances of the Dout macro; longer ones follow from the operator contracts',
               'dc::continued and dc::finish are used after a matching continued_cf',
               'std::boolalpha changes only the format of the stream']
