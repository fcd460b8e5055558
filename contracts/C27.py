"""C27: the configuration file selected last decides."""
from engine.vc import *
from engine.values import *
from contracts.gis import nat, noop

REG = Registry('C27')
F = 'utilities/config.py:'


class Parser(object):
    """RawConfigParser: read(files) overwrites the values of the options the
    files define, in order, and nothing else changes values"""

    def __init__(self, v, there=True):
        self.v, ip = v, v.ip
        self.log = v.st.new(InstRec(None, {'reads': ()}))

        def read(ip, st, a, k):
            ip.assumed.add('RawConfigParser.read sets every option a file '
                           'defines to the value it defines there, and '
                           'leaves other options alone')
            if k or len(a) != 1:
                raise Unsupported('options of read')
            x = a[0]
            if isinstance(x, (str, SymStr)):
                x = [x]
            else:
                x = ip.concrete_items(st, x)
            r = st.heap[self.log.id].attrs['reads']
            st.heap[self.log.id] = InstRec(None, {'reads': r + tuple(x)})
            return st.new(SeqRec([Items(x)]))

        def attr(ip, st, o, name):
            if name == 'read':
                return nat('RawConfigParser.read', read)
            if name == '__init__':
                return nat('RawConfigParser.__init__', noop)
            if name in ('get', 'getboolean', 'has_option', 'has_section'):
                return nat(name, lambda ip, st, a, k: Opaque(name))
            return None
        base = NativeClass('RawConfigParser')
        base.attr = attr
        base.extra = {'__init__': nat('RawConfigParser.__init__', noop),
                      'read': nat('RawConfigParser.read',
                                  lambda ip, st, a, k: read(ip, st, a[1:],
                                                            k))}
        ip.libs['configparser'] = ModuleVal('configparser', None, {
            'RawConfigParser': base, 'ConfigParser': base})
        default = SymStr([Atom('default')])
        ip.contracts[F + '_get_default_config'] = Contract(
            lambda ip, st: default)
        ip.libs['os'].attrs['path'].attrs['exists'] = nat(
            'os.path.exists', lambda ip, st, a, k: there
            if str_eq(a[0], default) is True else v.bool('exists'))
        self.cls = v.fn('utilities.config', '_ConfigParser')

    def reads(self, st):
        return st.heap[self.log.id].attrs['reads']


def last_read(v, p, st, given):
    r = p.reads(st)
    if not r:
        raise Unsupported('the file is not read when it is selected')
    k = [str_eq(x, given) for x in r]
    if None in k:
        raise Unsupported('another name of the file')
    v.ensure(st, 'the selected file is read', True in [bool(x) for x in k])
    v.ensure(st, 'no file is read after it', k[-1] is True)


@REG.task('set_config_file', [F + '_ConfigParser.set_config_file',
                              F + '_ConfigParser._read_file'])
def select(v):
    """from any state of the parser"""
    p = Parser(v)
    given = SymStr([Atom('given')])
    o = v.st.new(InstRec(p.cls, {
        'readonce': v.bool('readonce'),
        'config_file': SymStr([Atom('earlier')])}))
    v.st.heap[p.log.id] = InstRec(None, {'reads': ()})
    for st, _ in v.outcomes(v.fn('utilities.config',
                                 '_ConfigParser.set_config_file'), o, given):
        last_read(v, p, st, given)


@REG.task('one after another', [F + '_ConfigParser.__init__'],
          params=[a + b for a in ('one', 'two', 'back')
                  for b in ('', ' without default')])
def history(v, how):
    """a new parser, then the selections"""
    p = Parser(v, not how.endswith('without default'))
    st, o = v.call1(p.cls)
    v.st = st
    A, B = SymStr([Atom('first')]), SymStr([Atom('second')])
    seq = {'one': [A], 'two': [A, B], 'back': [A, B, A]}[
        how.split()[0]]
    for f in seq:
        v.st.heap[p.log.id] = InstRec(None, {'reads': ()})
        outs = v.outcomes(v.fn('utilities.config',
                               '_ConfigParser.set_config_file'), o, f)
        for st, _ in outs:
            last_read(v, p, st, f)
        if len(outs) != 1:
            raise Unsupported('several outcomes')
        v.st = outs[0][0]
