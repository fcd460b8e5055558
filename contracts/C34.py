"""C34: the class table in force is the file the configuration names."""
from engine.vc import *
from engine.values import *
from engine.lib import arg
from contracts.gis import World, nat, noop, configuration

REG = Registry('C34')
T, S = 'terrain/terrain_mult.py:', 'shielding/shield_mult.py:'
# the values of the table's columns reach the cells
SUPPORT = {'C04': None, 'C07': None, 'C27': ['set_config_file']}
# the same file as far as the table goes
PLAIN = {'sep': (',',), 'delimiter': (',', None), 'header': (0, 'infer'),
         'skip_blank_lines': (True,), 'dtype': (None,),
         'usecols': (None,), 'names': (None,), 'nrows': (None,),
         'skiprows': (None, 0), 'encoding': (None, 'utf-8')}


class Table(object):
    """the file system and the configuration at a time"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        self.W = World(v)
        self.W.install()
        self.n = 0

        def get(ip, st, a, k):
            if tuple(a) != ('inputValues', 'terrain_table') or k:
                raise Unsupported('option %r' % (a,))
            return self.path

        def read(ip, st, a, k):
            ip.assumed.add(
                'pandas.read_csv with comment="#" and index_col=False makes '
                'one row of every line of the file that holds fields before '
                'a "#", under the names of its first such line')
            k = dict(k)
            p = a[0] if a else k.pop('filepath_or_buffer', None)
            if len(a) > 1 or p is None:
                raise Unsupported('arguments of read_csv')
            same = None
            for q in self.known:
                r = str_eq(p, q)
                if r is None:
                    raise Unsupported('name of the table')
                if r is True:
                    same = q
            ip.obl(st, 'a file the configuration names is read',
                   same is not None)
            ip.obl(st, 'comments are left out', k.pop('comment', None) ==
                   '#')
            ip.obl(st, 'no field becomes an index', k.pop(
                'index_col', None) is False)
            for o, x in k.items():
                if o not in PLAIN or norm(x) not in PLAIN[o]:
                    raise Unsupported('option %s of read_csv' % o)
            there, well = self.state
            ip.raise_unless(st, there, 'FileNotFoundError')
            ip.raise_unless(st, well, 'ValueError')
            return self.content(same)
        v.ip.libs['pandas'] = ModuleVal('pandas', None, {
            'read_csv': nat('read_csv', read)})

        def stop(ip, st, a, k):
            ip.raise_unless(st, False, 'SystemExit')
        v.ip.libs['sys'].attrs['exit'] = nat('sys.exit', stop)
        self.known = []
        self.config = configuration(get)

    def set(self, name):
        """the configuration names this file, which has just been written"""
        self.n += 1
        v = self.v
        self.path = SymStr([Atom(name)])
        self.known = [self.path]
        self.state = v.bool('there_%d' % self.n), v.bool(
            'well_formed_%d' % self.n)

    def content(self, p):
        return ObjV(z3.Int('content_%d' % self.n))


HISTORIES = {'another file': ('first', 'second'),
             'the file is rewritten': ('first', 'first'),
             'and back': ('first', 'second', 'first')}


@REG.task('table', [T + 'get_terrain_table', S + 'get_shielding_table'],
          params=['%s, %s' % (w, h) for w in ('terrain', 'shielding')
                  for h in HISTORIES])
def table(v, what):
    """whatever was read before"""
    w, h = what.split(', ')
    t = Table(v)
    m, f = (('terrain.terrain_mult', 'get_terrain_table')
            if w == 'terrain' else
            ('shielding.shield_mult', 'get_shielding_table'))
    v.setmod(m, 'config', t.config)
    f = v.fn(m, f)
    states = [v.st]
    for name in HISTORIES[h]:
        t.set(name)
        there, well = t.state
        after = []
        for s in states:
            for st, res in v.call(f, _st=s.copy()):
                if res[0] == 'return':
                    got = res[1]
                    v.ensure(st, 'a table there is', b_and(there, well))
                    if not isinstance(got, ObjV):
                        raise Unsupported('not the table itself')
                    v.ensure(st, 'the table of the file as it is now',
                             z3.eq(got.term, t.content(t.path).term))
                else:
                    v.ensure(st, 'it stops for a missing or ill-formed file '
                             'only', b_not(b_and(there, well)))
                after.append(st)
        states = after


@REG.task('the same table', [T + 'get_terrain_table',
                             S + 'get_shielding_table'])
def both(v):
    """terrain and shielding multipliers follow one table"""
    t = Table(v)
    got = []
    for m, f in (('terrain.terrain_mult', 'get_terrain_table'),
                 ('shielding.shield_mult', 'get_shielding_table')):
        v.setmod(m, 'config', t.config)
        got.append(v.fn(m, f))
    t.set('file')
    v.st.assume(b_and(*t.state))
    st, a = v.call1(got[0])
    v.st = st
    st, b = v.call1(got[1])
    if not (isinstance(a, ObjV) and isinstance(b, ObjV)):
        raise Unsupported('not the table itself')
    v.ensure(st, 'one table', z3.eq(a.term, b.term))
