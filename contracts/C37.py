"""C37: every process of a run keeps a log of its own, from the first message
on, in the configured file."""
from engine.vc import *
from engine.values import *
from contracts.gis import World, nat, noop
from contracts.C32 import Run, flat, A

REG = Registry('C37')
F = 'utilities/files.py:'
LEVELS = {'NOTSET': 0, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40,
          'CRITICAL': 50}
SAY = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'fatal',
       'exception', 'log')
# the folder of the log file, as this process finds it
FOLDER = ('is there', 'is missing', 'is made by another process',
          'cannot be made')


def text(p):
    if not isinstance(p, (str, SymStr)):
        raise Unsupported('a name')
    return p


def same(a, b, folder=None):
    x = str_eq(text(a), text(b))
    if x is None and folder is not None and folder.inside(
            a) != folder.inside(b):
        return False
    if x is None:
        raise Unsupported('a name')
    return x is True


class Folder(object):
    """the folder of the configured log file; FOLDER[...] is its case"""

    def __init__(self, v, file):
        self.v, ip = v, v.ip
        self.file, self.case = file, None
        self.real = SymStr([Atom('real_log_file', '')])
        self.dir = SymStr([Atom('log_folder', '')])
        self.cwd = SymStr([Atom('cwd', '')])
        self.made = v.st.new(InstRec(None, {'made': False}))
        osm = ip.libs['os'].attrs
        pth = osm['path'].attrs
        old = {n: pth.get(n) for n in ('dirname', 'isdir', 'exists', 'split')}

        def is_(a, b):
            return isinstance(a, (str, SymStr)) and str_eq(a, b) is True

        def real(ip, st, a, k):
            if is_(a[0], self.file):
                return self.real
            if is_(a[0], self.real) or is_(a[0], self.dir) or is_(
                    a[0], self.cwd):
                return a[0]
            if self.inside(a[0]):
                return a[0]
            return sstr('/', SymStr([Atom('place')]))
        for n in ('realpath', 'abspath'):
            pth[n] = nat(n, real)

        def dirname(ip, st, a, k):
            if is_(a[0], self.real):
                return self.dir
            if self.inside(a[0]):
                return self.cwd
            if is_(a[0], self.file):
                raise Unsupported('the folder of a name')
            return sstr('/', SymStr([Atom('d')]))
        pth['dirname'] = nat('dirname', dirname)

        def split(ip, st, a, k):
            if is_(a[0], self.file):
                return (SymStr([Atom('head')]), SymStr([Atom(
                    'file_name', '/')]))
            if is_(a[0], self.real):
                return (self.dir, SymStr([Atom('file_name', '/')]))
            return (sstr('/', SymStr([Atom('place')])), 'file')
        pth['split'] = nat('split', split)
        pth['basename'] = nat('basename', lambda ip, st, a, k: split(
            ip, st, a, k)[1])

        def isdir(ip, st, a, k):
            if is_(a[0], self.cwd):
                return True
            if not is_(a[0], self.dir):
                raise Unsupported('isdir')
            return self.there(st)
        pth['isdir'] = nat('isdir', isdir)
        pth['exists'] = nat('exists', isdir)

        def makedirs(ip, st, a, k):
            ok = k.get('exist_ok', a[2] if len(a) > 2 else False)
            if is_(a[0], self.cwd):
                if ok is not True:
                    ip.raise_unless(st, False, 'FileExistsError')
                return
            if not is_(a[0], self.dir) or not isinstance(ok, bool):
                raise Unsupported('makedirs')
            if self.case == 'cannot be made':
                ip.raise_unless(st, False, 'PermissionError')
            elif (self.there(st) or self.case ==
                    'is made by another process') and not ok:
                self.make(st)
                ip.raise_unless(st, False, 'FileExistsError')
            self.make(st)
        osm['makedirs'] = nat('makedirs', makedirs)
        osm['mkdir'] = nat('mkdir', lambda ip, st, a, k: unsupported())
        osm['getcwd'] = nat('getcwd', lambda ip, st, a, k: self.cwd)

    def inside(self, p):
        """a file of the folder the run is started in"""
        if not isinstance(p, SymStr) or not p.parts:
            return False
        return p.parts[0] is self.cwd.parts[0] and len(p.parts) > 1

    def there(self, st):
        return self.case == 'is there' or st.heap[
            self.made.id].attrs['made'] is True

    def make(self, st):
        st.heap[self.made.id] = InstRec(None, {'made': True})


def unsupported():
    raise Unsupported('mkdir')


class LogRun(Run):
    def prepare(self):
        v, ip = self.v, self.v.ip
        self.folder = Folder(v, self.value['LogFile'])
        lg = dict(ip.libs['logging'].attrs)

        def say(ip, st, a, k):
            self.log(st, 'message')
        for n in SAY:
            lg[n] = nat('logging.' + n, say)
        logger = NObj('logger', lambda n: nat(
            'logger.' + n, say) if n in SAY else nat(n, other))

        def other(ip, st, a, k):
            raise Unsupported('logging')
        lg['basicConfig'] = nat('basicConfig', other)
        lg['getLogger'] = nat('getLogger', lambda ip, st, a, k: logger)
        ip.libs['logging'] = ModuleVal('logging', None, lg)


@REG.task('run', [A + 'run'], params=[
    'default configuration', 'configuration file, verbose'])
def run(v, how):
    given = how.startswith('configuration file')
    R = LogRun(v, given, 'verbose' in how)
    ip = v.ip

    def start(ip, st, f, level, verbose=False, datestamp=False, newlog=True):
        R.log(st, 'start log', f, level, verbose, datestamp, newlog)
    ip.contracts[F + 'fl_start_log'] = Contract(start)
    f = v.fn('all_multipliers', 'run')
    rank = ip.call(ip.builtins['str'], [R.rank], {}, v.st)
    for case in FOLDER:
        R.folder.case = case
        for role in (eq(R.size, 1), b_and(gt(R.size, 1), eq(R.rank, 0)),
                     gt(R.rank, 0)):
            s = v.st.copy()
            s.assume(role)
            for st, o in v.call(f, _st=s):
                if o[0] == 'raise':
                    v.ensure(st, 'no error', False)
                    continue
                one(v, R, st, case, rank, 'verbose' in how)


def one(v, R, st, case, rank, verbose):
    ip = v.ip
    ev = flat(ip, st, st.heap[R.steps.id].segs)
    names = [e.name for e in ev]
    v.ensure(st, 'the log is opened once', names.count('start log') == 1)
    if names.count('start log') != 1:
        return
    at = names.index('start log')
    v.ensure(st, 'no message is lost before the log is opened',
             'message' not in names[:at])
    file, level, echo, stamp, new = ev[at].args
    file = sure(ip, st, file)
    base = sstr(R.folder.cwd, '/multipliers.log') if case == FOLDER[3] \
        else R.value['LogFile']
    worker = ip.feasible(st, gt(R.rank, 0))
    want = sstr(base, '_', rank) if worker else base
    v.ensure(st, 'the log file of this process, its folder ' + case,
             same(file, want, R.folder))
    v.ensure(st, 'the configured level', same(
        sure(ip, st, level), R.value['LogLevel']))
    v.ensure(st, 'a new log without a date', stamp is False and new is True)
    asked = True if verbose else z3.Bool('configured_verbose')
    echo = ip.truth(st, echo)
    v.ensure(st, 'only the first process talks', b_not(
        echo) if worker else b_iff(echo, asked))


def b_iff(a, b):
    return b_and(b_or(b_not(a), b), b_or(a, b_not(b)))


def sure(ip, st, p):
    while isinstance(p, Choice):
        can = ip.feasible(st, p.cond), ip.feasible(st, b_not(p.cond))
        if can[0] and can[1]:
            raise Unsupported('a name')
        p = p.a if can[0] else p.b
    return p


class Logging(object):
    """the logging module: the root logger, its level and its handlers"""

    def __init__(self, v):
        self.v, ip = v, v.ip
        new = v.st.new
        self.root = new(InstRec(None, {'level': 30}))
        self.handlers = new(SeqRec([]))
        self.tty = v.bool('terminal')
        self.open = {}
        at = {n: nat(n, self.say) for n in SAY}

        def get_logger(ip, st, a, k):
            if (a and a[0] not in (None, '', 'root')) or k:
                raise Unsupported('another logger')
            return self.logger
        rec = {'setLevel': nat('setLevel', lambda ip, st, a, k: self.put(
            st, self.root, 'level', self.level(a[0]))),
            'addHandler': nat('addHandler', self.add),
            'hasHandlers': nat('hasHandlers', lambda ip, st, a, k: bool(
                self.items(st)))}
        for n in SAY:
            rec[n] = at[n]

        def attr(n):
            if n == 'handlers':
                return self.handlers
            return rec.get(n)
        self.logger = NObj('root logger', attr)
        at.update(LEVELS)
        at.update(getLogger=nat('getLogger', get_logger),
                  basicConfig=nat('basicConfig', self.basic),
                  StreamHandler=nat('StreamHandler', lambda ip, st, a, k:
                                    self.handler(st, 'terminal', None, None)),
                  FileHandler=nat('FileHandler', self.file),
                  Formatter=nat('Formatter', lambda ip, st, a, k: (
                      'Formatter', a[0] if a else k.get('fmt'))))
        ip.libs['logging'] = ModuleVal('logging', None, at)
        ip.libs['sys'].attrs.update(
            stdout=NObj('stdout', {'isatty': nat(
                'isatty', lambda ip, st, a, k: self.tty)}.get),
            argv=v.list([SymStr([Atom('program')])]))
        ip.libs['os'].attrs['getpid'] = nat(
            'getpid', lambda ip, st, a, k: v.int('pid', 1))
        v.trust('logging: a handler of the root logger records the messages '
                'of the level of the root logger, and of its own level, or '
                'higher; basicConfig does nothing where there are handlers')

    def put(self, st, ref, name, value):
        r = st.heap[ref.id]
        st.heap[ref.id] = InstRec(r.cls, dict(r.attrs, **{name: value}))

    def level(self, x):
        if isinstance(x, str):
            x = LEVELS.get(x)
        if isinstance(x, bool) or not isinstance(x, int):
            raise Unsupported('a level')
        return x

    def items(self, st):
        x = st.heap[self.handlers.id].concrete()
        if x is None:
            raise Unsupported('handlers')
        return list(x)

    def handler(self, st, kind, file, mode, level=0, fmt='%(message)s'):
        ref = st.new(InstRec(None, {
            'kind': kind, 'file': file, 'mode': mode, 'level': level,
            'fmt': fmt}))

        def formatter(ip, st, a, k):
            if not (isinstance(a[0], tuple) and a[0][0] == 'Formatter'):
                raise Unsupported('formatter')
            self.put(st, ref, 'fmt', a[0][1])
        o = NObj('handler', {
            'setLevel': nat('setLevel', lambda ip, st, a, k: self.put(
                st, ref, 'level', self.level(a[0]))),
            'setFormatter': nat('setFormatter', formatter)}.get)
        o.ref = ref
        return o

    def file(self, ip, st, a, k):
        if set(k) - {'mode', 'encoding'} or len(a) not in (1, 2):
            raise Unsupported('FileHandler')
        return self.handler(st, 'file', a[0], k.get(
            'mode', a[1] if len(a) > 1 else 'a'))

    def add(self, ip, st, a, k):
        if not hasattr(a[0], 'ref'):
            raise Unsupported('handler')
        st.heap[self.handlers.id] = st.heap[self.handlers.id].append(a[0])

    def basic(self, ip, st, a, k):
        if a or set(k) - {'level', 'format', 'datefmt', 'filename',
                          'filemode', 'encoding'}:
            raise Unsupported('basicConfig')
        if self.items(st):
            return
        f = k.get('filename')
        h = self.handler(st, 'terminal' if f is None else 'file', f, k.get(
            'filemode', 'a'), fmt=k.get('format', '%(message)s'))
        self.add(ip, st, [h], {})
        if 'level' in k:
            self.put(st, self.root, 'level', self.level(k['level']))

    def say(self, ip, st, a, k):
        # the module function opens the terminal where nothing is open yet
        ip.obl(st, 'a message before the log is opened', bool(
            self.items(st)))


@REG.task('fl_start_log', [F + 'fl_start_log'], timeout=300,
          params=['%s, %s' % (n, m) for n in LEVELS for m in (
              'new', 'continued')])
def start(v, how):
    name, mode = how.split(', ')
    W = World(v)
    W.install()
    L = Logging(v)
    ip = v.ip
    file = SymStr([Atom('log_file', '')])
    D = Folder(v, file)
    ip.contracts[F + 'fl_program_version'] = Contract(
        lambda ip, st, level=None: SymStr([Atom('version')]))
    f = v.fn('utilities.files', 'fl_start_log')
    kw = {} if mode == 'new' else {'newlog': False}
    n = v.int('message_level', 0)
    for case in FOLDER:
        D.case = case
        for verbose in (False, True):
            for tty in (False, True):
                s = v.st.copy()
                s.assume(L.tty if tty else b_not(L.tty))
                for st, o in v.call(f, file, name, verbose, _st=s, **kw):
                    if o[0] == 'raise':
                        v.ensure(st, 'no error', False)
                        continue
                    opened(v, L, D, st, file, name, mode, verbose and tty,
                           n)


def opened(v, L, D, st, file, name, mode, echo, n):
    ip = v.ip
    hs = [st.heap[h.ref.id].attrs for h in L.items(st)]
    root = st.heap[L.root.id].attrs['level']
    files = [h for h in hs if h['kind'] == 'file']
    v.ensure(st, 'one file', len(files) == 1)
    v.ensure(st, 'the terminal, if asked and there is one', len(
        hs) - len(files) == int(echo))
    for h in hs:
        v.ensure(st, 'the messages of this level and higher, only', b_iff(
            b_and(ge(n, root), ge(n, h['level'])), ge(n, LEVELS[name])))
        v.ensure(st, 'with their text', isinstance(h['fmt'], str) and
                 '%(message)s' in h['fmt'])
    for h in files:
        p = sure(ip, st, h['file'])
        if D.case == FOLDER[3]:
            v.ensure(st, 'the folder the program is started in', same(
                p, sstr(D.cwd, '/', SymStr([Atom('file_name', '/')])), D))
        else:
            v.ensure(st, 'the given file, its folder ' + D.case, same(
                p, file, D))
        v.ensure(st, 'a new file, unless continued', h['mode'] in (
            ('w', 'wt') if mode == 'new' else ('a', 'at')))
    if D.case != FOLDER[3]:
        v.ensure(st, 'the folder is there', D.there(st))
