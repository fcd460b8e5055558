"""Contracts of the external objects the repository's code handles.

They are assumed (named in the evidence), never proved."""
from engine.vc import *
from engine.values import *
from engine.terms import *


def record(name, fields):
    """read-only mapping with the given entries"""
    def item(ip, st, args, kw):
        k = args[-1]
        if isinstance(k, str) and k in fields:
            return fields[k]
        raise Unsupported('entry %r of %s' % (k, name))
    return NObj(name, lambda a: Bound(Native(name + '[]', item), None)
                if a == '__getitem__' else
                (fields[a] if a in fields else None))


def table(n, columns):
    """a pandas DataFrame of n rows; columns: name -> function(row)"""
    def row(k):
        return record('row', {c: f(k) for c, f in columns.items()})

    def col(c):
        return ('col', c)

    def iterrows(ip, st, args, kw):
        ip.assumed.add('pandas DataFrame.iterrows yields every row once, in '
                       'order')
        return SymIter(n, lambda k: (k, row(k)))

    def itertuples(ip, st, args, kw):
        raise Unsupported('itertuples')

    def getitem(ip, st, args, kw):
        c = args[-1]
        if c not in columns:
            raise Unsupported('column %r' % (c,))
        ip.assumed.add('pandas DataFrame[column] holds the column in row '
                       'order')
        return st.new(ArrRec((n,), 'f', lambda ix: columns[c](ix[0])))

    def attr(a):
        if a == 'iterrows':
            return Bound(Native('DataFrame.iterrows', iterrows), None)
        if a == '__getitem__':
            return Bound(Native('DataFrame[]', getitem), None)
        if a == 'index':
            return RangeV(0, n, 1)
        return None
    return NObj('DataFrame', attr)
