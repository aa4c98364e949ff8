"""T02: OrderedSet behaves like the sequences of distinct elements of OrdSet.tla."""
from fractions import Fraction
import itertools
import json
import operator

from .lib import call

NAMES = 'ABC'
IN = {'ior': operator.ior, 'iand': operator.iand, 'isub': operator.isub, 'ixor': operator.ixor}
BIN = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub, 'xor': operator.xor}
CMP = {'le': operator.le, 'lt': operator.lt, 'ge': operator.ge, 'gt': operator.gt}


def forms(rng):
    """Python values for the elements of the model: each element in several equal forms."""
    which = rng.randrange(4)
    if which == 0:
        return lambda i: rng.choice([int, float, Fraction])(i)
    if which == 1:
        return lambda i: f'K{i:03d}'
    if which == 2:
        return lambda i: (rng.choice([int, float])(20240305 + i), (1000, -i), 'TMPK')
    return lambda i: None if i == 1 else (frozenset([i]) if i == 2 else -i)


class Runner:
    def __init__(self, rng):
        from gempakio.tools import OrderedSet
        self.rng, self.cls = rng, OrderedSet
        self.form = forms(rng)
        self.back = {self.form(i): i for i in range(8)}
        self.sets = {n: OrderedSet() for n in NAMES}

    def ints(self, it):
        return [self.back[x] for x in it]

    def operand(self, o):
        """(python operand, elements in order)"""
        if o['n']:
            return self.sets[o['n']], list(self.sets[o['n']])
        vals = [self.form(i) for i in o['q']]
        k = o.get('as', 'list')
        v = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
             'keys': lambda x: dict.fromkeys(x).keys(), 'iter': iter,
             'ord': self.cls}[k](vals)
        return v, (vals if k == 'iter' else list(v))

    def apply(self, o, v):
        op, n = o['op'], o['s']
        s = self.sets[n]
        if op == 'new':
            self.sets[n] = self.cls(v) if o['els'] or self.rng.random() < .5 else self.cls()
            return []
        if op in ('add', 'discard', 'remove'):
            getattr(s, op)(self.form(o['x']))
            return []
        if op == 'pop':
            return self.ints([s.pop()])
        if op == 'clear':
            s.clear()
            return []
        if op == 'contains':
            return [int(self.form(o['x']) in s)]
        if op in IN:
            r = IN[op](s, v)
            self.sets[n] = r
            assert r is s and isinstance(r, self.cls)
            return []
        if op in ('eq', 'ne'):
            r = (s == v) if op == 'eq' else (s != v)
            return [int(r)]
        if op in CMP:
            return [int(CMP[op](s, v))]
        if op == 'isdisjoint':
            return [int(s.isdisjoint(v))]
        rev = op.startswith('r')
        f = BIN[op[1:] if rev else op]
        r = f(v, s) if rev else f(s, v)
        assert isinstance(r, self.cls) or o['k'] != 'ord'
        out = self.ints(r)
        if isinstance(r, self.cls):     # a new set: changing it changes no other
            r.add(self.form(7))
        return out

    def event(self, o):
        v, els = self.operand(o['w'])
        els = self.ints(els)
        k = 'ord' if isinstance(v, self.cls) else 'seq'
        e = {'op': o['op'], 's': o['s'], 'x': o['x'], 'o': els, 'k': k}
        out, r = call(self.apply, {**o, 'k': k, 'els': els}, v)
        e |= {'out': 'ok' if out == 'ok' else 'err', 'r': r if out == 'ok' else [],
              'after': {n: self.ints(s) for n, s in self.sets.items()},
              'size': [len(self.sets[n]) for n in NAMES], 'tag': ''}
        if out != 'ok':
            e['why'] = repr(r)[:100]
        return e


ANY = ('ior', 'iand', 'isub', 'ixor', 'eq', 'ne', 'or', 'and', 'sub', 'xor', 'isdisjoint', 'new')
SETS = ('ror', 'rand', 'rsub', 'rxor', 'le', 'lt', 'ge', 'gt')


def op(name, s, x=0, n='', q=(), as_='list'):
    return {'op': name, 's': s, 'x': x, 'w': {'n': n, 'q': list(q), 'as': as_}}


def random_op(rng, r):
    s = rng.choice(NAMES)
    k = rng.choice(['add'] * 6 + ['discard', 'remove', 'pop', 'contains'] * 2 + ['clear', 'new', 'eq', 'eq', 'ne']
                   + list(ANY) * 2 + list(SETS))
    if k in ('add', 'discard', 'remove', 'contains'):
        return op(k, s, x=rng.randrange(6))
    if k in ('pop', 'clear'):
        return op(k, s)
    n = rng.choice(['', '', '', 'A', 'B', 'C', s])
    if n:
        return op(k, s, n=n)
    q = [rng.randrange(6) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
    kinds = ['set', 'frozenset', 'keys', 'ord']
    if k in ('eq', 'ne', 'le', 'lt', 'ge', 'gt', 'iand') and not n:
        q = r.ints(r.sets[s])   # the same elements, in this or another order, or nearly so
        if rng.random() < .6:
            rng.shuffle(q)
        if q and rng.random() < .3:
            q.pop()
        kinds += ['ord'] * 6
    if k in ANY:
        kinds += ['list', 'tuple'] * 2
    if k in ('new', 'or', 'ior', 'sub', 'and', 'isub', 'ixor'):
        kinds.append('iter')
    return op(k, s, q=q, as_=rng.choice(kinds))


def run(ctx):
    rng = ctx.rng
    out = ctx.tmp('ops.json')
    ctx.model('MCOrdSet', cfg=ctx.n('MCOrdSet3.cfg', 'MCOrdSet4.cfg'), env={'OUT': str(out)})
    ops = json.loads(out.read_text())

    def put(o, s):
        w = dict(o['w'])
        if o['op'] in SETS and not w['n']:
            w['as'] = 'set'
        return {'op': o['op'], 's': s, 'x': o['x'], 'w': w}
    pairs = list(itertools.product(ops, 'AB', ops, 'AB'))
    if not ctx.thorough():
        pairs = rng.sample(pairs, 2500)
    ses = []
    for o1, n1, o2, n2 in pairs:
        r = Runner(rng)
        ses.append([r.event(op('new', 'A', q=[2, 1])), r.event(put(o1, n1)),
                    r.event(put(o2, n2))])
    for _ in range(ctx.n(300, 3000)):
        r = Runner(rng)
        full = [r.event(op('new', n, q=rng.sample(range(6), rng.randint(2, 6))))
                for n in NAMES if rng.random() < .8]
        ses.append(full + [r.event(random_op(rng, r)) for _ in range(rng.choice([5, 15, 30]))])
    ctx.judge('OrdSetTrace', ses, cfg='OrdSetTrace.cfg')
