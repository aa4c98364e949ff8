"""G01 G02 G03 G04 G05 G09 G17 G18: what the grid, sounding and surface writers put into files
and what the readers return for those files (specification DMSession)."""
import json

import numpy as np

from . import gemsess as gs
from .gemsess import Session

KINDS = {'G01': ['grid'], 'G02': ['sounding'], 'G03': ['surface'], 'G09': ['grid']}
JUDGE = dict(module='DMSessionTrace', cfg='DMTrace.cfg')


def extra_params(rng):
    """Further parameters, up to the 44 a part may have (the list then fills two blocks)."""
    return [f'Z{q:03d}' for q in range(rng.choice([22, 24, 26, 30, 34]))]


def r_params(rng, kind):
    if kind == 'grid':
        return []
    if kind == 'sounding':
        base = rng.sample(gs.SNPARMS, rng.randrange(2, len(gs.SNPARMS) + 1))
        if rng.random() < .08:
            base += extra_params(rng)
        if 'PRES' not in base and 'HGHT' not in base:
            base[0] = rng.choice(['PRES', 'HGHT'])
    else:
        base = rng.sample(gs.SFPARMS, rng.randrange(1, len(gs.SFPARMS) + 1))
        if rng.random() < .08:
            base += extra_params(rng)
    return [p if rng.random() < .8 else p.lower() for p in base]


class Maker:
    """Random objects and adds of one kind within a session."""

    def __init__(self, rng, kind, small=True):
        self.rng, self.kind = rng, kind
        self.params = r_params(rng, kind)
        self.nx, self.ny = rng.choice([(3, 2), (2, 2), (1, 4), (4, 1), (5, 3), (7, 2), (1, 1)])
        self.prec = rng.choice([16, 16, 12, 8, 24, 5, 3, 2, 31, 20, rng.randrange(2, 32)])
        if small and self.prec > 24:
            self.prec = rng.choice([24, 31, 30])
        self.e = rng.choice([0, 0, -1, -3, 2, rng.choice([-20, -45, -70])])
        self.pname = rng.choice(['eqc', 'lcc', 'stere'])
        self.keys = []

    def new(self, s, mutate=False):
        if self.kind == 'grid':
            return s.new('grid', [], self.nx, self.ny, self.prec, self.e, self.pname,
                         mutate=mutate)
        return s.new(self.kind, self.params, mutate=mutate)

    def gen(self, key=None, **kw):
        if self.kind == 'grid':
            x = gs.gen_grid(self.rng, self.nx, self.ny, self.e, key, prec=self.prec, **kw)
            self.keys.append(x['key'])
            return x
        x = gs.gen_station(self.rng, self.kind, self.params, key, **kw)
        self.keys.append(x['key'])
        return x

    def near_key(self):
        """An identity differing from an existing one in exactly one component."""
        k = dict(self.rng.choice(self.keys))
        rng = self.rng
        if self.kind == 'grid':
            c = rng.randrange(5)
            if c == 0:
                k['l1'] = k['l1'] + 1
            elif c == 1:
                k['l2'] = (k.get('l2') or 0) + 7
            elif c == 2:
                k['vc'] = rng.choice([v for v in gs.VCS if v != k['vc']])
            elif c == 3:
                k['name'] = rng.choice([v for v in gs.GDPARMS if v != k['name']])
            else:
                k['t1'], k['when1'] = gs.r_gtime(rng, gs.r_time(rng), k['t1']['ty'])
        else:
            k['info'] = dict(k['info'] or {})
            c = rng.randrange(8)
            if c == 0:
                k['t'] = gs.r_time(rng)
            elif c == 6:
                # the same report as far as the file can tell
                k['sec'] = gs.r_sec(rng)
            elif c == 7:
                q = rng.choice(['lat', 'lon'])
                k[q] = round(k[q], 2) + rng.choice([.003, -.003, .0])
            elif c == 1:
                k['info']['station_number'] = rng.randrange(100, 999)
            elif c == 2:
                k['info']['elevation'] = rng.randrange(100, 999)
            elif c == 3:
                k['lat'] = round(rng.uniform(-80, 80), 2)
            elif c == 4:
                k['info']['station_id'] = f'Q{rng.randrange(1000)}'
            else:
                k['lon'] = round(rng.uniform(-80, 80), 2)
        return k

    def add(self, s, o, x, mutate=False):
        return (s.add_grid if self.kind == 'grid' else s.add_station)(o, x, mutate)


def random_session(ctx, kind, nadd, hist=0, hp='', mutate=False, bad=0.0, big=False):
    rng = ctx.rng
    s = Session(ctx, tag=f'random-{kind}', hist=hist, hp=hp)
    m = Maker(rng, kind)
    o = m.new(s, mutate)
    if s.dead:
        return s.ev
    for _ in range(nadd):
        c = rng.random()
        key = None
        if m.keys and c < .2:
            key = rng.choice(m.keys)
        elif m.keys and c < .45:
            key = m.near_key()
        if rng.random() < bad:
            one_bad(s, m, o)
        m.add(s, o, m.gen(key), mutate)
        if rng.random() < .15:
            s.write(o)
            s.read(o)
    if rng.random() < bad:
        one_bad(s, m, o)
    s.write(o, as_path=True)
    s.read(o)
    return s.ev


def one_bad(s, m, o, which=None):
    bads = gs.bad_adds(m.rng, m.kind, [p.upper() for p in m.params], m.nx, m.ny)
    r, args, kw = bads[which % len(bads)] if which is not None else m.rng.choice(bads)
    s.add_bad(o, r, args, kw)


def matrix_session(ctx, kind, nt, ns, keep):
    """A times x stations matrix with holes (sounding/surface)."""
    rng = ctx.rng
    s = Session(ctx, tag=f'matrix-{kind}')
    m = Maker(rng, kind)
    o = m.new(s)
    if s.dead:
        return s.ev
    cols = [m.gen()['key'] for _ in range(ns)]
    times = []
    while len(times) < nt:
        t = gs.r_time(rng)
        if t not in times:
            times.append(t)
    cells = [(i, j) for i in range(nt) for j in range(ns) if rng.random() < keep]
    rng.shuffle(cells)
    for i, j in cells or [(0, 0)]:
        k = dict(cols[j])
        k['t'] = times[i]
        m.add(s, o, m.gen(k))
    s.write(o)
    s.read(o)
    return s.ev


def g04_session(ctx, kind):
    """Same contents, different orders, overwritten keys, repeated writes."""
    rng = ctx.rng
    s = Session(ctx, tag=f'order-{kind}', hist=1, hp='G04')
    m = Maker(rng, kind)
    o = m.new(s)
    n = rng.randrange(2, 6)
    xs = []
    for _ in range(n):
        x = m.gen(m.near_key() if m.keys and rng.random() < .5 else None)
        if any(same_key(kind, x['key'], y['key']) for y in xs):
            continue
        xs.append(x)
    if s.dead:
        return s.ev
    olds = [m.gen(x['key']) for x in xs]
    for x in xs:
        m.add(s, o, x)
    s.write(o)
    s.write(o)
    s.read(o)
    # another object: shuffled, with earlier data overwritten and writes in between
    o2 = m.new(s)
    seq = [('old', y) for y in olds if rng.random() < .6]
    rng.shuffle(seq)
    ys = [('new', x) for x in xs]
    rng.shuffle(ys)
    for kind_, y in seq:
        m.add(s, o2, y)
        if rng.random() < .3:
            s.write(o2)
    for kind_, y in ys:
        m.add(s, o2, y)
        if rng.random() < .3:
            s.write(o2)
    s.write(o2)
    s.read(o2)
    # growing the first object after it was written
    z = m.gen()
    m.add(s, o, z)
    s.write(o)
    o3 = m.new(s)
    for _, y in [('new', z), *ys]:
        m.add(s, o3, y)
    s.write(o3)
    s.write(o)
    s.read(o)
    return s.ev


def same_key(kind, a, b):
    def ident(k):
        if kind == 'grid':
            return repr([k[q] for q in ('t1', 'l1', 'name', 'vc')] + [k.get('l2'), k.get('t2')])
        return repr([k['t'], k['lat'], k['lon'], k['info']])
    return ident(a) == ident(b)


def replay_history(ctx, kind, hist, variant):
    """Replay a history enumerated by TLC from MCWriter."""
    rng = ctx.rng
    s = Session(ctx, tag=f'history-{kind}', hist=1, hp=ctx.pid)
    m = variant
    o = m.new(s, ctx.pid == 'G17')
    if s.dead:
        return s.ev
    for p in hist:
        if p['op'] == 'add':
            m.add(s, o, m.gen(m.base[p['k'] - 1]), ctx.pid == 'G17')
        elif p['op'] == 'bad':
            one_bad(s, m, o)
        else:
            s.write(o)
            s.read(o, lookups=0)
    if not hist or hist[-1]['op'] != 'write':
        s.write(o)
        s.read(o)
    _ = rng
    return s.ev


def variant(ctx, kind):
    """Three keys: 1 and 2 share one axis (time or station), 3 shares none."""
    m = Maker(ctx.rng, kind)
    a, b, c = m.gen()['key'], m.gen()['key'], m.gen()['key']
    if kind != 'grid':
        b = dict(b)
        b['t'] = a['t']
        if ctx.rng.random() < .5:
            c = dict(a)
            c['t'] = gs.r_time(ctx.rng)
    m.base = [a, b, c]
    return m


def histories(ctx, kinds):
    out = {}
    for kind in kinds:
        f = ctx.tmp(f'hist-{kind}.ndjson')
        ctx.model('MCWriter', f'MCWriter_{kind}.cfg', env={'OUT': str(f)})
        out[kind] = [json.loads(q) for q in f.read_text().splitlines() if q.strip()]
    return out


def grib_sessions(ctx, count):
    """Grids across precisions and shapes (packing)."""
    rng = ctx.rng
    ss = []
    for i in range(count):
        s = Session(ctx, tag='grib')
        m = Maker(rng, 'grid')
        m.prec = 2 + i % 30
        if i % 31 == 30:
            m.prec = 1
        m.nx, m.ny = rng.choice([(1, 1), (2, 3), (8, 4), (16, 2), (33, 1), (5, 7), (32, 2),
                                 (1, 9), (11, 6)])
        o = m.new(s)
        if s.dead:
            ss.append(s.ev)
            continue
        for style in rng.sample(['plain', 'miss', 'const', 'constmiss', 'allmiss', 'neg',
                                 'plain', 'miss', 'full', 'full'], 3):
            # one bit leaves no room for values next to the missing code
            if m.prec == 1 and style not in ('const', 'allmiss'):
                continue
            m.add(s, o, m.gen(style=style))
        s.write(o)
        s.read(o)
        ss.append(s.ev)
    return ss


def limits_sessions(ctx, kind):
    """Large cases: many levels, many stations, big grids, more than a block of headers."""
    rng = ctx.rng
    ss = []
    if kind == 'sounding':
        for n in (499, 60):
            s = Session(ctx, tag='levels')
            m = Maker(rng, kind)
            m.params = ['PRES', 'TEMP']
            o = m.new(s)
            if not s.dead:
                m.add(s, o, m.gen(nlev=n))
                m.add(s, o, m.gen(nlev=3))
                s.write(o)
                s.read(o)
            ss.append(s.ev)
    if kind == 'grid':
        s = Session(ctx, tag='manygrids')
        m = Maker(rng, kind)
        m.nx, m.ny = 3, 2
        o = m.new(s)
        if not s.dead:
            base = m.gen()['key']
            for q in range(40):
                k = dict(base)
                k['l1'] = 10 * q
                m.add(s, o, m.gen(k))
            s.write(o)
            s.read(o)
        ss.append(s.ev)
        s = Session(ctx, tag='biggrid')
        m = Maker(rng, kind)
        m.nx, m.ny = 40, 30
        o = m.new(s)
        if not s.dead:
            m.add(s, o, m.gen(style='miss'))
            m.add(s, o, m.gen(style='plain'))
            s.write(o)
            s.read(o)
        ss.append(s.ev)
    else:
        ss.append(matrix_session(ctx, kind, 14, 16, .25))
    return ss


class Capacity:
    """The number of headers a file may have, lowered where the limit is a module constant."""

    def __init__(self):
        from gempakio import common
        from gempakio.encode import gempak
        self.old = [(m, m.MMHDRS) for m in (gempak, common) if hasattr(m, 'MMHDRS')]

    def set(self, n):
        for m, _ in self.old:
            m.MMHDRS = n

    def restore(self):
        for m, n in self.old:
            m.MMHDRS = n

    def works(self, ctx, kind):
        """Whether objects follow the lowered limit: no room means nothing can be added."""
        s = Session(ctx)
        m = Maker(ctx.rng, kind)
        o = m.new(s)
        if s.dead:
            return False
        self.set(0)
        try:
            return m.add(s, o, m.gen()) != 'ok'
        finally:
            self.restore()


def capacity_sessions(ctx, kinds):
    """Objects filled up to the number of headers a file may have, and beyond."""
    rng, ss, cap = ctx.rng, [], Capacity()
    for kind in kinds:
        if not cap.works(ctx, kind):
            continue
        s = Session(ctx, tag=f'capacity-{kind}', hist=1, hp=ctx.pid)
        m = Maker(rng, kind)
        o = m.new(s)
        if s.dead:
            ss.append(s.ev)
            continue
        ks = [m.gen()['key'] for _ in range(4)]
        if kind != 'grid':
            # every time at every station
            ks = [dict(k, t=q['t'], sec=q['sec']) for k in ks for q in ks]
        s.cap = rng.randrange(2, 9)
        cap.set(s.cap)
        try:
            for _ in range(rng.randrange(6, 14)):
                m.add(s, o, m.gen(rng.choice(ks) if rng.random() < .8 else None))
        finally:
            cap.restore()
        s.cap = 0
        m.add(s, o, m.gen())
        s.write(o)
        s.read(o)
        ss.append(s.ev)
    return ss


def run(ctx):
    pid, rng = ctx.pid, ctx.rng
    kinds = KINDS.get(pid, ['grid', 'sounding', 'surface'])
    hists = histories(ctx, kinds)
    ss = []
    if pid in ('G01', 'G02', 'G03', 'G05'):
        per = ctx.n(60 if pid == 'G05' else 150, 500 if pid == 'G05' else 1200)
        for kind in kinds:
            hs = hists[kind]
            hs = hs if ctx.thorough() else rng.sample(hs, 60)
            var = [variant(ctx, kind) for _ in range(12)]
            ss += [replay_history(ctx, kind, h, rng.choice(var)) for h in hs]
            for i in range(per):
                if kind != 'grid' and i % 3 == 0:
                    ss.append(matrix_session(ctx, kind, rng.randrange(1, 5),
                                             rng.randrange(1, 6), rng.choice([.3, .6, 1])))
                else:
                    ss.append(random_session(ctx, kind, rng.randrange(1, 8)))
            if kind == 'grid':
                ss += grib_sessions(ctx, ctx.n(31, 310))
            ss += limits_sessions(ctx, kind)
    elif pid == 'G09':
        ss += grib_sessions(ctx, ctx.n(155, 1550))
        ss += limits_sessions(ctx, 'grid')
    elif pid == 'G04':
        for kind in kinds:
            ss += [g04_session(ctx, kind) for _ in range(ctx.n(40, 400))]
            hs = hists[kind] if ctx.thorough() else rng.sample(hists[kind], 60)
            var = [variant(ctx, kind) for _ in range(8)]
            ss += [replay_history(ctx, kind, h, rng.choice(var)) for h in hs]
    elif pid == 'G17':
        for kind in kinds:
            hs = hists[kind] if ctx.thorough() else rng.sample(hists[kind], 50)
            var = [variant(ctx, kind) for _ in range(12)]
            ss += [replay_history(ctx, kind, h, rng.choice(var)) for h in hs]
            ss += [random_session(ctx, kind, rng.randrange(1, 6), 1, pid, mutate=True)
                   for _ in range(ctx.n(80, 800))]
    elif pid == 'G18':
        for kind in kinds:
            hs = [h for h in hists[kind] if any(p['op'] == 'bad' for p in h)]
            hs = hs if ctx.thorough() else rng.sample(hs, 50)
            var = [variant(ctx, kind) for _ in range(12)]
            ss += [replay_history(ctx, kind, h, rng.choice(var)) for h in hs]
            nbad = len(gs.bad_adds(rng, kind, ['PRES', 'TEMP'], 3, 2))
            for w in range(nbad * ctx.n(2, 12)):
                s = Session(ctx, tag=f'bad-{kind}', hist=1, hp=pid)
                m = Maker(rng, kind)
                o = m.new(s)
                if s.dead:
                    continue
                if w % 3:
                    m.add(s, o, m.gen())
                one_bad(s, m, o, w)
                m.add(s, o, m.gen())
                if w % 2:
                    one_bad(s, m, o, w)
                s.write(o)
                s.read(o)
                ss.append(s.ev)
        for _ in range(ctx.n(3, 20)):
            ss += capacity_sessions(ctx, kinds)
    ctx.notes['kinds'] = kinds
    ctx.judge(JUDGE['module'], ss, cfg=JUDGE['cfg'])
    _ = np
