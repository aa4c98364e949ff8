"""V01 V04: VGF elements are made, changed and written; histories are judged by VGWriteTrace.
G19 (VGF part) is in failwrite.py."""
import json

import numpy as np

from .lib import call, codes
from .vgread import attrs

COMMON = ['closed', 'filled', 'smooth', 'group_type', 'group_number', 'major_color',
          'minor_color']
OWN = {
    'line': ['width', 'line_type'],
    'spline': ['width', 'line_type', 'size', 'direction'],
    'front': ['width', 'front_code', 'pip_size', 'pip_stroke', 'pip_direction'],
    'sptext': ['size', 'font', 'width', 'align', 'rotation', 'offset_x', 'offset_y', 'text_flag',
               'text_color', 'text_type', 'edgecolor', 'facecolor', 'turbulence_symbol'],
    'symbol': ['width', 'size', 'symbol_code', 'offset_x', 'offset_y'],
    'marker': ['width', 'size', 'symbol_code', 'offset_x', 'offset_y'],
}
KINDS = list(OWN)
CLASS = {'line': 'Line', 'spline': 'SpecialLine', 'front': 'Front', 'sptext': 'SpecialText',
         'symbol': 'SpecialSymbol', 'marker': 'Marker'}
REQUIRED = {'line': ['color', 'line_type', 'closed'], 'spline': ['color', 'line_type', 'closed'],
            'front': ['front_code', 'major_color'], 'sptext': ['text_color'],
            'symbol': ['symbol_code', 'color'], 'marker': ['symbol_code', 'color']}
OPTIONAL = {
    'line': ['filled', 'smooth', 'width'],
    'spline': ['filled', 'stroke', 'width', 'smooth', 'size', 'direction'],
    'front': ['minor_color', 'smooth', 'pip_size', 'pip_stroke', 'pip_direction'],
    'sptext': ['size', 'text_type', 'font', 'align', 'edgecolor', 'facecolor', 'rotation',
               'offset_x', 'offset_y', 'turbulence_symbol'],
    'symbol': ['width', 'size', 'offset_x', 'offset_y'],
    'marker': ['width', 'size', 'offset_x', 'offset_y'],
}
POSITIONAL = {
    'line': ['color', 'line_type', 'closed', 'filled', 'smooth', 'width'],
    'spline': ['color', 'line_type', 'closed', 'filled', 'stroke', 'width', 'smooth', 'size',
               'direction'],
    'front': ['front_code', 'major_color', 'minor_color', 'smooth', 'pip_size', 'pip_stroke',
              'pip_direction'],
    'sptext': ['text_color', 'size', 'text_type', 'font', 'align', 'edgecolor', 'facecolor',
               'rotation', 'offset_x', 'offset_y', 'turbulence_symbol'],
    'symbol': ['symbol_code', 'color', 'width', 'size', 'offset_x', 'offset_y'],
    'marker': ['symbol_code', 'color', 'width', 'size', 'offset_x', 'offset_y'],
}
# where the interesting values of an attribute are: (low, high) of what is sensible
DOMAIN = {
    'closed': (0, 1), 'filled': (0, 8), 'smooth': (0, 2), 'group_type': (0, 255),
    'group_number': (0, 2 ** 31 - 1), 'major_color': (0, 32), 'minor_color': (0, 32),
    'color': (0, 32), 'text_color': (0, 32), 'edgecolor': (0, 32), 'facecolor': (0, 32),
    'width': (1, 10), 'direction': (-1, 1), 'stroke': (25, 75), 'front_code': (0, 999),
    'pip_size': (40, 500), 'pip_stroke': (1, 2 ** 31 - 1), 'pip_direction': (-1, 1),
    'align': (-1, 1), 'text_flag': (1, 2), 'text_type': (0, 16),
    'offset_x': (-2 ** 31 + 1, 2 ** 31 - 1), 'offset_y': (-2 ** 31 + 1, 2 ** 31 - 1),
}
# of a kind of element, and of its place: not to be set
FIXED = ['delete', 'vg_type', 'vg_class', 'min_lat', 'min_lon', 'max_lat', 'max_lon']
POINTS = [10, 12, 14, 18, 24, 34]
FONTS = [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]


def domain(kind, a):
    if a == 'width' and kind == 'front':
        return 1, 8
    if a == 'line_type':
        return (0, 99) if kind == 'line' else (1, 26)
    if a == 'symbol_code':
        return (0, 41) if kind == 'symbol' else (1, 24)
    return DOMAIN[a]


def thousandths(kind, a):
    return a == 'rotation' or (a == 'size' and kind != 'sptext')


def whole(x, scale):
    try:
        v = x * scale if isinstance(x, (int, np.integer)) else float(x) * scale
        r = round(v)
        if abs(v - r) > 1e-6 * max(1, abs(v)) or abs(r) >= 2 ** 31:
            return -77777777
        return int(r)
    except Exception:   # noqa: BLE001
        return -77777777


def value(v):
    """Python object for a value of the specification."""
    t, x = v['t'], v['v']
    if t == 'i':
        return x
    if t == 'ni':
        return np.int64(x)
    if t == 'f':
        return x / 1000
    if t == 'n':
        return None
    if t == 'nan':
        return float('nan')
    if t == 'inf':
        return float('inf') * (x or 1)
    if t == 'big':
        return x * 2 ** 31 * 5 + 1
    return '3'


def num(v, t='i'):
    return {'t': t, 'v': v}


def untied(v):
    return v + 1 if v % 100 == 50 else v


def good(rng, kind, a, ctx):
    if a == 'size' and kind == 'sptext':
        return num(rng.choice(POINTS))
    if a == 'size':
        return rng.choice([num(untied(rng.randint(100, 10000)), 'f'), num(rng.randint(1, 10)),
                           num(rng.choice([100, 10000, 500, 9999]), 'f')])
    if a == 'rotation':
        return rng.choice([num(rng.randint(-360, 360)), num(untied(rng.randint(-360000, 360000)), 'f')])
    if a == 'font':
        return num(rng.choice(FONTS))
    if a == 'turbulence_symbol':
        return num(rng.randint(0, 8 if ctx.get('text_type') in (7, 9) else 10))
    if a in ('direction', 'pip_direction'):
        return num(rng.choice([-1, 1]))
    lo, hi = domain(kind, a)
    if a in ('offset_x', 'offset_y') and rng.random() < .8:
        return num(rng.randint(-20, 20))
    return num(rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 40))]))


def any_value(rng, kind, a, ctx):
    """A value that may or may not be acceptable."""
    r = rng.random()
    if r < .45:
        return good(rng, kind, a, ctx)
    if r < .55:
        return rng.choice([num(0, 'nan'), num(1, 'inf'), num(-1, 'inf'), num(0, 'n'), num(0, 's'),
                           num(1, 'big'), num(-1, 'big')][:5 if a == 'rotation' else 7])
    if a == 'rotation':
        return good(rng, kind, a, ctx)
    if a == 'size' and kind == 'sptext':
        return rng.choice([num(rng.randint(0, 40)), num(12500, 'f'), num(14000, 'f'),
                           num(-10), num(10999, 'f')])
    if a == 'size':
        return rng.choice([num(99, 'f'), num(10001, 'f'), num(0), num(11), num(-1), num(50, 'f'),
                           num(-500, 'f'), num(10, 'ni')])
    if a == 'font':
        return rng.choice([num(rng.randint(-1, 40)), num(4), num(22500, 'f')])
    if a == 'turbulence_symbol':
        return rng.choice([num(-1), num(9), num(10), num(11), num(8), num(2500, 'f')])
    lo, hi = domain(kind, a)
    e = [lo - 1, lo, lo + 1, hi - 1, hi]
    if hi < 2 ** 31 - 1:
        e += [hi + 1, hi + rng.randint(1, 300)]
    if a.startswith('offset'):
        e = [lo, hi, 0]
    v = rng.choice(e)
    r = rng.random()
    if r < .7 or abs(v) > 2000000:
        return num(v)
    if r < .8:
        return num(v, 'ni')
    if r < .9:
        return num(v * 1000, 'f')
    return num(v * 1000 + rng.choice([1, 500, 999]), 'f')


def coordinates(rng, n, lim):
    m = rng.choice([1000, 1000, 10, 1])
    xs = [rng.randint(-lim * 1000 // m, lim * 1000 // m) * m for _ in range(n)]
    if n and rng.random() < .1:
        xs = [xs[0]] * n
    if rng.random() < .2 and n:
        xs[rng.randrange(n)] = rng.choice([0, lim * 1000, -lim * 1000])
    return [x + 1 if x % 10 == 5 else x for x in xs]     # (no value half way between hundredths)


def present(rng, xs):
    """Numbers in one of the forms a caller may use."""
    f = [x / 1000 for x in xs]
    forms = [f, np.array(f), tuple(f), np.array(f, dtype='float32')]
    if all(x % 1000 == 0 for x in xs):
        forms += [np.array([x // 1000 for x in xs], dtype=int), [x // 1000 for x in xs]]
    return rng.choice(forms)


TEXTS = ['A', '', 'hello', 'two$$lines', 'price $5', 'a$$$b', '  led and trailed  ', '<x>&"y"',
         'caf\xe9', '\u2603 \u03b1\u03b2', 'x' * 253, 'x' * 254, '\xe9' * 20, 'tab\there']


class Session:
    def __init__(self, ctx, tag):
        self.ctx, self.rng, self.tag = ctx, ctx.rng, tag
        self.ev, self.objs, self.info, self.files = [], [], [], []

    def state(self, o, kind):
        st = {}
        for a in COMMON + OWN[kind]:
            out, v = call(getattr, o, a)
            st[a] = whole(v, 1000 if thousandths(kind, a) else 1) if out == 'ok' else -7
        fixed = []
        for a in FIXED:
            out, v = call(getattr, o, a)
            fixed.append(whole(v, 1000 if a[:3] in ('min', 'max') else 1) if out == 'ok' else -7)
        st['fixed_'] = fixed
        st['text_'] = codes(getattr(o, 'text', '')) if isinstance(getattr(o, 'text', ''), str) else [-1]
        return st

    def new(self, kind, args, lon, lat, text='', form=None, positional=False, shift=True):
        """args: values of the specification; lon, lat in thousandths."""
        import gempakio.encode.vgf as enc
        rng = self.rng
        cls = getattr(enc, CLASS[kind])
        kw = {n: value(v) for n, v in args.items()}
        if kind in ('line', 'spline', 'front'):
            x, y = present(rng, lon), present(rng, lat)
        else:
            x, y = (rng.choice([float, np.float64])(lon[0] / 1000),
                    rng.choice([float, np.float64])(lat[0] / 1000))
            if lon[0] % 1000 == 0 and rng.random() < .3:
                x = lon[0] // 1000
        pos = [x, y]
        if kind == 'sptext':
            pos.append(text)
        if positional:
            for n in POSITIONAL[kind]:
                if n not in kw:
                    break
                pos.append(kw.pop(n))
        if rng.random() < .2 and kind != 'sptext':
            kw.update(lon=pos[0], lat=pos[1])
            pos = pos[2:] if len(pos) == 2 else pos
            if pos:
                del kw['lon'], kw['lat']
        out, o = call(cls, *pos, **kw)
        if shift:    # the caller goes on to use its arrays for something else
            for a in (x, y):
                if isinstance(a, np.ndarray):
                    a[...] = 55
                elif isinstance(a, list):
                    a[:] = [1, 2, 3]
        if kind not in ('line', 'spline', 'front'):
            lon, lat = lon[:1], lat[:1]
        raw = codes(text) if isinstance(text, str) else []
        self.ev.append({
            'ev': 'new', 'kind': kind, 'args': args, 'nlon': len(lon), 'nlat': len(lat),
            'lon': lon, 'lat': lat, 'text': raw, 'ntext': len(raw) if isinstance(text, str) else -1,
            'out': out, 'st': self.state(o, kind) if out == 'ok' else {'none': 0},
            'tag': self.tag, **({'why': repr(o)[:100]} if out != 'ok' else {})})
        self.objs.append(o if out == 'ok' else None)
        self.info.append(kind)
        return len(self.objs) - 1 if out == 'ok' else None

    def set(self, h, a, v):
        o, kind = self.objs[h], self.info[h]
        out, r = call(setattr, o, a, value(v))
        self.ev.append({'ev': 'set', 'h': h + 1, 'a': a, 'v': v, 'out': out,
                        'st': self.state(o, kind),
                        **({'why': repr(r)[:100]} if out != 'ok' else {})})

    def flip(self, h):
        o, kind = self.objs[h], self.info[h]
        out, _ = call(o.flip)
        self.ev.append({'ev': 'flip', 'h': h + 1, 'out': out, 'st': self.state(o, kind)})

    def file(self, hs):
        from gempakio.encode.vgf import VGFile
        rng = self.rng
        els = [self.objs[h] for h in hs]
        if rng.random() < .5:
            out, f = call(VGFile.from_elements, *els)
        else:
            out, f = call(VGFile)
            for x in els if out == 'ok' else ():
                out, _ = call(f.add_element, x)
        self.ev.append({'ev': 'file', 'hs': [h + 1 for h in hs], 'out': out})
        self.files.append(f)
        return len(self.files) - 1

    def add(self, f, h):
        out, _ = call(self.files[f].add_element, self.objs[h])
        self.ev.append({'ev': 'add', 'f': f + 1, 'h': h + 1, 'out': out})

    def write(self, f, over=False):
        from gempakio import VectorGraphicFile
        path = self.ctx.tmp('w.vgf')
        if over:
            path.write_bytes(bytes(self.rng.choices(range(256), k=3000)))
        out, r = call(self.files[f].to_vgf, str(path) if self.rng.random() < .5 else path)
        e = {'ev': 'write', 'f': f + 1, 'out': out, 'read': 'no', 'els': [], 'fh': 0}
        if out == 'ok':
            e['read'], v = call(VectorGraphicFile, path)
            if e['read'] == 'ok':
                e['els'] = [{'cls': type(x).__name__, 'a': attrs(x)} for x in v.elements]
                h = getattr(v, '_header', None) and v.header
                e['fh'] = int(bool(h) and h.vg_type == 22 and h.vg_class == 0)
            else:
                e['why'] = repr(v)[:200]
        else:
            e['why'] = repr(r)[:200]
        path.unlink(missing_ok=True)
        self.ev.append(e)


def random_args(rng, kind, bad=False):
    ctx, args = {}, {}
    names = REQUIRED[kind] + [n for n in OPTIONAL[kind] if rng.random() < .5]
    wrong = rng.choice(names) if bad else None
    for n in names:
        a = n
        if n == 'stroke' and (ctx.get('line_type') not in (24, 25)):
            args[n] = num(rng.choice([1, 30, 0]))
            continue
        if n in ('minor_color', 'edgecolor', 'facecolor') and rng.random() < .2:
            args[n] = num(0, 'n')
            continue
        v = any_value(rng, kind, a, ctx) if n == wrong else good(rng, kind, a, ctx)
        if n == 'line_type' and kind == 'spline' and v['t'] == 'i' and rng.random() < .3:
            v = num(rng.choice([24, 25]))
        args[n] = v
        if v['t'] in ('i', 'ni'):
            ctx[n] = v['v']
    if kind == 'spline' and ctx.get('line_type') in (24, 25) and 'stroke' not in args:
        args['stroke'] = num(rng.choice([25, 75, 50]))
    return args


def make(s, kind, bad=False):
    rng = s.rng
    n = rng.choice([2, 2, 3, 3, 4, 7, rng.randint(2, 40)])
    if rng.random() < .02:
        n = rng.choice([499, 500])
    lon, lat = coordinates(rng, n, 180), coordinates(rng, n, 90)
    text = 'text'
    where = rng.random() if bad else 0
    if kind == 'sptext':
        text = rng.choice(TEXTS + [''.join(chr(rng.randint(32, 126)) for _ in range(rng.randint(0, 60)))])
        if where > .8:
            text = rng.choice(['y' * 256, 'y' * 300, 5, None, b'bytes'])
    elif kind in ('line', 'spline', 'front') and where > .8:
        m = rng.choice([0, 1, n + 1, n - 1, 501])
        lon = coordinates(rng, m, 180)
        if rng.random() < .5:
            lat = coordinates(rng, m, 90)
    args = random_args(rng, kind, bad and where <= .8)
    return s.new(kind, args, lon, lat, text, positional=rng.random() < .3)


SETTABLE = {k: COMMON + OWN[k] for k in KINDS}


def change(s, h, bad=True):
    rng, kind = s.rng, s.info[h]
    if kind in ('front', 'spline') and rng.random() < .15:
        s.flip(h)
        return
    a = rng.choice(SETTABLE[kind])
    if kind == 'sptext' and a == 'width' and not bad:
        return
    ctx = {n: getattr(s.objs[h], n, None) for n in ('text_type', 'line_type')}
    if kind == 'sptext' and a in ('text_flag', 'font') and not bad:
        return
    s.set(h, a, any_value(rng, kind, a, ctx) if bad else good(rng, kind, a, ctx))


def random_session(ctx, bad):
    s = Session(ctx, 'bad' if bad else 'good')
    rng = ctx.rng
    hs, f = [], []
    for _ in range(rng.randint(1, 5)):
        h = make(s, rng.choice(KINDS), bad and rng.random() < .5)
        if h is not None:
            hs.append(h)
    if not hs:
        return s.ev
    for _ in range(rng.randint(0, 8)):
        change(s, rng.choice(hs), bad)
    pick = [rng.choice(hs) for _ in range(rng.randint(0, len(hs)))] if rng.random() < .3 \
        else rng.sample(hs, len(hs))
    f = s.file(pick)
    if rng.random() < .5:
        s.write(f)
    for _ in range(rng.randint(0, 4)):
        change(s, rng.choice(hs), bad)
    if rng.random() < .5:
        s.add(f, rng.choice(hs))
    if rng.random() < .3:
        s.file(hs[:1])
    s.write(f, rng.random() < .5)
    if rng.random() < .2:
        s.write(f)
    return s.ev


def base(s, kind):
    lon, lat = [-97500, -96000, -95250], [35000, 36500, 36000]
    args = {'front': {'front_code': num(220), 'major_color': num(2)}, 'sptext': {'text_color': num(3)},
            'line': {'color': num(4), 'line_type': num(5), 'closed': num(0)},
            'spline': {'color': num(4), 'line_type': num(5), 'closed': num(0)},
            'symbol': {'symbol_code': num(5), 'color': num(4)},
            'marker': {'symbol_code': num(5), 'color': num(4)}}[kind]
    return s.new(kind, args, lon, lat, 'WORDS', shift=False)


def replay(ctx, kind, hists, write):
    """Histories of the model, one element each."""
    ses = []
    for hist in hists:
        s = Session(ctx, 'model')
        h = base(s, kind)
        if h is not None:
            for o in hist:
                if o['a'] == 'flip':
                    s.flip(h)
                else:
                    s.set(h, o['a'], {'t': o['t'], 'v': o['v']})
            if write:
                s.write(s.file([h]))
        ses.append(s.ev)
    return ses


def every_value(ctx):
    """Every acceptable value of every small domain, and its neighbours, set and (V01) written."""
    ses = []
    for kind in KINDS:
        for a in SETTABLE[kind]:
            if a == 'rotation':
                vs = [num(0), num(-45500, 'f'), num(90)]
            elif a == 'size' and kind == 'sptext':
                vs = [num(x) for x in range(9, 36)]
            elif a == 'size':
                vs = [num(x, 'f') for x in (99, 100, 101, 9999, 10000, 10001, 0, -100)] + \
                    [num(x) for x in range(12)] + [num(0, 'nan'), num(1, 'inf')]
            elif a == 'font':
                vs = [num(x) for x in range(-1, 36)]
            elif a == 'turbulence_symbol':
                vs = [num(x) for x in range(-1, 13)]
            else:
                lo, hi = domain(kind, a)
                if hi - lo > 1100:
                    vs = [num(x) for x in (lo, lo + 1, hi - 1, hi)]
                    if not a.startswith('offset'):
                        vs.append(num(lo - 1))
                else:
                    step = 1 if hi - lo < 120 or ctx.thorough() else 7
                    vs = [num(x) for x in [lo - 2, lo - 1, *range(lo, hi, step), hi, hi + 1, hi + 2]]
                vs += [num(0, 'nan'), num(1, 'inf'), num(0, 'n'), num(0, 's'), num(1, 'big'),
                       num(lo * 1000 + 500, 'f')]
                m = ctx.rng.randint(lo, min(hi, max(lo, 0) + 2000))
                vs += [num(m * 1000, 'f'), num(m, 'ni')] if m > -2000 else []
            s = Session(ctx, 'values')
            h = base(s, kind)
            if h is None:
                ses.append(s.ev)
                continue
            if kind == 'sptext' and a == 'turbulence_symbol':
                for t in range(17):
                    s.set(h, 'text_type', num(t))
                    for v in vs:
                        s.set(h, a, v)
            else:
                f = s.file([h])
                for v in vs:
                    s.set(h, a, v)
                    if ctx.pid == 'V01' and s.ev[-1]['out'] == 'ok':
                        s.write(f)
            ses.append(s.ev)
    return ses


def every_new(ctx):
    """Every constructor argument over its small domain."""
    ses, rng = [], ctx.rng
    for kind in KINDS:
        for n in REQUIRED[kind] + OPTIONAL[kind]:
            if n in ('rotation', 'offset_x', 'offset_y'):
                continue
            if n == 'size' and kind == 'sptext':
                vs = [num(x) for x in range(9, 36)]
            elif n == 'size':
                vs = [num(x, 'f') for x in (99, 100, 10000, 10001, -100)] + [num(0, 'nan')]
            elif n == 'font':
                vs = [num(x) for x in range(-1, 36)]
            elif n == 'turbulence_symbol':
                vs = [num(x) for x in range(-1, 13)]
            else:
                lo, hi = domain(kind, n)
                mid = range(lo, hi) if hi - lo < 120 else [lo + 1, hi - 1]
                vs = [num(x) for x in [lo - 1, *mid, hi]] + [num(lo * 1000 + 500, 'f'), num(0, 's')]
                if hi < 2 ** 31 - 1:
                    vs.append(num(hi + 1))
                # whole numbers in other forms
                m = rng.randint(lo, min(hi, lo + 2000))
                vs += [num(x * 1000, 'f') for x in (lo, m)] + [num(x, 'ni') for x in (m, min(hi, lo + 2000))]
            s = Session(ctx, 'arguments')
            hs = []
            for v in vs:
                args = {'front': {'front_code': num(220), 'major_color': num(2)},
                        'sptext': {'text_color': num(3), 'text_type': num(s.rng.choice([0, 7, 9, 12]))},
                        'line': {'color': num(4), 'line_type': num(5), 'closed': num(0)},
                        'spline': {'color': num(4), 'line_type': num(24 if n == 'stroke' else 5),
                                   'closed': num(0)},
                        'symbol': {'symbol_code': num(5), 'color': num(4)},
                        'marker': {'symbol_code': num(5), 'color': num(4)}}[kind]
                if n == 'line_type' and kind == 'spline':
                    args['stroke'] = num(30)
                args[n] = v
                hs.append(s.new(kind, args, [-97500, -96000], [35000, 36500], 'T', shift=False))
            s.write(s.file([h for h in hs if h is not None]))
            ses.append(s.ev)
    return ses


def run_v04(ctx):
    ses = []
    for kind in ('front', 'sptext', 'spline', 'line'):
        out = ctx.tmp('hist.json')
        ctx.model('MCVGElement', f'MCVGElement_{kind}{3 if ctx.thorough() or kind != "front" else 3}.cfg',
                  env={'OUT': str(out)})
        ses += replay(ctx, kind, json.loads(out.read_text()), False)
    ses += every_value(ctx) + every_new(ctx)
    ses += [random_session(ctx, True) for _ in range(ctx.n(700, 8000))]
    ctx.judge('VGWriteTrace', ses, cfg='VGWriteTrace.cfg')


def run_v01(ctx):
    ses = []
    for kind in ('front', 'sptext', 'spline', 'line'):
        out = ctx.tmp('hist.json')
        ctx.model('MCVGElement', f'MCVGElement_{kind}{3 if ctx.thorough() else 2}.cfg',
                  env={'OUT': str(out)})
        ses += replay(ctx, kind, json.loads(out.read_text()), True)
    ses += every_value(ctx)
    ses += [random_session(ctx, False) for _ in range(ctx.n(500, 5000))]
    for n in (2, 3, 4, 100, 499, 500):
        for kind in ('line', 'spline', 'front'):
            for closed in (0, 1):
                for d in (1, -1):
                    s = Session(ctx, 'points')
                    args = {'color': num(3), 'line_type': num(6), 'closed': num(closed)}
                    if kind == 'spline':
                        args['direction'] = num(d)
                    if kind == 'front':
                        args = {'front_code': num(425), 'major_color': num(7), 'pip_direction': num(d)}
                    h = s.new(kind, args, coordinates(ctx.rng, n, 180), coordinates(ctx.rng, n, 90))
                    if h is not None:
                        if kind == 'front':
                            s.set(h, 'closed', num(closed))
                        s.write(s.file([h]))
                    ses.append(s.ev)
    ctx.judge('VGWriteTrace', ses, cfg='VGWriteTrace.cfg')


def run(ctx):
    {'V01': run_v01, 'V04': run_v04}[ctx.pid](ctx)
