"""V02 V03 V05 V06: VGF files are built from the layouts of VGLayout, read with
VectorGraphicFile, and what was read is judged by VGTrace."""
from datetime import datetime
from enum import IntEnum
import json
import math
import struct

import numpy as np

from .core import MachineryError
from .lib import call, codes, toi

CFG = 'VGEval.cfg'
QUERIES = ['fronts', 'text', 'special_text', 'symbols', 'special_symbols', 'markers',
           'special_lines', 'lines', 'winds', 'tracks', 'watch_box', 'sigmet', 'met']
ESC = 'surrogateescape'
CHARS = [c for c in range(33, 127) if c not in (36, 60, 124)]


# ------------------------------------------------------------------ values
class Gen:
    def __init__(self, rng, big=0., counts=None):
        self.rng, self.big, self.counts = rng, big, counts

    def text(self, z, lo=0, extra=()):
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, z - 1, z, rng.randint(0, z), rng.randint(0, min(z, 12))])
        n = max(lo, min(n, z))
        s = [rng.choice(CHARS + [32, 32, 32, *extra]) for _ in range(n)]
        if n and rng.random() < .1:
            s[0] = 32
        if n and rng.random() < .1:
            s[-1] = 32
        if n > 5 and rng.random() < .1:
            s[2:4] = [0xc3, 0xa9]
        if n > 3 and rng.random() < .07:      # not (only) UTF-8
            for _ in range(rng.randint(1, 3)):
                s[rng.randrange(1, n)] = rng.choice([0xb0, 0xe9, 0xff, 0xc3, 0xe2, 0x82, 0xf0, 0x9f])
        if lo and s[0] == 32:
            s[0] = 65
        return s

    def num(self, it):
        rng = self.rng
        lo, hi = it['lo'], it['hi']
        r = rng.random()
        if r < .1:
            return lo
        if r < .2:
            return hi
        if r < .3 and lo <= 0 <= hi:
            return 0
        return rng.randint(lo, hi)

    def count(self, it, lay):
        if self.counts is not None and it['n'] in self.counts:
            return self.counts[it['n']]
        room = [x['m'] for x in lay if x['c'] == it['n']]
        if self.rng.random() < self.big and room:
            m = max(room) or 500
            if all(x['k'] != 'r' for x in lay):
                return self.rng.choice([m, m - 1, 50, 49])
        return self.num(it)

    def layout(self, lay):
        rng = self.rng
        v = {}
        for it in lay:
            k, n = it['k'], it['n']
            if k == 'p':
                continue
            if k == 'n':
                v[n] = self.count(it, lay)
            elif k in ('af', 'ai'):
                for a in it['ns']:
                    v[a] = [self.num(it) for _ in range(v[it['c']])]
            elif k in ('as', 'az'):
                lo = 1 if n == 'times' else 0
                v[n] = [self.text(it['z'], lo) for _ in range(v[it['c']])]
            elif k == 'r':
                v[n] = [self.layout(it['sub']) for _ in range(v[it['c']])]
            elif k == 'o':
                v[n] = self.layout(it['sub'])
            elif k == 'x':
                v[n] = self.text(rng.choice([1, 5, 40, 255]), 0, (36, 36, 36))
                if rng.random() < .5:
                    v[n] += [36, 36] + self.text(9)
            elif k in ('s', 'z'):
                v[n] = self.text(it['z'])
            elif k == 't':
                v[n] = [rng.choice([1969, 1999, 2000, 2024, 2068, rng.randint(1969, 2068)]),
                        rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                        rng.randint(0, 59)]
            else:
                v[n] = self.num(it)
        return v

    def tca(self):
        rng = self.rng
        i = lambda lo, hi: rng.randint(lo, hi)   # noqa: E731

        def word(z):
            w = [rng.choice(CHARS) for _ in range(i(1, z))]
            return w + [rng.choice([0xe9, 0xb0, 0xc3])] if z > 9 and rng.random() < .05 else w
        n = self.counts.get('ww', i(0, 3)) if self.counts else i(0, 3)
        return {
            'storm_number': i(0, 99), 'issue_status': word(1), 'basin': i(0, 3),
            'advisory_number': i(0, 99), 'storm_name': word(12), 'storm_type': i(0, 4),
            'valid_time': codes(f'{i(0, 68):02d}{i(1, 12):02d}{i(1, 28):02d}/{i(0, 23):02d}00'),
            'timezone': word(3), 'text_lat': i(-9000, 9000), 'text_lon': i(-18000, 18000),
            'text_font': i(0, 33), 'text_size': i(0, 999), 'text_width': i(0, 9),
            'ww': [{'severity': i(0, 1), 'advisory_type': i(0, 1), 'special_geography': i(0, 2),
                    'break_points': [{'lat': i(-9000, 9000), 'lon': i(-18000, 18000),
                                      'name': word(10)} for _ in range(i(1, 4))]}
                   for _ in range(n)]}


# ------------------------------------------------------------------ bytes
def poke(buf, p):
    o, k, z, d, v = p['o'], p['k'], p['z'], p['d'], p['v']
    if k in ('i', 'n'):
        b = struct.pack('>i', v)
    elif k == 'il':
        b = struct.pack('<i', v)
    elif k == 'f':
        b = struct.pack('>f', v / 10 ** d)
    elif k == 'fl':
        b = struct.pack('<f', v / 10 ** d)
    elif k == 'b':
        b = bytes([v])
    elif k == 'af':
        b = b''.join(struct.pack('>f', x / 10 ** d) for x in v)
    elif k == 'ai':
        b = b''.join(struct.pack('>i', x) for x in v)
    elif k in ('s', 'z', 'd', 't'):
        if k == 'd':
            v = codes(str(v))
        elif k == 't':
            v = codes(datetime(*v).strftime('%y%m%d/%H%M'))
        if len(v) > z:
            raise MachineryError(f'text too long {p}')
        b = bytes(v) + (b'\0' if len(v) < z else b'')
    else:
        raise MachineryError(f'placement {p}')
    buf[o:o + len(b)] = b


def tca_bytes(tags):
    out = ''
    for t in tags:
        v = t['v']
        if t['k'] == 'i':
            s = str(v)
        elif t['k'] == 'f':
            s = f'{v / 100:.2f}'
        elif t['k'] == 's':
            s = bytes(v).decode(errors=ESC)
        elif t['k'] == 'w':
            s = '|'.join(map(str, v))
        else:
            s = '|'.join(f"{b['lat'] / 100:.2f}|{b['lon'] / 100:.2f}|{bytes(b['name']).decode(errors=ESC)}"
                         for b in v)
        out += f"<tca_{t['t']}>{s}"
    return out.encode(errors=ESC)


def body(rng, placed, junk=True):
    if placed['tags']:
        return tca_bytes(placed['tags']) + b'\0'
    buf = bytearray(rng.choices(range(256), k=placed['size']) if junk else placed['size'])
    for p in placed['pl']:
        poke(buf, p)
    return bytes(buf)


HFMT = '>BBBbBBBBiiiiffff'
HNAMES = ['delete', 'vg_type', 'vg_class', 'filled', 'closed', 'smooth', 'version',
          'group_type', 'group_number', 'major_color', 'minor_color', 'record_size',
          'min_lat', 'min_lon', 'max_lat', 'max_lon']


def header_bytes(h):
    return struct.pack(HFMT, *[h[n] / 100 if n[:3] in ('min', 'max') and n != 'minor_color'
                               else h[n] for n in HNAMES])


def make_header(rng, cls, typ, ver, size, **kw):
    h = {'delete': int(rng.random() < .15), 'vg_type': typ, 'vg_class': cls,
         'filled': rng.randint(0, 4), 'closed': rng.randint(0, 1), 'smooth': rng.randint(0, 2),
         'version': ver, 'group_type': rng.choice([0, 0, 1, 2, 5, 8, 255]),
         'group_number': rng.choice([0, 1, 2, 3, 10]), 'major_color': rng.randint(0, 32),
         'minor_color': rng.randint(0, 32), 'record_size': size}
    if rng.random() < .08:
        h.update(filled=rng.choice([-1, -128, 127]), group_number=rng.choice([-1, -7, 123456789]))
    a, b = sorted(rng.randint(-9000, 9000) for _ in range(2))
    c, d = sorted(rng.randint(-18000, 18000) for _ in range(2))
    if rng.random() < .15:
        a = b = c = d = 0
    elif rng.random() < .25:
        r = rng.randint(0, 3)
        a, b = (0, abs(b)) if r == 0 else (-abs(a), 0) if r == 1 else (a, b)
        c, d = (0, abs(d)) if r == 2 else (-abs(c), 0) if r == 3 else (c, d)
    h.update(min_lat=a, min_lon=c, max_lat=b, max_lon=d)
    h.update(kw)
    return h


# ------------------------------------------------------------------ projection
def number(x):
    if isinstance(x, (int, np.integer)):
        return [int(x), 0] if abs(int(x)) < 2 ** 31 else [-99999999, -1]
    x = float(x)
    if not math.isfinite(x) or abs(x) > 2e6:
        return [-99999999, -1]
    t = round(x * 1000)
    if abs(x * 1000 - t) > .05 + abs(x) * 2e-4:
        return [-99999999, -1]
    return [t // 1000, t % 1000]


def flatten(n, x, out):
    def put(v, s=''):
        out.append({'n': n, 'x': v, 's': s})
    if x is None:
        put([0])
    elif isinstance(x, str):
        put([2, *codes(x)], x)
    elif isinstance(x, IntEnum):
        put([1, *number(x)], x.name)
    elif isinstance(x, (bool, int, float, np.integer, np.floating)):
        put([1, *number(x)])
    elif isinstance(x, datetime):
        put([6, x.year, x.month, x.day, x.hour, x.minute])
    elif isinstance(x, dict):
        for k, v in x.items():
            flatten(f'{n}.{k}' if n else k, v, out)
    elif isinstance(x, (list, tuple, np.ndarray)):
        xs = list(x)
        if all(isinstance(v, (bool, int, float, np.integer, np.floating)) for v in xs):
            put([3] + [w for v in xs for w in number(v)])
        elif all(isinstance(v, str) for v in xs):
            put([5] + [w for v in xs for w in (len(codes(v)), *codes(v))])
        else:
            for k, v in enumerate(xs):
                flatten(f'{n}.{k}', v, out)
    elif hasattr(x, '__dict__'):
        for k, v in vars(x).items():
            flatten(f'{n}.{k}' if n else k, v, out)
    else:
        put([0])


def attrs(e):
    out = []
    flatten('', e, out)
    return out


def hdr(x):
    return {n: toi(getattr(x, n, 0), 100 if n[1:5] in ('in_l', 'ax_l') else 1)
            for n in ('vg_class', 'vg_type', 'group_type', 'group_number',
                      'min_lat', 'min_lon', 'max_lat', 'max_lon')}


# ------------------------------------------------------------------ files
class Builder:
    """Random records of the known kinds; the placements come from the specification."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        t = ctx.tla_eval('VGEval', [{'op': 'tables'}], cfg=CFG)[0]
        self.kinds = {k['id']: k for k in t['kinds']}

    def value(self, kid, big=0., counts=None):
        g = Gen(self.rng, big, counts)
        return g.tca() if kid == 'tca' else g.layout(self.kinds[kid]['l'])

    def place(self, items):
        """items: [(kid, val)] -> placements"""
        return self.ctx.tla_eval('VGEval', [{'op': 'place', 'id': k, 'val': v}
                                            for k, v in items], cfg=CFG, chunks=8)

    def record(self, kid, val, placed, slack=0, **kw):
        k = self.kinds[kid]
        rng = self.rng
        b = body(rng, placed)
        b += bytes(rng.choices(range(256), k=slack))
        h = make_header(rng, k['c'], rng.choice(k['ts']), k['v'], 40 + len(b), **kw)
        return {'id': kid, 'hdr': h, 'val': val}, header_bytes(h) + b

    def file_header(self, notes=None, version=None, **kw):
        rng = self.rng

        def text(n):
            return bytes(rng.choice(b'abcXYZ019 ._-') for _ in range(n))
        if version is None:
            version = rng.choice([b'7.9.1', b'7.9.1', text(rng.randint(0, 127)), text(128)])
        if notes is None:
            notes = rng.choice([b'made by the driver', b'', text(rng.randint(1, 200))])
        # the notes end at a terminator or with the record
        b = (version + (b'\0' + rng.choice([b'', b'left over']) if len(version) < 118 else b'')
             ).ljust(128, b'\0') + notes
        b += rng.choice([b'\0', b'\0', b'', b'\0\0\0', b'\0left over'])
        h = make_header(self.rng, 0, 22, 0, 40 + len(b), delete=0, **kw)
        return {'id': 'fileheader', 'hdr': h,
                'val': {'version': list(version), 'notes': list(notes)}}, header_bytes(h) + b


def write(ctx, parts, tail=b''):
    data = b''.join(b for _r, b in parts) + tail
    path = ctx.tmp('in.vgf')
    path.write_bytes(data)
    left, recs = len(data), []
    for r, b in parts:
        recs.append({**r, 'left': left})
        left -= len(b)
    return path, recs


def openev(ctx, path, recs, limit=20):
    from gempakio import VectorGraphicFile
    out, f = call(VectorGraphicFile, path, limit=limit)
    e = {'ev': 'open', 'pid': ctx.pid, 'recs': recs, 'out': out, 'els': [], 'fh': []}
    if out == 'ok':
        e['els'] = [{'cls': type(x).__name__, 'a': attrs(x), 'h': hdr(x),
                     'rp': call(repr, x)[1]} for x in f.elements]
        h = getattr(f, '_header', None) and f.header
        e['fh'] = attrs(h) if h else []
    else:
        e['why'] = repr(f)[:200]
    path.unlink()
    return e, f if out == 'ok' else None


# ------------------------------------------------------------------ drivers
def kinds_sessions(ctx, b, ids=None, n=2, big=.15, json_too=False):
    """One small file per kind (and per random value)."""
    ids = ids or list(b.kinds)
    todo = []
    for _ in range(n):
        for kid in ids:
            todo.append((kid, b.value(kid, big)))
    placed = b.place(todo)
    ses = []
    for (kid, val), pl in zip(todo, placed):
        rec = b.record(kid, val, pl, slack=ctx.rng.choice([0, 0, 4, 13]))
        path, recs = write(ctx, [b.file_header(), rec])
        e, f = openev(ctx, path, recs)
        s = [{**e, 'tag': kid}]
        if json_too and f is not None:
            s += json_events(ctx, f)
        ses.append(s)
    return ses


def json_events(ctx, f, all_forms=True):
    from gempakio.decode.vgf import NumpyEncoder

    class Enc(NumpyEncoder):
        pass
    forms = [{}, {'indent': 2}, {'sort_keys': True, 'separators': (',', ':')},
             {'cls': Enc}, {'cls': NumpyEncoder, 'indent': 1}, {'ensure_ascii': False}]
    evs = []
    for kw in forms if all_forms else [ctx.rng.choice(forms)]:
        out, s = call(f.to_json, **kw)
        e = {'ev': 'json', 'out': out, 'els': []}
        if out == 'ok':
            try:
                d = json.loads(s)
                e['els'] = [{'a': jattrs(x)} for x in d]
            except Exception as ex:   # noqa: BLE001
                e['out'] = 'unparsable'
                e['why'] = repr(ex)[:200]
        else:
            e['why'] = repr(s)[:200]
        evs.append(e)
    return evs


def jattrs(x):
    out = []
    flatten('', x, out)
    for a in out:
        if a['n'] == 'valid_time' and a['s'] and '<' not in a['s']:
            try:
                t = datetime.fromisoformat(a['s'])
                a['x'] = [6, t.year, t.month, t.day, t.hour, t.minute]
            except ValueError:
                pass
    return out


CHEAP = ['front', 'symbol', 'circle', 'line', 'spline', 'text', 'sptext', 'track1', 'sigmet0',
         'sigmet1', 'gfa', 'watch0', 'watch1', 'wind', 'tca', 'tcerror', 'tctrack', 'tcbreak',
         'list', 'sgwx', 'ash']


def skip_record(rng, cls=None, typ=None, ver=0, size=None):
    pairs = [(c, t) for c in (7, 8, 9, 13, 16) for t in (1, 5, 17, 26, 42)] + \
            [(12, 1), (12, 5), (3, 2), (3, 17), (5, 19), (5, 1), (11, 33), (11, 26), (15, 36),
             (15, 6), (2, 7), (2, 33), (0, 1)]
    if cls is None:
        cls, typ = rng.choice(pairs)
    n = rng.choice([0, 4, 20, 37, 160]) if size is None else size
    h = make_header(rng, cls, typ, ver, 40 + n)
    return {'id': 'skip', 'hdr': h, 'val': 0}, header_bytes(h) + bytes(
        rng.choices(range(256), k=n))


def bad_record(rng, what=None):
    what = what or rng.choice(['delete', 'type', 'class', 'major', 'minor', 'size0', 'size39',
                               'negative', 'oversize', 'zeros'])
    n = 60
    h = make_header(rng, 4, 5, 0, 40 + n, delete=0)
    if what == 'delete':
        h['delete'] = rng.choice([2, 255])
    elif what == 'type':
        h['vg_type'] = rng.choice([0, 3, 44, 255])
    elif what == 'class':
        h['vg_class'] = rng.choice([17, 255])
    elif what == 'major':
        h['major_color'] = rng.choice([-1, 33, 9999])
    elif what == 'minor':
        h['minor_color'] = rng.choice([-1, 33])
    elif what == 'size0':
        h['record_size'] = 0
    elif what == 'size39':
        h['record_size'] = rng.choice([1, 16, 39])
    elif what == 'negative':
        h['record_size'] = rng.choice([-1, -40, -100])
    elif what == 'oversize':
        h['record_size'] = 40 + n + rng.choice([100000, 200000])
    elif what == 'zeros':
        h = dict.fromkeys(HNAMES, 0)
    return {'id': 'skip', 'hdr': h, 'val': 0}, header_bytes(h) + bytes(n)


def cut(rng, rec, k=None):
    """A record cut short at the end of the file: it counts by what its header says."""
    r, b = rec
    k = rng.choice([1, 8, 39, 40, len(b) - 1, rng.randint(1, len(b) - 1)]) if k is None else k
    return r, b[:k]


def run_v02(ctx):
    b = Builder(ctx)
    rng = ctx.rng
    cases = []
    for n in (2, 3, 4) if ctx.thorough() else (2, 3):
        out = ctx.tmp('frames.json')
        ctx.model('MCVGFrame', f'MCVGFrame{n}.cfg', env={'OUT': str(out)})
        cases += json.loads(out.read_text())
    # templates of the model, made once (the model talks about kinds of records only)
    tmpl = [('front', b.value('front', counts={'number_points': 3})), ('wind', b.value('wind')),
            ('text', {**b.value('text'), 'text': [65, 66]}), ('symbol', b.value('symbol')),
            ('tca', Gen(rng, counts={'ww': 0}).tca())]
    pl = dict(zip([k for k, _ in tmpl], b.place(tmpl)))
    val = dict(tmpl)

    def make(name):
        if name in val:
            return b.record(name, val[name], pl[name], slack=rng.choice([0, 0, 8]))
        if name == 'slack':
            return b.record('wind', val['wind'], pl['wind'], slack=rng.choice([1, 4, 40, 76]))
        if name == 'deleted':
            return b.record('symbol', val['symbol'], pl['symbol'], delete=1)
        if name == 'header':
            return b.file_header()
        if name == 'skip':
            return skip_record(rng)
        if name == 'version':
            return skip_record(rng, *rng.choice([(2, 6, 7), (2, 6, 200), (11, 29, 2)]))
        if name == 'cut':
            return cut(rng, b.record('front', val['front'], pl['front']))
        return bad_record(rng, None if name == 'bad' else name)
    ses = []
    for case in cases:
        parts = [make(x) for x in case]
        tail = b'' if rng.random() < .7 else bytes(rng.choice([1, 8, 39, 40, 41, 200]))
        if 'cut' in case:       # the tail would fill up the record that is cut short
            tail = b''
        if tail and len(tail) >= 40:
            parts.append(({'id': 'skip', 'hdr': dict.fromkeys(HNAMES, 0), 'val': 0}, tail))
            tail = b''
        path, recs = write(ctx, parts, tail)
        e, _ = openev(ctx, path, recs, limit=10)
        ses.append([{**e, 'tag': 'frame'}])
    # longer files of all kinds
    todo = [[(k, b.value(k)) for k in (rng.choice(CHEAP) for _ in range(rng.randint(2, 12)))]
            for _ in range(ctx.n(60, 400))]
    placed = iter(b.place([x for t in todo for x in t]))
    for t in todo:
        parts = [b.file_header()] if rng.random() < .8 else []
        for k, v in t:
            parts.append(b.record(k, v, next(placed), slack=rng.choice([0, 0, 0, 1, 8, 33])))
            if rng.random() < .2:
                parts.append(skip_record(rng))
        r = rng.random()
        if r < .2:
            parts.append(bad_record(rng))
            if rng.random() < .5:
                parts.append(b.file_header())
        elif r < .4:
            parts[-1] = cut(rng, parts[-1])
        path, recs = write(ctx, parts)
        e, _ = openev(ctx, path, recs)
        ses.append([{**e, 'tag': 'mixed'}])
    ctx.judge('VGTrace', ses, cfg='VGTrace.cfg')


def code_sessions(ctx, b):
    """Every code that is reported by a name."""
    rng = ctx.rng

    def some(n):
        return rng.sample(range(n), n)
    todo = [('line', {'line_type': t}) for t in range(100)]
    todo += [('circle', {'line_type': t}) for t in range(0, 100, 9)]
    todo += [('spline', {'line_type': t}) for t in range(1, 27)]
    todo += [('front', {'front_code': 100 * x + 10 * y + z})
             for _ in range(2) for x, y, z in zip(some(10), some(10), some(10))]
    todo += [('list', {'marker_type': t, 'list_type': rng.randrange(1, 6)}) for t in range(25)]
    todo += [('list', {'list_type': t}) for t in range(1, 6)]
    todo += [('watch6', {'marker_type': t}) for t in range(25)]
    for k in ('tca', 'tcerror', 'tctrack', 'tcbreak'):
        todo += [(k, {'basin': t % 4, 'storm_type': t}) for t in range(5)]
    todo += [('tcbreak', {'ww_level': t}) for t in range(4)]
    todo = [(k, {**b.value(k, counts=dict.fromkeys(['number_points', 'number_items',
                                                    'number_counties'], rng.randrange(1, 4))),
                 **v}) for k, v in todo]
    for k, v in todo:
        if k == 'tca':
            for i, w in enumerate(v['ww']):
                w['special_geography'] = (v['basin'] + i) % 3
    ses = []
    for (k, v), pl in zip(todo, b.place(todo)):
        path, recs = write(ctx, [b.record(k, v, pl)])
        e, _ = openev(ctx, path, recs)
        ses.append([{**e, 'tag': k}])
    return ses


def run_v03(ctx):
    ctx.model('MCVGLayout')
    b = Builder(ctx)
    ses = kinds_sessions(ctx, b, n=ctx.n(12, 90)) + code_sessions(ctx, b)
    # every list length of every kind with lists
    for c in range(1, ctx.n(4, 12)):
        todo = [(k, b.value(k, counts={'number_points': c, 'total_points': c,
                                       'number_items': c - 1, 'number_counties': c - 1,
                                       'number_blocks': min(3, c - 1), 'ww': c - 1,
                                       'number_barbs': c - 1, 'number_hashes': min(c, 3)}))
                for k in b.kinds]
        for (k, v), pl in zip(todo, b.place(todo)):
            path, recs = write(ctx, [b.record(k, v, pl)])
            e, _ = openev(ctx, path, recs)
            ses.append([{**e, 'tag': k}])
    from gempakio.decode.vgf import VectorGraphicFile as V
    for n in range(1, 9):
        x, y = [[ctx.rng.randint(-99, 99) for _ in range(n)] for _ in range(2)]
        for conv in (list, np.array):
            for ev, fn in (('close', V.close_coordinates), ('flip', V.flip_coordinates)):
                a, c = conv(x), conv(y)
                out, r = call(fn, a, c)
                ok = out == 'ok' and [int(v) for v in a] == x and [int(v) for v in c] == y
                ses.append([{'ev': ev, 'x': x, 'y': y, 'out': 'ok' if ok else 'err',
                             'rx': [int(v) for v in r[0]] if ok else [],
                             'ry': [int(v) for v in r[1]] if ok else [], 'tag': ev}])
    ctx.judge('VGTrace', ses, cfg='VGTrace.cfg')


def index_of(elements, got):
    """positions (1-based) by identity"""
    pos = {id(x): i + 1 for i, x in enumerate(elements)}
    return [pos.get(id(x), 0) for x in got]


def queries(ctx, f):
    from gempakio.decode.vgf import VGClass, VGType
    rng = ctx.rng
    els = f.elements
    evs = []

    def listed(ev, out, r, **kw):
        e = {'ev': ev, 'out': out, 'idx': [], 'none': 0, **kw}
        if out == 'ok':
            if r is None:
                e['none'] = 1
            else:
                e['idx'] = index_of(els, r)
        evs.append(e)
    for q in QUERIES:
        out, r = call(lambda q=q: getattr(f, 'has_' + q))
        evs.append({'ev': 'has', 'q': q, 'out': out, 'r': int(bool(r)) if out == 'ok' else 0})
        out, r = call(getattr(f, 'get_' + q))
        listed('get', out, r, q=q)
    for _ in range(12):
        c = rng.choice([-1, rng.choice(els).vg_class, rng.randint(0, 16)])
        t = rng.choice([-1, rng.choice(els).vg_type, rng.choice([1, 2, 17, 20, 43])])
        op = rng.choice(['and', 'or']) if rng.random() < .9 else rng.choice(['xor', 'AND', '', 'not'])
        kw = {}
        if c >= 0:
            kw['vg_class'] = VGClass(c) if rng.random() < .5 else c
        if t >= 0:
            kw['vg_type'] = VGType(t) if rng.random() < .5 else t
        if op != 'and' or rng.random() < .5:
            kw['operation'] = op
        out, r = call(f.filter_elements, **kw)
        listed('filter', out, r, c=c, t=t, op=op)
    out, r = call(lambda: f.groups)
    evs.append({'ev': 'groups', 'out': out, 'types': [int(x) for x in r] if out == 'ok' else []})
    for t in sorted({e.group_type for e in els} | {0, 3}):
        out, r = call(f.get_group, t)
        e = {'ev': 'group', 't': int(t), 'out': out, 'gs': [], 'none': 0}
        if out == 'ok':
            if r is None:
                e['none'] = 1
            else:
                e['gs'] = [{'num': int(g.group_number), 'typ': int(g.group_type),
                            'size': int(g.group_size), 'idx': index_of(els, list(g))}
                           for g in r]
        evs.append(e)
    for i, x in enumerate(els[:4]):
        out, r = call(lambda x=x: x.bounds)
        evs.append({'ev': 'element-bounds', 'i': i + 1, 'out': out,
                    'b': [round(float(v) * 1000) for v in r] if out == 'ok' else []})
    out, r = call(lambda: f.bounds)
    e = {'ev': 'bounds', 'out': out, 'b': [0, 0, 0, 0]}
    if out == 'ok':
        e['b'] = [round(float(x) * 100) for x in r]
    evs.append(e)
    return evs


def run_v05(ctx):
    ctx.model('MCVGQuery')
    b = Builder(ctx)
    rng = ctx.rng
    pool = [k for k in CHEAP if k not in ('sgwx', 'list', 'ash')] + ['text', 'symbol', 'line']
    todo = []
    for _ in range(ctx.n(120, 900)):
        ks = rng.sample(sorted(set(pool)), rng.randint(1, 4)) if rng.random() < .7 else pool
        todo.append([(k, b.value(k)) for k in (rng.choice(ks)
                                               for _ in range(rng.randint(1, 9)))])
    placed = iter(b.place([x for t in todo for x in t]))
    ses = []
    for t in todo:
        parts = [b.file_header()]
        zero = rng.random() < .1
        # everything in one part of the world
        here = rng.random() < .4 and (rng.randint(-8500, 8000), rng.randint(-17500, 17000))
        for k, v in t:
            kw = {}
            if here:
                (a, b1), (c, d) = (sorted(x + rng.randint(0, 500) for _ in range(2)) for x in here)
                kw = {'min_lat': a, 'min_lon': c, 'max_lat': b1, 'max_lon': d}
            if zero:
                kw = {'min_lat': 0, 'min_lon': 0, 'max_lat': 0, 'max_lon': 0}
            parts.append(b.record(k, v, next(placed), **kw))
            if rng.random() < .1:
                parts.append(skip_record(rng))
        path, recs = write(ctx, parts)
        e, f = openev(ctx, path, recs)
        s = [{**e, 'tag': 'query'}]
        if f is not None and len(f.elements):
            s += queries(ctx, f)
        ses.append(s)
    ctx.judge('VGTrace', ses, cfg='VGTrace.cfg')


def run_v06(ctx):
    ctx.model('MCVGLayout')
    b = Builder(ctx)
    rng = ctx.rng
    ses = kinds_sessions(ctx, b, n=ctx.n(2, 14), big=.05, json_too=True)
    todo = [[(k, b.value(k)) for k in rng.sample(CHEAP, rng.randint(2, 6))]
            for _ in range(ctx.n(15, 120))]
    placed = iter(b.place([x for t in todo for x in t]))
    for t in todo:
        parts = [b.file_header()] + [b.record(k, v, next(placed)) for k, v in t]
        path, recs = write(ctx, parts)
        e, f = openev(ctx, path, recs)
        ses.append([{**e, 'tag': 'mixed'}]
                   + (json_events(ctx, f, False) if f is not None else []))
    ctx.judge('VGTrace', ses, cfg='VGTrace.cfg')


def run(ctx):
    {'V02': run_v02, 'V03': run_v03, 'V05': run_v05, 'V06': run_v06}[ctx.pid](ctx)
