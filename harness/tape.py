"""T01: byte buffers and named structures behave like the tape of Tape.tla."""
import io
import json
import struct

import numpy as np

from .lib import call

PY = {('i', 1): 'b', ('u', 1): 'B', ('i', 2): 'h', ('u', 2): 'H', ('i', 4): 'i'}
CONV = {'neg': lambda v: -v, 'twice': lambda v: 2 * v, 'len': len}


def info(lay):
    out = []
    for f in lay:
        if f['f'] == 'x':
            out.append(('', f'{f["z"]}x'))
            continue
        fmt = f'{f["z"]}s' if f['f'] == 's' else PY[f['f'], f['z']]
        out.append((f['n'], fmt) + ((CONV[f['k']],) if f['k'] else ()))
    return out


def field(v):
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    return [int(v)]


class Runner:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.buf, self.marks = None, 0

    def struct(self, o):
        from gempakio.tools import NamedStruct
        name = self.rng.choice([None, 'Thing'])
        return NamedStruct(info(o['lay']), o['e'], name) if name else \
            NamedStruct(info(o['lay']), o['e'])

    def tup(self, o, t):
        names = [f['n'] for f in o['lay'] if f['n']]
        assert list(t._fields) == names, 'fields'
        return [field(getattr(t, n)) for n in names]

    def dtype(self, o):
        return o['e'] + ('i' if o['g'] else 'u') + str(o['z'])

    def new(self, o):
        from gempakio.tools import IOBuffer
        src = bytearray(o['b'])
        how = self.rng.randrange(4)
        if how == 0:
            self.buf = IOBuffer(bytes(src))
        elif how == 1:
            self.buf = IOBuffer.fromfile(io.BytesIO(bytes(src)))
        elif how == 2:
            self.buf = IOBuffer(memoryview(src))
        else:
            self.buf = IOBuffer(src)
        # what happens to the source is no concern of the buffer
        for i in range(len(src)):
            src[i] ^= 255
        self.marks = 0
        return []

    def apply(self, o):
        op, b, n = o['op'], self.buf, o['n']
        lim = None if n < 0 else n
        if op == 'new':
            return self.new(o)
        if op == 'reset':
            b.reset()
            self.marks = 0
            return []
        if op == 'mark':
            k = b.set_mark()
            self.marks += 1
            return [k]
        if op == 'clear_marks':
            b.clear_marks()
            self.marks = 0
            return []
        if op == 'jump':
            b.jump_to(o['m'] - 1, *([n] if n or self.rng.random() < .5 else []))
            return []
        if op == 'offset_from':
            return [b.offset_from(o['m'] - 1)]
        if op == 'splice':
            src = bytearray(o['b'])
            b.splice(o['m'] - 1, src if self.rng.random() < .5 else bytes(src))
            for i in range(len(src)):
                src[i] ^= 255
            return []
        if op == 'skip':
            b.skip(lim)
            return []
        if op in ('read', 'get_next'):
            if op == 'read' and lim is not None and self.rng.random() < .3:
                r = b.read_binary(lim)
            else:
                r = getattr(b, op)(*([] if lim is None and self.rng.random() < .5 else [lim]))
            out = list(r)
            for i in range(len(r)):
                if isinstance(r, bytearray):
                    r[i] ^= 255
            return out
        if op == 'check_remains':
            return [int(b.check_remains(n))]
        if op == 'at_end':
            return [int(b.at_end())]
        if op == 'len':
            return [len(b)]
        if op == 'getitem':
            r = b[n:o['m']]
            if o['m'] == n + 1 and n < len(b) and self.rng.random() < .5:
                return [b[n]]
            return list(r)
        if op == 'truncate':
            b.truncate(n)
            return []
        if op == 'read_ascii':
            return [ord(c) for c in b.read_ascii(lim)]
        if op == 'read_int':
            return [b.read_int(n, 'big' if o['e'] == '>' else 'little', bool(o['g']))]
        if op == 'read_binary':
            pre = o['e']
            return [int(x) for x in b.read_binary(n, pre + PY['i' if o['g'] else 'u', o['z']])]
        if op == 'read_array':
            a = b.read_array(n, self.dtype(o))
            out = [int(x) for x in a]
            if a.flags.writeable:
                a[...] = ~a
            return out
        if op == 'read_func':
            def f(x):
                if not o['g']:
                    raise ValueError('no')
                return list(x)
            return b.read_func(f, *([lim] if lim is not None else []))
        if op == 'read_struct':
            return self.tup(o, b.read_struct(self.struct(o)))
        if op == 'unpack':
            s = self.struct(o)
            if self.rng.random() < .5:
                return self.tup(o, s.unpack(bytes(o['b'])))
            return self.tup(o, s.unpack_file(io.BytesIO(bytes(o['b']) + b'\x01' * o['g']))
                            if len(o['b']) == s.size else s.unpack(bytes(o['b'])))
        if op == 'unpack_from':
            s, d = self.struct(o), bytes(o['b'])
            return self.tup(o, s.unpack_from(d, n) if n else s.unpack_from(d))
        if op == 'pack':
            vals = {}
            for k, v in o['vals'].items():
                f = [f for f in o['lay'] if f['n'] == k]
                vals[k] = bytes(v) if (f and f[0]['f'] == 's') else v[0]
            return list(self.struct(o).pack(**vals))
        if op == 'size':
            return [self.struct(o).size]
        raise RuntimeError(op)

    def event(self, o):
        out, r = call(self.apply, o)
        b = self.buf
        e = {**o, 'out': 'ok' if out == 'ok' else 'err', 'r': r if out == 'ok' else [], 'rest': list(b.get_next()),
             'length': len(b), 'all': list(b[:]),
             'offs': [b.offset_from(i) for i in range(self.marks)], 'tag': ''}
        if out != 'ok':
            e['why'] = repr(r)[:80]
        return e


def op(name, **kw):
    return {'op': name, 'n': 0, 'm': 0, 'z': 1, 'e': '<', 'g': 1, 'b': [], 'lay': [], **kw}


def layout(rng, conv=True):
    lay = []
    for name in rng.sample(['a', 'bc', 'd_e', 'f', 'g1', 'value', 'h'], rng.randint(1, 6)):
        f, z = rng.choice([*PY, ('s', rng.randint(1, 5)), ('s', 4)])
        k = ''
        if conv and rng.random() < .35:
            k = 'len' if f == 's' else rng.choice(['neg', 'twice'])
        if z == 4 and f != 's':
            k = ''      # the model's integers have 32 bits
        lay.append({'n': name, 'f': f, 'z': z, 'k': k})
        if rng.random() < .3:
            lay.append({'n': '', 'f': 'x', 'z': rng.randint(1, 4), 'k': ''})
    if rng.random() < .2:
        lay.insert(0, {'n': '', 'f': 'x', 'z': rng.randint(1, 4), 'k': ''})
    return lay


def data(rng, n):
    kind = rng.random()
    if kind < .4:
        return [rng.randrange(32, 127) for _ in range(n)]
    if kind < .5:
        return [rng.choice([0, 255, 128, 127]) for _ in range(n)]
    return [rng.randrange(256) for _ in range(n)]


def size(lay):
    return sum(f['z'] for f in lay)


def packing(rng):
    lay = layout(rng, False)
    vals = {}
    for f in lay:
        if not f['n']:
            continue
        z = f['z']
        if f['f'] == 's':
            vals[f['n']] = data(rng, rng.choice([z, z, max(0, z - 1), z + 2]))
        elif f['f'] == 'i':
            lim = 2 ** (8 * z - 1)
            vals[f['n']] = [rng.choice([0, -1, lim - 1, 1 - lim, rng.randrange(1 - lim, lim)])]
        else:
            lim = 2 ** (8 * z)
            vals[f['n']] = [rng.choice([0, 1, lim - 1, rng.randrange(lim)])]
    bad = rng.random()
    if bad < .12:
        vals.pop(rng.choice(sorted(vals)))
    elif bad < .2:
        vals['extra'] = [1]
    if not vals:
        vals['extra'] = [1]
    return op('pack', lay=lay, e=rng.choice('<>'), vals=vals)


def random_op(rng, r):
    left = len(r.buf)
    k = rng.choice(['read', 'get_next', 'skip', 'mark', 'jump', 'offset_from', 'splice', 'len',
                    'getitem', 'truncate', 'read_ascii', 'read_int', 'read_binary', 'read_array',
                    'read_func', 'read_struct', 'unpack', 'unpack_from', 'pack', 'size', 'at_end',
                    'check_remains', 'reset', 'clear_marks', 'new', 'mark', 'jump', 'read_array',
                    'read_struct', 'read_struct', 'read_binary'])
    n = rng.choice([0, 1, 2, 3, 5, 8])
    m = rng.randint(1, max(1, r.marks))
    e = rng.choice('<>')
    if k == 'new':
        if rng.random() < .7:
            k = 'mark'
        else:
            return op('new', b=data(rng, rng.choice([0, 1, 7, 30, 60])))
    if k in ('reset', 'clear_marks') and rng.random() < .6:
        k = 'jump'
    if k in ('read', 'get_next', 'read_ascii', 'read_func', 'skip'):
        return op(k, n=-1 if rng.random() < .1 else n, g=int(rng.random() < .7))
    if k == 'jump':
        return op(k, m=m + (rng.random() < .05), n=rng.choice([0, 0, 0, 1, 4, 9]))
    if k == 'offset_from':
        return op(k, m=m)
    if k == 'splice':
        return op(k, m=m, b=data(rng, rng.choice([0, 1, 6, 20])))
    if k == 'getitem':
        return op(k, n=n, m=n + rng.choice([0, 1, 1, 4]))
    if k == 'truncate':
        return op(k, n=rng.choice([0, 0, 1, 2, left, left + 1]))
    if k == 'check_remains':
        return op(k, n=rng.choice([n, len(r.buf.get_next())]))
    if k == 'read_int':
        n = rng.choice([1, 2, 3, 4])
        return op(k, n=n, e=e, g=1 if n == 4 else rng.randint(0, 1))
    if k in ('read_binary', 'read_array'):
        z = rng.choice([1, 2, 4])
        return op(k, n=rng.choice([1, 1, 2, 3, 4]), z=z, e=e,
                  g=1 if z == 4 or (k == 'read_binary' and z == 1) else rng.randint(0, 1))
    if k == 'read_struct':
        return op(k, lay=layout(rng), e=e)
    if k in ('unpack', 'unpack_from'):
        lay = layout(rng)
        off = rng.choice([0, 0, 1, 5]) if k == 'unpack_from' else 0
        z = size(lay) + off + rng.choice([0, 0, 0, 1, -1])
        return op(k, lay=lay, e=e, n=off, b=data(rng, max(0, z)), g=rng.randint(0, 1))
    if k == 'pack':
        return packing(rng)
    if k == 'size':
        return op(k, lay=layout(rng))
    return op(k)


def run(ctx):
    out = ctx.tmp('hist.json')
    ctx.model('MCTape', cfg=ctx.n('MCTape2.cfg', 'MCTape3.cfg'), env={'OUT': str(out)})
    hists = json.loads(out.read_text())
    if len(hists) > 4000:
        hists = ctx.rng.sample(hists, 4000)
    ses = []
    for h in hists:
        r = Runner(ctx)
        s = [r.event(op('new', b=[65, 66, 200, 67, 1])), r.event(op('mark'))]
        s += [r.event({**o, 'vals': {}} if 'vals' in o else o) for o in h]
        ses.append(s)
    for _ in range(ctx.n(250, 2500)):
        r = Runner(ctx)
        s = [r.event(op('new', b=data(ctx.rng, ctx.rng.choice([0, 3, 20, 40, 80]))))]
        for _ in range(ctx.rng.choice([5, 12, 25])):
            s.append(r.event(random_op(ctx.rng, r)))
        ses.append(s)
    ctx.judge('TapeTrace', ses, cfg='TapeTrace.cfg')
