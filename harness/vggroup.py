"""V07: groups of VGF elements, judged against VGGroup.tla."""
import json

from .lib import call


class Fake:
    """Stands for an element: what matters of it is its group."""

    def __init__(self, t, n):
        self.group_type, self.group_number = t, n


def element(rng, t, n):
    c = rng.randrange(3)
    if c == 0:
        return Fake(t, n)
    from gempakio.encode import vgf as ve
    if c == 1:
        x = ve.Line([-100.0, -99.0], [40.0, 41.0], 5, 1, 0)
    else:
        x = ve.Marker(-100.0, 40.0, 3, 5)
    x.group_type, x.group_number = t, n
    return x


def see(g, ids):
    def number(x):
        return -1 if x is None else int(x)

    def members(xs):
        return [ids[id(x)] for x in xs]
    return {'t': number(g.group_type), 'n': number(g.group_number), 'size': int(g.group_size),
            'iter': members(g), 'els': members(g.elements)}


def replay(rng, hist):
    from gempakio.decode.vgf import Group
    gs, ids, keep, ev = [Group(), Group()], {}, [], []
    for i, h in enumerate(hist):
        x = element(rng, h['t'], h['n'])
        keep.append(x)
        ids[id(x)] = i + 1
        st, _ = call(gs[h['g'] - 1].add_element, x)
        ev.append({'ev': 'add', 'id': i + 1, **h, 'out': st, 'tag': 'group', 'seen': [see(g, ids) for g in gs]})
    return ev


def run(ctx):
    rng = ctx.rng
    f = ctx.tmp('hist.ndjson')
    ctx.model('MCVGGroup', 'MCVGGroup3.cfg' if not ctx.thorough() else 'MCVGGroup4.cfg', env={'OUT': str(f)})
    hs = [json.loads(x) for x in f.read_text().splitlines() if x.strip()]
    ses = [replay(rng, h) for h in hs]
    for _ in range(ctx.n(400, 8000)):
        ts, ns = rng.sample(range(256), 2), rng.sample(range(10 ** 6), 2)
        q = rng.random() * .4
        ses.append(replay(rng, [{'g': rng.choice([1, 2]), 't': ts[rng.random() < q], 'n': ns[rng.random() < q]}
                                for _ in range(rng.randrange(1, 14))]))
    ctx.judge('VGGroupTrace', ses, cfg='VGGroupTrace.cfg')
