"""Shared machinery: scratch directories, TLC runs, trace judging, verdicts, evidence.

Every check is a subclass-free function ``run(ctx)`` in a driver module which uses
``ctx.model(...)`` (TLC on a specification model), ``ctx.tla_eval(...)`` (TLC computing
cases/files from a specification) and ``ctx.judge(...)`` (TLC validating a recorded trace).
"""
import atexit
import concurrent.futures as cf
import json
import os
from pathlib import Path
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
KNOWN = VERIF / 'known_findings.json'


class MachineryError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f'{pid}-{seed}')
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f'verif-{pid}-'))
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)
        self.states = self.transitions = self.events = self.sessions = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.violations = []       # dicts: clause, event, session
        self._n = 0

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def tmp(self, name):
        self._n += 1
        return self.scratch / f'{self._n:04d}-{name}'

    # --- TLC ------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers=1, heap='2g', timeout=800, extra=()):
        meta = self.tmp('meta')
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-cp', CP, 'tlc2.TLC', '-metadir', str(meta), '-noGenerateSpecTE',
               '-workers', str(workers), '-nowarning', '-config', str(cfg), *extra, module]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout + p.stderr

    def model(self, module, cfg=None, env=None, workers=8, heap='6g', timeout=800):
        """Exhaustively check a specification model; a failure is a machinery error."""
        cfg = cfg or f'{module}.cfg'
        rc, out = self._tlc(module, cfg, env, workers, heap, timeout)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
        if rc != 0 or not m:
            raise MachineryError(f'model {module}/{cfg} failed rc={rc}\n{out[-4000:]}')
        self.transitions += int(m[1])
        self.states += int(m[2])
        self.notes.setdefault('models', []).append(
            {'module': module, 'cfg': str(cfg), 'generated': int(m[1]), 'distinct': int(m[2])})
        return out

    def tla_eval(self, module, inputs=None, cfg='Eval.cfg', timeout=800, chunks=1, env=None):
        """Evaluate module (reads IOEnv.IN, writes IOEnv.OUT); returns the output lines."""
        inputs = list(inputs) if inputs is not None else None
        parts = [inputs] if inputs is None or chunks <= 1 else \
            [inputs[k::chunks] for k in range(chunks)]
        parts = [p for p in parts if p is None or p]

        def one(part):
            fin, fout = self.tmp('in.ndjson'), self.tmp('out.ndjson')
            if part is not None:
                write_nd(fin, part)
            rc, out = self._tlc(module, cfg, {**(env or {}), 'IN': str(fin), 'OUT': str(fout)},
                                1, '3g', timeout)
            if rc != 0 or not fout.exists():
                raise MachineryError(f'eval {module} failed rc={rc}\n{out[-4000:]}')
            r = read_nd(fout)
            fin.unlink(missing_ok=True)
            fout.unlink(missing_ok=True)
            return r

        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, parts))
        if len(res) == 1:
            return res[0]
        out = [None] * sum(map(len, res))
        for k, r in enumerate(res):
            out[k::len(res)] = r
        return out

    def judge(self, module, sessions, cfg='Trace.cfg', clauses=None, timeout=850, jobs=8,
              env=None):
        """Validate sessions (lists of events) with a trace specification.

        clauses: predicate on clause names (default: those starting with the property id).
        """
        clauses = clauses or (lambda c: c.startswith(self.pid))
        sessions = [s for s in sessions if s]
        if not sessions:
            raise MachineryError('no sessions to judge')
        # balance by size
        jobs = max(1, min(jobs, len(sessions)))
        sized = sorted(range(len(sessions)), key=lambda i: -len(json.dumps(sessions[i])))
        bins = [[] for _ in range(jobs)]
        loads = [0] * jobs
        for i in sized:
            k = loads.index(min(loads))
            bins[k].append(i)
            loads[k] += len(json.dumps(sessions[i])) + 200
        results = []

        def one(idx):
            idx = sorted(idx)
            found = []
            while idx:
                evs, owner = [], []
                for i in idx:
                    for j, e in enumerate(sessions[i]):
                        evs.append({**e, 'first': 1 if j == 0 else 0})
                        owner.append((i, j))
                ftr, fout = self.tmp('trace.ndjson'), self.tmp('verdict.json')
                write_nd(ftr, evs)
                rc, out = self._tlc(module, cfg, {**(env or {}), 'TRACE': str(ftr),
                                                  'OUT': str(fout)}, 1, '3500m', timeout)
                if fout.exists():
                    v = json.loads(fout.read_text())
                    if v['n'] != len(evs):
                        raise MachineryError(f'judge {module}: consumed {v["n"]}/{len(evs)}')
                    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
                    st = (int(m[1]), int(m[2])) if m else (0, 0)
                    for b in v['bad']:
                        i, j = owner[b['at'] - 1]
                        found.append((i, j, b['clause']))
                    return found, st, len(evs)
                # The specification could not even evaluate an event: the trace is not one
                # of its behaviours.  Identify the event, report it, continue after it.
                if 'OutOfMemory' in out or 'Parsing' in out and 'error' in out.lower() \
                        and 'Finished computing initial' not in out:
                    raise MachineryError(f'judge {module} failed rc={rc}\n{out[-4000:]}')
                ls = re.findall(r'^/?\\?/?\s*l = (\d+)', out, re.M) or \
                    re.findall(r'\bl = (\d+)', out)
                if not ls:
                    raise MachineryError(f'judge {module} failed rc={rc}\n{out[-6000:]}')
                at = max(map(int, ls))
                i, j = owner[at - 1]
                self.notes.setdefault('spec_eval_errors', []).append(
                    re.sub(r'\s+', ' ', out[out.find('Error:'):][:600]))
                found.append((i, j, self.pid + ':not-a-behaviour'))
                idx = [k for k in idx if k != i]
            return found, (0, 0), 0

        with cf.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, [b for b in bins if b]))
        for found, st, nev in results:
            self.transitions += st[0]
            self.states += st[1]
            self.events += nev
            for i, j, c in found:
                if clauses(c):
                    self.violations.append({'clause': c, 'event': j, 'session': sessions[i]})
        self.sessions += len(sessions)
        if not self.samples:
            self.samples = [trim(sessions[0][:3])]
        return results

    def violate(self, clause, session):
        self.violations.append({'clause': clause, 'event': len(session) - 1,
                                'session': session})


def trim(x, n=12):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in list(x.items())[:30]}
    if isinstance(x, list):
        return [trim(v, n) for v in x[:n]] + (['...'] if len(x) > n else [])
    return x


def write_nd(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')


def read_nd(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def known_findings(pid):
    if not KNOWN.exists():
        return []
    return [k for k in json.loads(KNOWN.read_text()) if k['property'] == pid
            and k.get('status') == 'known']


def finish(ctx, level='model_checking'):
    """Print verdicts, write evidence, return the exit code."""
    known = known_findings(ctx.pid)
    real, hit = [], set()
    for v in ctx.violations:
        tag = v.get('tag') or (v['session'][0].get('tag') if v['session'] else None)
        m = [k for k in known if k['clause'] == v['clause'] and k.get('tag') == tag]
        if m:
            hit.add(m[0]['what'])
        else:
            real.append(v)
    for k in known:
        if k['what'] in hit or k.get('always'):
            print(f'KNOWN-FINDING: property={ctx.pid} {k["what"]}')
    ev = {
        'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
        'coverage': {
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.sessions,
            'events_validated': ctx.events,
            'samples': ctx.samples or ['-'], **ctx.notes,
        },
        'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(real),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{ctx.pid}.json').write_text(json.dumps(ev, indent=1))
    if real:
        d = VERIF / 'evidence' / 'replay'
        d.mkdir(exist_ok=True)
        by = {}
        for v in real:
            by.setdefault(v['clause'], []).append(v)
        path = d / f'{ctx.pid}-{ctx.tier}-{ctx.seed}.json'
        path.write_text(json.dumps([
            {'clause': c, 'count': len(vs), 'first': vs[0]} for c, vs in by.items()], indent=1))
        for c, vs in by.items():
            print(f'  violated clause {c}: {len(vs)} event(s)')
        print(f'VIOLATION property={ctx.pid} replay={path}')
        return 1
    print(f'OK property={ctx.pid} tier={ctx.tier} sessions={ctx.sessions} '
          f'events={ctx.events} states={ctx.states} wall={ev["wall_s"]}s')
    return 0
