#!/opt/venv/bin/python
"""Run one check: run.py PID [quick|thorough].  Exit 0 ok, 1 violation, 2 machinery error."""
import importlib
import os
from pathlib import Path
import sys
import tempfile
import traceback

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
os.environ['TZ'] = 'UTC'

from harness import core  # noqa: E402

DRIVERS = {
    'G01': 'gemfiles', 'G02': 'gemfiles', 'G03': 'gemfiles', 'G04': 'gemfiles',
    'G05': 'gemfiles', 'G13': 'profile', 'G14': 'profile', 'G22': 'profile', 'G24': 'profile', 'G06': 'gemread', 'G07': 'gemread', 'G08': 'gemread', 'G10': 'gemread', 'G20': 'gemread', 'G11': 'gemquery', 'G12': 'gemquery', 'G15': 'gemquery', 'G16': 'gemquery', 'G09': 'gemfiles', 'G17': 'gemfiles', 'G18': 'gemfiles', 'V02': 'vgread', 'V03': 'vgread', 'V05': 'vgread', 'V06': 'vgread', 'V01': 'vgwrite', 'V04': 'vgwrite', 'G19': 'failwrite', 'T01': 'tape', 'G21': 'geometry', 'T02': 'ordset', 'G23': 'meta', 'G25': 'objects', 'G26': 'valid', 'V07': 'vggroup',
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = core.Ctx(pid, tier, seed)
    try:
        import gempakio
        src = Path(gempakio.__file__).resolve()
        if Path(REPO).resolve() not in src.parents:
            raise core.MachineryError(f'gempakio imported from {src}, not {REPO}')
        mod = importlib.import_module('harness.' + DRIVERS[pid])
        mod.run(ctx)
        rc = core.finish(ctx)
    except core.MachineryError as e:
        print(f'ERROR property={pid}: {e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={pid}: unexpected exception in the machinery')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
