"""Helpers shared by the drivers: safe calls into the library and projections of Python
objects to the integers and byte codes the specifications work with."""
import contextlib
import logging
import math
import signal
import struct
import warnings

import numpy as np

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)

NOKEY = -99999
MISSV = -2000000000
MISSBITS = -971228160
BIG = 2147483000


class Hang(BaseException):
    pass


@contextlib.contextmanager
def deadline(seconds):
    def on_alarm(_s, _f):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *a, limit=20, **k):
    """Call the library: returns ('ok', value) or ('err', exception) or ('timeout', None)."""
    try:
        with deadline(limit), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'ok', fn(*a, **k)
    except Hang:
        return 'timeout', None
    except Exception as e:   # noqa: BLE001
        return 'err', e


def codes(s):
    if isinstance(s, bytes):
        return list(s)
    if not isinstance(s, str):
        return [255, 255]
    return list(s.encode('utf-8', 'surrogateescape'))


def bits(x):
    """Signed float32 bit pattern of a number; a value float32 does not hold gives 2^31-1."""
    try:
        with np.errstate(all='ignore'):
            f = np.float32(x)
        if math.isnan(f):
            return MISSBITS
        return struct.unpack('<i', struct.pack('<f', f))[0]
    except Exception:   # noqa: BLE001
        return 2147483647


def unbits(b):
    return np.float32(struct.unpack('<f', struct.pack('<i', b))[0])


def rawbits(x):
    """Like bits but exact: a Python float that is not a float32 value is not accepted."""
    try:
        f = float(x)
        if math.isnan(f):
            return MISSBITS
        with np.errstate(all='ignore'):
            g = float(np.float32(f))
        return bits(f) if g == f else 2147483646
    except Exception:   # noqa: BLE001
        return 2147483647


def toi(x, scale=1):
    """Number -> integer (scaled, rounded, clamped)."""
    try:
        v = float(x) * scale
        if math.isnan(v):
            return -BIG
        return int(max(-BIG, min(BIG, round(v))))
    except Exception:   # noqa: BLE001
        return -BIG - 1


def exact_i(x, scale=1):
    """As toi, but values that are not (nearly) integral are reported as -BIG-2."""
    try:
        v = float(x) * scale
        r = round(v)
        if abs(v - r) > 1e-6 * max(1, abs(v)):
            return -BIG - 2
        return int(max(-BIG, min(BIG, r)))
    except Exception:   # noqa: BLE001
        return -BIG - 1


def dt5(d):
    """datetime -> [y, m, d, H, M] (seconds must be 0)."""
    try:
        if d.second or d.microsecond:
            return [1, 1, 1, 0, 0]
        return [d.year, d.month, d.day, d.hour, d.minute]
    except Exception:   # noqa: BLE001
        return [1, 1, 1, 0, 0]


def words(b):
    n = len(b) // 4
    return list(struct.unpack(f'<{n}i', b[:4 * n]))
