"""Builders and projections shared by the drivers (no expected values in here)."""
import warnings
import numpy as np
from obspy import UTCDateTime as UTC
import rf
from rf.rfstream import RFTrace

T0 = UTC('2011-02-25T13:15:38')
NS0 = T0._ns
BADTICK = 1999999999


def at(ms):
    return UTC(ns=NS0 + int(ms) * 1000000)


def ms(t):
    """Time as integer milliseconds after T0; BADTICK if it is not one."""
    d = t._ns - NS0
    if d % 1000000 or abs(d) > 1500000000 * 10**6:
        return BADTICK
    return d // 1000000


def us(t):
    d = t._ns - NS0
    if d % 1000 or abs(d) > 1500000000 * 10**3:
        return BADTICK
    return d // 1000


def trace(data, delta_ms=1000, start=0, onset=None, id='XX.STA..BHZ', **header):
    net, sta, loc, cha = id.split('.')
    h = {'network': net, 'station': sta, 'location': loc, 'channel': cha,
         'starttime': at(start), 'delta': delta_ms / 1000.}
    if onset is not None:
        h['onset'] = at(onset)
    h.update(header)
    return RFTrace(data=np.array(data), header=h)


def ints(a):
    """Samples that have to be integers (codes); a value that is none becomes BADTICK."""
    out = []
    for x in np.asarray(a).tolist():
        if isinstance(x, complex):
            x = x.real
        if x != x or abs(x) > 1e9 or abs(x - round(x)) > 1e-6:
            out.append(BADTICK)
        else:
            out.append(int(round(x)))
    return out


def snapshot(st):
    """Deep, comparable copy of a stream (order, ids of the trace objects, data, headers)."""
    return [(id(tr), tr.data.copy(), {k: (list(v) if isinstance(v, list) else
                                          dict(v) if hasattr(v, 'items') else v)
                                      for k, v in tr.stats.items()}) for tr in st]


def same(st, snap, ident=True, skip=()):
    if len(st) != len(snap):
        return False
    for tr, (i, d, h) in zip(st, snap):
        if ident and id(tr) != i:
            return False
        if tr.data.shape != d.shape or not np.array_equal(tr.data, d):
            return False
        if {k: v for k, v in tr.stats.items() if k not in skip} != {k: v for k, v in h.items() if k not in skip}:
            return False
    return True
