"""C05 writing leaves memory and global state alone."""
import glob
import hashlib
import os
import resource
import signal
import tempfile
import numpy as np
import obspy
import obspyh5
import rf
import kit
import mk
import c04

INDEX = ['standard', 'flat', 'waveforms/{network}.{station}/{channel}_{starttime}_{npts}']


def sha(x):
    return hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:16]


def digest(tr):
    d = tr.data
    raw = (d.filled(0).tobytes(), np.ma.getmaskarray(d).tobytes()) if isinstance(d, np.ma.MaskedArray) else d.tobytes()
    heads = [(f, repr(tr.stats.get(f))) for f in c04.FIELDS]
    own = [(f, repr(tr.stats.get(f))) for f in ('network', 'station', 'location', 'channel', 'starttime', 'delta', 'npts', 'calib', 'processing', 'custom')]
    return sha((id(tr), raw, str(d.dtype), heads, own))


def memory(st, objs):
    """One digest per trace; the list itself has to keep the traces and their order."""
    return [digest(tr) for tr in st]


def content(d, fmt):
    files = sorted(glob.glob(os.path.join(d, '**'), recursive=True))
    files = [f for f in files if os.path.isfile(f)]
    if fmt in ('SAC', 'Q'):
        return sha([(os.path.relpath(f, d), open(f, 'rb').read()) for f in files])
    out = []
    for f in files:
        for tr in obspy.read(f):
            out.append((os.path.relpath(f, d), tr.id, str(tr.stats.starttime), tr.stats.delta, str(tr.data.dtype), tr.data.tolist(), [(k, repr(tr.stats.get(k))) for k in c04.FIELDS + ('custom',)]))
    return sha(sorted(out, key=repr))


def call(obj, d, w, fault, fmt):
    name = fmt.lower() if w['low'] else fmt
    kw = {'sh_compat': True} if w['compat'] and fmt == 'Q' else {}
    fn = os.path.join(d, 'file')
    if fault == 'nodir':
        fn = os.path.join(d, 'missing', 'file')
    fn += {'SAC': '.SAC', 'H5': '.h5'}.get(fmt, '')
    if fault == 'badkwarg':
        kw['nonsense'] = {'a': 1}
    if fault == 'badmode':
        kw['mode'] = 'x'
    if fault == 'override':
        kw.update(mode='a', override='raise')
    if fault == 'badformat':
        name = 'NONSENSE'
    obj.write(fn, name, **kw)


def case(g):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    c = g['c']
    n = c['n']
    trs = []
    for i in range(n):
        h = {}
        for j, f in enumerate(c04.FIELDS):
            if c['nheads'] == 2 or c['nheads'] == 1 and j % 3 == i % 3:
                h[f] = c04.value(f, 0 if f in c04.TEXT else -600000 + i if f == 'event_time' else 125 * (j + 8 * i), 0)
        h.pop('type', None)
        if c['type'] != 'none':
            h['type'] = c['type']
        if c['type'] == 'rf' or c['nheads'] == 2:
            h['event_time'] = mk.at(-600000 - 1000 * i)
        if c['type'] == 'profile':
            h['box_pos'] = .5 + i
        data = [np.arange(c['len']) * 1. + i, np.arange(c['len']).astype('float32') - i, np.arange(c['len']) * (i + 1)][c['dtype']]
        tr = mk.trace(data, 100, 10000 * i + c['off'], id='XX.STA%d.%s.BH%s' % (i % 2, c['loc'], 'ZNELQ'[i]), custom='text %d' % i)
        for f in c04.TIMES:     # finer than any of the formats
            if f in h and c['sub']:
                h[f] += c['sub'] * (7 if f == 'event_time' else 1) % 1000 * 1e-6
        tr.stats.update(h)
        if c['hist']:
            tr.stats.processing = ['entry %d' % k for k in range(c['hist'])]
        trs.append(tr)
    st = rf.RFStream(trs)
    clean = st.copy()
    old = obspyh5._INDEX
    evs = []
    try:
        obspyh5.set_index(INDEX[c['index']])
        evs.append({'op': 'begin', 'mem': memory(st, trs), 'index': obspyh5._INDEX})
        for w, fault in zip(g['w'], g['fault']):
            fmt = w['fmt']
            k = w['k'] - 1
            keep = None
            bad = {'badheader': {'SAC': ('event_time', 'x'), 'Q': ('event_time', 'x'), 'H5': ('event_time', 'x')}.get(fmt), 'badcomment': ('type', {1j: object()})}.get(fault)
            if bad:
                keep = st[k].stats.get(bad[0])
                st[k].stats[bad[0]] = bad[1]
            if fault in ('baddtype', 'masked'):
                keep = st[k].data
                st[k].data = keep.astype(complex) if fault == 'baddtype' else np.ma.masked_greater(keep.astype(float), 1)
            if keep is not None or bad:
                evs.append({'op': 'edit', 'mem': memory(st, trs), 'index': obspyh5._INDEX})
            e = {'op': 'write', 'fault': fault, 'fmt': fmt, 'exc': '', 'content': '', 'control': '', 'one': w['one'], 'k': w['k'], 'n': n}
            with tempfile.TemporaryDirectory() as d:
                if fault == 'isdir':
                    os.makedirs(os.path.join(d, {'SAC': 'file%02d.SAC' % (k + 1) if n > 1 and not w['one'] else 'file.SAC', 'Q': 'file.Q' + ('BN' if k % 2 else 'HD'), 'H5': 'file.h5'}[fmt]))
                if fault in ('override', 'badmode'):
                    rf.RFStream([clean[k].copy()]).write(os.path.join(d, 'file.h5'), 'H5')
                try:
                    if fault == 'fsize':
                        resource.setrlimit(resource.RLIMIT_FSIZE, (w['fsize'], resource.RLIM_INFINITY))
                    try:
                        call(st[k] if w['one'] else st, d, w, fault, fmt)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                except kit.CaseTimeout:
                    raise
                except Exception as ex:
                    e['exc'] = kit.exc_name(ex)
                e['mem'], e['index'] = memory(st, trs), obspyh5._INDEX
                if not e['exc'] and fault in ('none', 'fsize'):
                    e['content'] = content(d, fmt)
            if not e['exc'] and fault in ('none', 'fsize'):
                with tempfile.TemporaryDirectory() as d:
                    fresh = clean.copy()
                    obspyh5.set_index(INDEX[c['index']])
                    call(fresh[k] if w['one'] else fresh, d, w, 'none', fmt)
                    e['control'] = content(d, fmt)
            evs.append(e)
            obspyh5.set_index(e['index'])
            if bad:
                if keep is None:
                    st[k].stats.pop(bad[0], None)
                else:
                    st[k].stats[bad[0]] = keep
            elif keep is not None:
                st[k].data = keep
            if keep is not None or bad:
                evs.append({'op': 'edit', 'mem': memory(st, trs), 'index': obspyh5._INDEX})
    finally:
        obspyh5._INDEX = old
    return evs


def run(ctx):
    ctx.model_check('Writer', must_cover=('Call', 'PrepareTrace', 'WriteTrace', 'Return', 'Fail'))
    for b in ('success', 'outside'):
        ctx.refute('Writer', 'WriterBad_' + b, 'Inv')
    cases = ctx.generate('WriterGen', num=ctx.pick(1200, 15000), depth=8)
    evs = []
    for i, r in enumerate(kit.pmap(ctx, case, cases, limit=60)):
        for e in r or []:
            e['g'] = i
            evs.append(e)
    ctx.validate('WriterTrace', evs, key=lambda e: e['g'])
    import collections
    n = collections.Counter((e['fault'], 'failed' if e['exc'] else 'wrote') for e in evs if e['op'] == 'write')
    ctx.notes['faults'] = {'%s: %s' % k: v for k, v in sorted(n.items())}
    assert sum(v for k, v in n.items() if k[1] == 'failed' and k[0] != 'none') > 100
    ctx.sample(*[{k: e[k] for k in ('fmt', 'fault', 'exc', 'k', 'n')} for e in evs if e['op'] == 'write'][:6])
    ctx.assumptions.append('write errors of the operating system are a missing or occupied path and a file size limit (RLIMIT_FSIZE; not for HDF5, whose library crashes on it)')
