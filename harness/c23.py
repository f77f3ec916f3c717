"""C23 what a stream and its traces say about themselves."""
import warnings
import numpy as np
import obspy
from obspy import UTCDateTime as UTC
from rf.rfstream import RFStream, RFTrace
import kit
import mk


def build(t):
    data = np.arange(t['npts'])
    if t['masked'] and t['npts']:
        data = np.ma.masked_array(data, [True] + [False] * (t['npts'] - 1))
    base = UTC(0) - t['start'] / 1000. if t['zero'] else mk.T0
    h = {'network': '', 'station': '', 'location': '', 'channel': 'BH' + t['comp'], 'delta': t['dl'] / 1000.}
    if not t['bare']:
        h.update(network='XX', station='STA')
    h['starttime'] = UTC(0) if t['zero'] else mk.at(t['start'])
    if t['on']:
        h['onset'] = UTC(0) + (t['onset'] - t['start']) / 1000. if t['zero'] else mk.at(t['onset'])
    for k in ('type', 'phase'):
        if t[k]:
            h[k] = t[k]
    for k, name, f in (('mag', 'event_magnitude', 10.), ('dist', 'distance', 10.), ('baz', 'back_azimuth', 10.), ('pos', 'box_pos', 100.), ('slow', 'slowness', 100.)):
        if t[k] >= 0:
            h[name] = t[k] / f
    if t['mv']:
        h['moveout'] = t['mv']
    return RFTrace(data=data, header=h)


def observe(st):
    o = {'type': '?', 'method': '?', 'warned': False, 'text': [], 'plain': [], 'kept': True, 'exc': ''}
    before = mk.snapshot(st)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            ty, me = st.type, st.method
            o['type'] = '' if ty is None else str(ty)
            o['method'] = '' if me is None else str(me)
            o['warned'] = len(w) > 0
        o['text'] = [str(tr) for tr in st]
        o['plain'] = ['onset' in tr.stats or str(tr) == obspy.Trace.__str__(tr) for tr in st]
        assert isinstance(st, RFStream)
        o['kept'] = mk.same(st, before, True, ())
    except kit.CaseTimeout:
        raise
    except Exception as ex:
        if kit.code_frame(ex) is None:
            raise
        o['exc'] = kit.exc_name(ex) + ' ' + str(ex)[:100]
    return o


def apply(st, op):
    o = op['o']
    tr = st[op['i'] - 1] if op['i'] <= len(st) else None
    if o == 'type':
        st.type = op['v']
    elif o == 'method':
        st.method = op['v']
    elif o == 'hdr' and tr is not None:
        tr.stats[op['n']] = op['v']
    elif o == 'del' and tr is not None:
        tr.stats.pop(op['n'], None)
    elif o == 'add':
        st.append(build(op['tr']))
    elif o == 'pop' and tr is not None:
        st.pop(op['i'] - 1)
    elif o == 'copy':
        st = st.copy()
    elif o == 'slice':
        st = st[op['j']:op['j'] + op['i']]
    elif o == 'wrap':
        st = RFStream(list(st))
    elif o == 'obspy':
        st = RFStream(obspy.Stream([obspy.Trace(tr.data, tr.stats) for tr in st]))
    return st


def case(g):
    for i, op in enumerate(g['ops']):
        op['tr'] = g['more'][i]
    st = RFStream([build(t) for t in g['tr']])
    obs = [observe(st)]
    for op in g['ops']:
        st = apply(st, op)
        obs.append(observe(st))
    return {'tr': g['tr'], 'ops': g['ops'], 'obs': obs}


def run(ctx):
    ctx.model_check('View', must_cover=('Add', 'Remove', 'SetType', 'SetMethod'))
    for f, inv in (('first', 'Agreed'), ('one', 'ReadBack'), ('all', 'Agreed'), ('case', 'Methods')):
        ctx.refute('View', 'ViewBad_' + f, inv)
    cases = ctx.generate('ViewGen', num=ctx.pick(1200, 20000), depth=6)
    evs = kit.pmap(ctx, case, cases, limit=30)
    ctx.validate('ViewTrace', evs)
    ctx.notes['states of streams'] = sum(len(e['obs']) for e in evs)
    ctx.notes['summaries'] = sum(len(o['text']) for e in evs for o in e['obs'])
    ctx.sample(*[t for e in evs[:4] for t in e['obs'][-1]['text'][:1]])
