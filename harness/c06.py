"""C06 relative trimming and slicing."""
import numpy as np
import rf
import kit
import mk


def proj(tr):
    return {'no': tr.stats.no, 'start': mk.ms(tr.stats.starttime), 'delta': int(round(tr.stats.delta * 1000)),
            'data': mk.ints(np.ma.filled(tr.data, -99)), 'onset': mk.ms(tr.stats.onset)}


def bound(b):
    return None if b['k'] == 'none' else b['v'] / 1000. if b['k'] == 'rel' else mk.at(b['v'])


HEAD = ('network', 'station', 'location', 'channel', 'delta', 'no', 'event_time', 'slowness', 'moveout')


def one(case):
    i, c = case
    st = rf.RFStream([mk.trace(k * 100 + np.arange(t['n']), t['delta'], t['start'], t['onset'],
                               id='XX.S%d.0%d.BH%s' % (k // 3, k % 2, 'ZNE'[k % 3]), no=k + 1,
                               event_time=mk.at(k), slowness=6.4 + k, moveout='Ps')
                      for k, t in enumerate(c['traces'])])
    evs = []
    for n, op in enumerate(c['ops']):
        req = {k: op[k] for k in ('s', 'e', 'ref', 'refv', 'pad', 'keep', 'nearest', 'fill')}
        ev = {'op': op['op'], 'req': req, 'pre': [proj(tr) for tr in st], 'post': [], 'exc': '', 'kept': True,
              'inplace': True, 'headers': True, 'case': i}
        heads = {tr.stats.no: [tr.stats[h] for h in HEAD] for tr in st}
        ref = mk.at(op['refv']) if op['ref'] == 'abs' else op['ref']
        kw = {} if op['nearest'] else {'nearest_sample': False}
        if op['pad']:
            kw.update(pad=True, fill_value=op['fill'])
        snap = mk.snapshot(st)
        objs = {id(tr) for tr in st}
        try:
            if op['op'] == 'trim':
                out = st.trim2(bound(op['s']), bound(op['e']), ref, **kw)
                ev['inplace'] = out is st and all(id(tr) in objs for tr in st)
            else:
                if op['keep']:
                    kw['keep_empty_traces'] = True
                out = st.slice2(bound(op['s']), bound(op['e']), reftime=ref, **kw)
                ev['kept'] = mk.same(st, snap) and out is not st and type(out) is rf.RFStream
        except Exception as ex:
            ev['exc'] = kit.exc_name(ex)
            evs.append(ev)
            break
        ev['post'] = [proj(tr) for tr in out]
        ev['headers'] = all([tr.stats[h] for h in HEAD] == heads[tr.stats.no] for tr in out)
        evs.append(ev)
        if op['op'] == 'trim' or (i + n) % 2:
            st = out
        if any(len(tr) == 0 for tr in st) or len(st) == 0:
            break
    return evs


def run(ctx):
    ctx.model_check('Window', must_cover=('Trim',))
    cases = ctx.generate('WindowGen', num=ctx.pick(3000, 60000))
    evs = sum(kit.pmap(ctx, one, enumerate(cases)), [])
    ctx.validate('WindowTrace', evs)
    ctx.sample(*evs[:2])
    ctx.notes['events_dropping_traces'] = sum(len(e['post']) < len(e['pre']) for e in evs)
    ctx.notes['events_cutting_samples'] = sum(
        sum(len(t['data']) for t in e['post']) not in (0, sum(len(t['data']) for t in e['pre'])) for e in evs)
