"""C02 component grouping."""
import numpy as np
from obspy import Stream, UTCDateTime as UTC
import rf
from rf.rfstream import RFTrace
import kit

# id without its component character; neighbours differ in exactly one part
PREFIX = {'a': ('XX', 'STA', '', 'BH'), 'b': ('XX', 'STA', '00', 'BH'), 'c': ('XX', 'STB', '', 'BH'),
          'd': ('XY', 'STA', '', 'BH'), 'e': ('XX', 'STA', '', 'HH')}
T0 = UTC('2011-02-25T13:15:38.169539Z')
KEYS = {'onset': [T0, T0 + 1e-6, T0 + 86400], 'event_time': [T0, T0 + 0.4, T0 - 1],
        'starttime': [T0, T0 + 1e-6, T0 + 1], 'event_id': ['smi:local/a', 'smi:local/ab', 'smi:local/b'],
        'slowness': [6.4, 6.4000001, 7], 'box_pos': [1, 2, -1]}
KINDS = sorted(KEYS)


def make(t, kind):
    net, sta, loc, band = PREFIX[t['p']]
    h = {'network': net, 'station': sta, 'location': loc, 'channel': band + t['c']}
    for kd in KINDS:
        h[kd] = KEYS[kd][t['k'] if kd == kind else 0]
    return h


def one(case):
    i, c = case
    kind = KINDS[i % len(KINDS)]
    cls = Stream if i % 7 == 3 else rf.RFStream
    trs = [RFTrace(data=np.arange(3.) + j, header=make(t, kind)) for j, t in enumerate(c['stream'])]
    st = cls(trs)
    before = [(id(tr), dict(tr.stats), tr.data.copy()) for tr in st]
    sizes = c['sizes']
    if len(sizes) == 0:
        arg = None
    elif len(sizes) == 1 and i % 2:
        arg = sizes[0]
    else:
        arg = tuple(sizes)
    ev = {'stream': c['stream'], 'usekey': c['usekey'], 'sizes': sizes, 'kind': kind, 'i': i,
          'groups': [], 'again': [], 'len': -1, 'cls': True, 'kept': True, 'exc': ''}
    num = {id(tr): j + 1 for j, tr in enumerate(trs)}
    try:
        it = rf.IterMultipleComponents(st, key=kind if c['usekey'] else None, number_components=arg)
        gs = list(it)
        ev['groups'] = [[num.get(id(tr), 0) for tr in g] for g in gs]
        ev['len'] = len(it)
        ev['again'] = [[num.get(id(tr), 0) for tr in g] for g in it]
        ev['cls'] = all(type(g) is cls for g in gs)
        ev['kept'] = len(st) == len(before) and all(
            id(tr) == a and dict(tr.stats) == b and np.array_equal(tr.data, d)
            for tr, (a, b, d) in zip(st, before))
    except Exception as ex:
        ev['exc'] = kit.exc_name(ex)
    return ev


def run(ctx):
    ctx.model_check('Grouping', must_cover=('Append1', 'Put', 'Filter'))
    cases = ctx.generate('GroupingGen')
    cases += ctx.generate('GroupingGen', num=ctx.pick(2500, 30000), depth=40, cfg='GroupingSim')
    evs = kit.pmap(ctx, one, enumerate(cases))
    ctx.sample(*[e for e in evs if len(e['groups']) > 2][:2])
    ctx.validate('GroupingTrace', evs)
    ctx.notes['cases_with_several_groups'] = sum(len(e['groups']) > 1 for e in evs)
