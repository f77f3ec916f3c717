"""C13 piercing points."""
import itertools
import kit
import layers


def run(ctx):
    ctx.model_check('LayersMC')
    cases = ctx.generate('LayersGen', num=ctx.pick(1500, 30000))
    evs = list(itertools.chain.from_iterable(kit.pmap(ctx, layers.ppoints, cases)))
    ctx.validate('LayersTrace', evs)
    ctx.sample(*[e for e in evs if e['op'] == 'pp' and not e['exc']][:1])
    ctx.notes['refused_depths'] = sum(e['exc'] != '' for e in evs)
