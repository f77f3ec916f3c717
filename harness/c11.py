"""C11 moveout and delay times."""
import itertools
import kit
import layers


def run(ctx):
    ctx.model_check('LayersMC')
    cases = ctx.generate('LayersGen', num=ctx.pick(700, 20000))
    evs = list(itertools.chain.from_iterable(kit.pmap(ctx, layers.moveout, cases)))
    ctx.validate('LayersTrace', evs)
    ctx.sample(*[e for e in evs if e['op'] == 'delay'][:1])
    ctx.notes['traces_corrected'] = sum(len(e['traces']) for e in evs if e['op'] == 'move')
