#!/usr/bin/env python
"""check.py <property> [quick|thorough]   exit 0 held / 1 VIOLATION / 2 machinery error."""
import os
import sys

_ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
        'TZ': 'UTC', 'LC_ALL': 'C.UTF-8'}
PY = '/opt/venv/bin/python'


def main():
    if os.environ.get('RFCHECK_CHILD') != '1':
        env = dict(os.environ)
        env.update(_ENV)
        env['RFCHECK_CHILD'] = '1'
        # hash randomisation differs between runs of a user; one fixed value keeps runs repeatable
        env.setdefault('PYTHONHASHSEED', '0')
        os.execve(PY, [PY, '-W', 'ignore'] + sys.argv, env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    repo = os.environ.get('RF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import importlib
    import shutil
    import tempfile
    import traceback
    import kit
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ctx = kit.Ctx(prop, tier, seed)
    mpl = os.path.join(ctx.work, 'mpl')
    os.makedirs(mpl)
    os.environ['MPLCONFIGDIR'] = mpl
    os.chdir(ctx.work)
    tempfile.tempdir = ctx.work
    try:
        import rf
        if os.path.dirname(os.path.dirname(os.path.abspath(rf.__file__))) != os.path.abspath(repo):
            raise kit.MachineryError('rf is imported from %s, not from %s' % (rf.__file__, repo))
        mod = importlib.import_module(prop.lower())
        try:
            mod.run(ctx)
        except Exception as ex:
            if isinstance(ex, kit.MachineryError) or kit.code_frame(ex) is None:
                raise
            ctx.bad.append(('driver', {'exc': kit.exc_name(ex), 'message': str(ex)[:300],
                                       'traceback': traceback.format_exc()[-2500:]},
                            ['code-raised-on-a-valid-call']))
        rc = kit.finish(ctx, extra=getattr(mod, 'EXTRA', None))
    except kit.MachineryError as ex:
        print('ERROR %s: %s' % (prop, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir('/')
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
