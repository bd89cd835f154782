#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decide one property.
exit 0: it held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import os, sys, json, argparse, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import lib, engine

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop = a.prop.upper()
    mod = importlib.import_module('props.' + prop.lower())
    ctx = engine.Ctx(prop, a.tier, a.seed)
    try:
        lib.build()
        if a.replay:
            rep = json.load(open(a.replay))
            if rep.get('kind') == 'csem':
                c = engine.Case(rep['source'], rep['cfgs'], [rep['args']], rep.get('note', ''), rep.get('spec_source'), rep.get('files'))
                engine.check_cases(ctx, [c], log=prop == 'C19')
            elif rep.get('kind') == 'reject':
                engine.check_rejected(ctx, [(rep['note'], rep['source'], rep.get('files') or {})], [rep['cfgs']])
            elif rep.get('kind') == 'accept':
                engine.check_accepted(ctx, [(rep['note'], rep['source'], rep.get('files') or {})], [rep['cfgs']])
            elif rep.get('kind') == 'stack':
                import stacklog
                stacklog.replay(ctx, rep)
            else:
                mod.replay(ctx, rep)
            for what, _ in ctx.violations:
                print('VIOLATION property=%s replay=%s' % (prop, a.replay))
                print('  ' + what)
            print(ctx.cov)
            return 1 if ctx.violations else 0
        mod.run(ctx)
        return engine.finish(ctx, getattr(mod, 'LEVEL', 'model_checking'), mod.RULE,
                             getattr(mod, 'ASSUMPTIONS', ()))
    except lib.ToolError as e:
        print('TOOL ERROR: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()

if __name__ == '__main__':
    sys.exit(main())
