import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import *
import loops, models
from ir import Module
from solver import STATS


def prove_function(mod, name, budget=300, debug=False, nia=4000, races=False):
    """run one contract.  -> result dict"""
    E = Engine(mod, budget)
    E.debug = debug
    E.S.nia_timeout = nia
    E.races = races
    t0 = time.time()
    st = State(ROOT)
    res = {'contract': name, 'status': None, 'reason': None}
    E.curfn = name
    try:
        evs = E.call(st, name, [])
        for e in evs:
            if e[0] == 'exn' and not races: E.fail(e[1], 'no-unexpected-exception', f'contract ends by exception {e[1].exn[0]}')
        res['paths'] = len(evs)
        bad = [o for o in E.oblig if not o['ok']]
        res['status'] = 'failed' if bad else 'proved'
        if not any(o['kind'] == 'contract' for o in E.oblig):
            res['status'] = 'unsupported'; res['reason'] = 'vacuous: no contract obligation reached'
    except EnoughFailures:
        res['status'] = 'failed'
    except (Unsupported, Abort, SyntaxError, KeyError, RecursionError) as ex:
        res['status'] = 'unsupported'
        res['reason'] = f'{type(ex).__name__}: {ex}'[:500]
        if debug:
            import traceback; traceback.print_exc()
    res['wall'] = time.time() - t0
    res['engine'] = E
    return res


if __name__ == '__main__':
    ll = sys.argv[1]
    t0 = time.time()
    mod = Module(open(ll).read())
    print('parsed', len(mod.funcs), 'functions', round(time.time() - t0, 1))
    def one(name):
        import solver
        r = prove_function(mod, name, debug='-d' in os.environ.get('VK', ''), races='races' in os.environ.get('VK', ''))
        E = r['engine']
        k = {}
        for o in E.oblig: k.setdefault((o['kind'], o['ok']), []).append(o)
        print(f"{name}: {r['status']} {r['reason'] or ''} {r['wall']:.1f}s paths={r.get('paths')} " + ' '.join(f'{a}/{"ok" if b else "FAIL"}:{len(v)}' for (a, b), v in k.items()), 'covers', E.covers if os.environ.get('VKC') else '')
        for o in E.oblig:
            if not o['ok']:
                print('   FAIL', o['kind'], o['what'], '\n     goal', o['goal'])
                if os.environ.get('VKPC'):
                    for f in o['pc'].all(): print('       ', f)
                break
        print('  ', dict(STATS), flush=True)
    import multiprocessing as mp, re as _re
    ctx = mp.get_context('fork')
    todo = [n for n in mod.funcs if n[0] == 'C' and n[1:3].isdigit() and (len(sys.argv) < 3 or any(_re.fullmatch(p, n) for p in sys.argv[2:]))]
    J = int(os.environ.get('VKJ', '4')); run = []
    while todo or run:
        while todo and len(run) < J:
            p = ctx.Process(target=one, args=(todo.pop(0),)); p.start(); run.append(p)
        time.sleep(0.05)
        run = [p for p in run if p.is_alive()]
