"""Recording logs of the stack pointer and checking them with spec/StackLog.tla."""
import os, re, json
from concurrent.futures import ThreadPoolExecutor
import lib
from lib import ToolError

PROF = 8
def entries(text):
    """the log as numbers; a malformed line is -1"""
    return [int(l) if re.fullmatch(r'-?\d+', l) else -1 for l in text.split('\n') if l]

class SCase:
    """kind: log, flat, below or same; runs: [(C text, flag configuration, argument, ...)]; main: the most levels
    that main's own frame has (if known)"""
    def __init__(self, kind, runs, note='', main=None):
        self.kind, self.runs, self.note, self.main = kind, [tuple(x) for x in runs], note, main

def check(ctx, cases, cap=6000):
    uniq = sorted({x[:2] for c in cases for x in c.runs})
    def comp(k):
        src = os.path.join(ctx.scratch, 's%06d.c' % k)
        open(src, 'w').write(uniq[k][0])
        w = src[:-1] + 'wasm'
        rc, err = lib.compile_one(src, w, uniq[k][1], timeout=60)
        return w if rc == 0 and os.path.exists(w) else None
    with ThreadPoolExecutor(lib.NCPU) as ex:
        ws = list(ex.map(comp, range(len(uniq))))
    ctx.cov['compilations'] += len(uniq)
    ws = dict(zip(uniq, ws))
    uniq = sorted({x for c in cases for x in c.runs})
    res = lib.run_jobs([dict(id=k, wasm=ws[x[:2]], args=list(x[2:]), log=True) for k, x in enumerate(uniq) if ws[x[:2]]], ctx.scratch)
    ctx.cov['executions'] += len(res)
    rec = {}
    for k, u in enumerate(uniq):
        if ws[u[:2]] is None:
            rec[u] = 'compile'
        elif k in res:
            r = res[k]
            rec[u] = r if r['kind'] == 'exit' else r['kind']
    recs, whats = [], []
    for c in cases:
        rs = [rec.get(x) for x in c.runs]
        rep = dict(kind='stack', skind=c.kind, runs=c.runs, main=c.main, note=c.note, source=c.runs[0][0])
        if None in rs:
            continue
        if any(isinstance(r, str) for r in rs):
            why = next(r for r in rs if isinstance(r, str))
            ctx.violate('%s: %s under %s' % (c.note, why, [lib.cfg_name(x[1]) for x in c.runs]), dict(rep, why=why, observed=why))
            continue
        logs = [entries(r.get('splog', '')) for r in rs]
        if c.kind == 'log':
            recs.append(dict(k='log', log=logs[0][:cap] if len(logs[0]) > cap else logs[0], fp=rs[0].get('fp', -1), sp=rs[0].get('sp', -1),
                             floor=0, quiet=c.main is not None, main=c.main or 0))
            if len(logs[0]) > cap:
                raise ToolError('a log is too long')
        else:
            recs.append(dict(k=c.kind, logs=[l[:20000] for l in logs]))
        whats.append(('%s (stack log, %s)' % (c.note, lib.cfg_name(c.runs[0][1])), rep))
    if not recs:
        return
    n = len(recs)
    ctl = []        # negative controls
    for r in recs:
        if r['k'] == 'log' and len(r['log']) > 4:
            down = [i for i in range(1, len(r['log'])) if r['log'][i] < r['log'][i - 1]]
            if down:
                l = list(r['log']); l[down[len(down) // 2]] += 1
                ctl.append(dict(r, log=l))
            ctl.append(dict(r, sp=r['sp'] + 4))
            ctl.append(dict(r, fp=r['fp'] + 4))
            break
    for kind in ('flat', 'below', 'same'):
        for r in recs:
            if r['k'] == kind and all(len(l) > 4 for l in r['logs']):
                l = [list(x) for x in r['logs']]
                if kind == 'below':
                    l[0] = [x + 1000000 * k for k, x in enumerate(l[1])]
                else:
                    l[1].append(max(map(max, l)) + 4)
                ctl.append(dict(r, logs=l)); break
    f = os.path.join(ctx.scratch, 'stack.json')
    json.dump(recs + ctl, open(f, 'w'))
    out, gen, dist = lib.tlc('StackLog.tla', 'StackLog.cfg', {'STACK_LOGS': f})
    v = dict((int(i), w) for i, w in re.findall(r'<<"STACK", (\d+), "([^"]*)">>', out))
    if len(v) != n + len(ctl):
        raise ToolError('StackLog gave %d of %d verdicts' % (len(v), n + len(ctl)))
    ctx.cov['states'] += dist
    ctx.cov['transitions'] += gen
    ctx.cov['stack_records'] = ctx.cov.get('stack_records', 0) + n
    for i in range(n):
        ctx.cov['traces_validated_against_impl'] += 1
        ctx.cov['evaluations'] += 1
        if v[i + 1] != 'ok':
            ctx.violate('%s: %s' % (whats[i][0], v[i + 1]), dict(whats[i][1], why=v[i + 1], observed=v[i + 1]))
    for i in range(n, n + len(ctl)):
        ctx.cov['negative_controls'] += 1
        if v[i + 1] == 'ok':
            raise ToolError('negative control: a corrupted stack log was accepted: %r' % ctl[i - n])

def replay(ctx, rep):
    check(ctx, [SCase(rep['skind'], rep['runs'], rep['note'], rep['main'])])
