"""The engine of the checks that replay programs into the abstract machine (spec/CSem.tla).

A check makes cases (C programs with flag configurations and program
arguments), compiles and runs each with the real compiler and runtime, and
gives the recorded behaviours to TLC, which runs every program in the
abstract machine of the specification and compares.
"""
import os, sys, json, time, random, hashlib, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, cparse, stacklog
from lib import ToolError, VERIF

class Case:
    """src: C text; cfgs: flag configurations; args: list of argument vectors (without the program name)"""
    def __init__(self, src, cfgs=None, args=None, note='', spec_src=None, files=None):
        self.files = files or {}        # other files in the directory of the source
        self.src, self.cfgs, self.note = src, cfgs, note
        self.args = args if args is not None else [[]]
        self.spec_src = spec_src        # what the machine runs, if it isn't the same text

def _parse(job):
    text = job
    try:
        return cparse.parse(text)
    except Exception as e:      # of this harness, not of the code under test
        return '%s: %s' % (type(e).__name__, e)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.violations = []            # (summary, replay dict)
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov.update(programs=0, compilations=0, executions=0, agree=0, discarded=0, machine_steps=0,
                        order_dependent=0, negative_controls=0, evaluations=0, distinct_nontrivial=0)
        self.discards = {}
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.findings = load_findings(prop)
        self.seen_src = set()
    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
    def elapsed(self):
        return time.time() - self.t0
    def violate(self, what, replay):
        self.violations.append((what, replay))
    def default_cfgs(self):
        return sorted({0, 7, self.rng.randrange(16)})

def load_findings(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)) if x.get('status') == 'known' and x['property'] == prop]

def pool_map(f, xs, procs=lib.NCPU):
    if len(xs) < 24:
        return [f(x) for x in xs]
    with ProcessPoolExecutor(procs) as ex:
        return list(ex.map(f, xs, chunksize=max(1, len(xs) // (procs * 8))))

def write_source(d, text, files):
    src = d + '.c'
    if files:
        os.makedirs(d + '.d', exist_ok=True)
        src = os.path.join(d + '.d', 'main.c')
        for n, t in files.items():
            with open(os.path.join(d + '.d', n), 'w', encoding='utf-8') as f:
                f.write(t)
    with open(src, 'w', encoding='utf-8') as f:
        f.write(text)
    return src

def check_rejected(ctx, items, cfgs=None):
    """items: (note, source, other files): the compiler has to reject them with a message, and write no module"""
    jobs = []
    for i, (note, s, files) in enumerate(items):
        d = os.path.join(ctx.scratch, 'r%d' % i)
        for g in (cfgs[i] if cfgs else [ctx.rng.randrange(16)]):
            jobs.append((i, g, write_source(d, s, files), '%s_%d.wasm' % (d, g)))
    with ThreadPoolExecutor(lib.NCPU) as ex:
        res = list(ex.map(lambda j: lib.compile_one(j[2], j[3], j[1], timeout=60), jobs))
    ctx.cov['compilations'] += len(jobs)
    for (i, g, src, wasm), (rc, err) in zip(jobs, res):
        note, s, files = items[i]
        ctx.cov['rejections'] = ctx.cov.get('rejections', 0) + 1
        ctx.cov['evaluations'] += 1
        ctx.cov['traces_validated_against_impl'] += 1
        obs = 'accepted' if rc == 0 else 'no answer' if rc == 'timeout' else 'a module was written' if os.path.exists(wasm) else \
            'no message' if not str(err).strip() else None
        h = hashlib.sha1(s.encode()).hexdigest()
        if h not in ctx.seen_src:
            ctx.seen_src.add(h)
            ctx.cov['distinct_nontrivial'] += 1
        if obs:
            ctx.violate('%s: an invalid program is not rejected (%s) under %s' % (note, obs, lib.cfg_name(g)),
                        dict(kind='reject', source=s, files=files, cfgs=[g], note=note, observed=obs))

def check_accepted(ctx, items, cfgs=None):
    """items: (note, source, other files): the compiler has to write a module that the engine loads"""
    jobs = []
    for i, (note, s, files) in enumerate(items):
        d = os.path.join(ctx.scratch, 'a%d' % i)
        for g in (cfgs[i] if cfgs else [ctx.rng.randrange(16)]):
            jobs.append((i, g, write_source(d, s, files), '%s_%d.wasm' % (d, g)))
    with ThreadPoolExecutor(lib.NCPU) as ex:
        res = list(ex.map(lambda j: lib.compile_one(j[2], j[3], j[1], timeout=60), jobs))
    ctx.cov['compilations'] += len(jobs)
    for (i, g, src, wasm), (rc, err) in zip(jobs, res):
        note, s, files = items[i]
        ctx.cov['acceptances'] = ctx.cov.get('acceptances', 0) + 1
        ctx.cov['evaluations'] += 1
        ctx.cov['traces_validated_against_impl'] += 1
        obs = None if rc == 0 and os.path.exists(wasm) else 'no answer' if rc == 'timeout' else 'rejected: ' + str(err).strip()[-200:]
        if obs:
            ctx.violate('%s: a valid program is not compiled (%s) under %s' % (note, obs, lib.cfg_name(g)),
                        dict(kind='accept', source=s, files=files, cfgs=[g], note=note, observed=obs))

def compile_and_run(ctx, cases, log=False, timeout=8, runner=None):
    """-> per case: list of groups: dict(kind, out, ret, argv, cfgs, detail, args)"""
    jobs, comp = [], []
    for i, c in enumerate(cases):
        d = os.path.join(ctx.scratch, 'p%d' % i)
        src = write_source(d, c.src, c.files)
        if c.cfgs is None:
            c.cfgs = ctx.default_cfgs()
        for g in c.cfgs:
            comp.append((i, g, src, '%s_%d.wasm' % (d, g)))
    with ThreadPoolExecutor(lib.NCPU) as ex:
        rcs = list(ex.map(lambda j: lib.compile_one(j[2], j[3], j[1]), comp))
    ctx.cov['compilations'] += len(comp)
    groups = [dict() for _ in cases]
    def note(i, g, args, wasm, kind, out, ret, detail, sp=None):
        # the log of the stack pointer, where it determines the calls: with profiling, without tail-call optimisation
        lg = None
        if log and sp is not None and kind == 'exit' and g & 9 == 9:
            lg = stacklog.entries(sp.get('splog', ''))
        key = (kind, out, ret, tuple(args)) + ((tuple(lg), sp.get('fp'), sp.get('sp')) if lg is not None else ())
        e = groups[i].setdefault(key, dict(kind=kind, out=out, ret=ret, args=list(args), cfgs=[], detail=detail,
                                           wasm=wasm, info=[], log=lg))
        e['cfgs'].append(g)
        if sp is not None:
            e['info'].append((g, sp))
    for (i, g, src, wasm), (rc, err) in zip(comp, rcs):
        if rc == 'timeout':
            rc, err = lib.compile_one(src, wasm, g, timeout=90)
        if rc != 0 or not os.path.exists(wasm):
            for a in cases[i].args:
                note(i, g, a, wasm, 'compile' if rc != 'timeout' else 'compile timeout', '', 0, str(err)[-300:])
        else:
            for a in cases[i].args:
                jobs.append({'id': len(jobs), 'wasm': wasm, 'args': a, 'log': log, 'k': (i, g)})
    runner = runner or lib.run_jobs
    res = runner([{k: v for k, v in j.items() if k != 'k'} for j in jobs], ctx.scratch, timeout=timeout)
    slow = [j for j in jobs if j['id'] in res and res[j['id']]['kind'] == 'timeout']
    for j in slow[:3]:
        r = runner([{k: v for k, v in j.items() if k != 'k'}], ctx.scratch, timeout=40)
        res[j['id']] = r[j['id']]
    for j in jobs:
        r = res.get(j['id'])
        if r is None:
            continue
        i, g = j['k']
        note(i, g, j['args'], j['wasm'], r['kind'], r['out'], r['ret'], r['detail'], r)
        ctx.cov['executions'] += 1
    return [list(x.values()) for x in groups]

def mkrun(p, grp, ord=0):
    argv = [list(grp['wasm'].encode())] + [list(a if isinstance(a, bytes) else a.encode()) for a in grp['args']]
    r = {'p': p, 'argv': argv, 'out': list(grp['out'].encode('latin1')), 'ret': lib.Z(grp['ret']),
         'kind': grp['kind'], 'ord': ord, 'lg': 0, 'log': [], 'fp': 0, 'sp': 0}
    if grp.get('log') is not None:
        r.update(lg=1, log=grp['log'], fp=grp['info'][0][1].get('fp', 0), sp=grp['info'][0][1].get('sp', 0))
    return r

def corrupt(run, how):
    r = dict(run)
    if how == 0 and r['out']:
        i = len(r['out']) // 2
        r['out'] = r['out'][:i] + [(r['out'][i] + 1) % 256] + r['out'][i + 1:]
    elif how == 1 and r['out']:
        r['out'] = r['out'][:-1]
    elif how == 2:
        r['out'] = r['out'] + [10]
    elif how == 4 and r['log']:
        i = len(r['log']) - 1
        r['log'] = r['log'][:i] + [r['log'][i] + 1] + r['log'][i + 1:]
    else:
        r['ret'] = lib.Z((r['ret'][0] + 1) % 256)
    return r

def shorten(s, n=1500):
    return s if len(s) <= n else s[:n] + '... (%d bytes)' % len(s)

def validate(ctx, cases, groups, max_report=5, samples=2):
    """check all recorded behaviours with TLC"""
    parsed = pool_map(_parse, [(c.spec_src or c.src) for c in cases])
    bad = [(c, p) for c, p in zip(cases, parsed) if isinstance(p, str)]
    if bad:
        raise ToolError('the harness cannot read its own program: %s\n%s' % (bad[0][1], bad[0][0].src[:3000]))
    runs, back = [], []
    for i, gs in enumerate(groups):
        for grp in gs:
            runs.append(mkrun(i + 1, grp)); back.append((i, grp))
    nreal = len(runs)
    # negative controls: corrupted records, which must not be accepted
    ctl = {}
    good = [k for k in range(nreal) if runs[k]['kind'] == 'exit']
    for how, k in enumerate(ctx.rng.sample(good, min(4, len(good)))):
        ctl[len(runs)] = k
        runs.append(corrupt(runs[k], how))
    for k in [k for k in good if runs[k]['log']][:2]:
        ctl[len(runs)] = k
        runs.append(corrupt(runs[k], 4))
    v, gen, dist = [], 0, 0
    # in chunks, so that the input of one TLC run stays small
    order = list(range(len(runs)))
    verdicts = [None] * len(runs)
    if os.environ.get("VERIF_DEBUG"): json.dump([parsed, runs], open("/tmp/last_csem.json", "w"))
    chunk, size = [], 0
    chunks = []
    for k in order:
        chunk.append(k)
        size += 40
        if len(chunk) == 1 or runs[k]['p'] != runs[chunk[-2]]['p']:
            size += len(parsed[runs[k]['p'] - 1]['nodes'])
        if size > 500000:
            chunks.append(chunk); chunk, size = [], 0
    if chunk:
        chunks.append(chunk)
    for chunk in chunks:
        ps = sorted({runs[k]['p'] for k in chunk})
        ix = {p: n + 1 for n, p in enumerate(ps)}
        vs, g, d = lib.check_csem([parsed[p - 1] for p in ps], [dict(runs[k], p=ix[runs[k]['p']]) for k in chunk],
                                  ctx.scratch)
        gen += g; dist += d
        for k, x in zip(chunk, vs):
            verdicts[k] = x
    # a mismatch may come from another order of unsequenced operands
    mm = [k for k in range(nreal) if verdicts[k][0] == 'MISMATCH'][:200]
    if mm:
        ps = sorted({runs[k]['p'] for k in mm})
        ix = {p: n + 1 for n, p in enumerate(ps)}
        vs, g, d = lib.check_csem([parsed[p - 1] for p in ps],
                                  [dict(runs[k], p=ix[runs[k]['p']], ord=1) for k in mm], ctx.scratch)
        gen += g; dist += d
        for k, x in zip(mm, vs):
            if x[0] == 'AGREE':
                verdicts[k] = ('DISCARD', 'order of evaluation', x[2])
                ctx.cov['order_dependent'] += 1
    ctx.cov['states'] += dist
    ctx.cov['transitions'] += gen
    ctx.cov['programs'] += len(cases)
    seen = set()
    for k in range(nreal):
        i, grp = back[k]
        kind, why, n = verdicts[k]
        c = cases[i]
        if kind == 'DISCARD':
            ctx.cov['discarded'] += 1
            ctx.discards[why] = ctx.discards.get(why, 0) + 1
            if os.environ.get('VERIF_DEBUG'):
                print("DISCARD", i, c.note, why, file=sys.stderr)
                open('/tmp/discard_%s_%d.c' % (ctx.prop, i), 'w').write(c.src)
            continue
        ctx.cov['traces_validated_against_impl'] += 1
        ctx.cov['evaluations'] += len(grp['cfgs'])
        ctx.cov['machine_steps'] += n
        h = hashlib.sha1(c.src.encode()).hexdigest()
        if n >= 50 and (h, tuple(grp['args'])) not in ctx.seen_src:
            ctx.seen_src.add((h, tuple(grp['args'])))
            ctx.cov['distinct_nontrivial'] += 1
        if kind == 'AGREE':
            ctx.cov['agree'] += 1
            if len(ctx.cov['samples']) < samples and i not in seen:
                seen.add(i)
                ctx.cov['samples'].append({'note': c.note, 'source': shorten(c.src), 'flags': [lib.cfg_name(g) for g in grp['cfgs']],
                                           'args': grp['args'], 'output': shorten(grp['out'], 300), 'exit': grp['ret'],
                                           'steps': n})
        else:
            ctx.violate('%s%s: the machine of the specification disagrees (%s) under %s%s' % (
                            c.note and c.note + ': ', grp['kind'], why, ' / '.join(lib.cfg_name(g) for g in grp['cfgs']),
                            '; ' + grp['detail'].strip()[-160:].replace('\n', ' ') if grp['detail'] else ''),
                        dict(kind='csem', source=c.src, spec_source=c.spec_src, files=c.files, cfgs=grp['cfgs'], args=grp['args'],
                             note=c.note,
                             observed=dict(kind=grp['kind'], out=grp['out'], ret=grp['ret']), why=why))
    for k, base in ctl.items():
        if verdicts[base][0] != 'AGREE':
            continue
        ctx.cov['negative_controls'] += 1
        if verdicts[k][0] != 'MISMATCH':
            raise ToolError('negative control: a corrupted record was accepted: %r' % (verdicts[k],))
    return verdicts

def say(*a):
    if os.environ.get("VERIF_DEBUG"):
        print(*a, file=sys.stderr, flush=True)

def check_cases(ctx, cases, log=False, runner=None, **kw):
    say("%d cases at %.1f" % (len(cases), ctx.elapsed()))
    groups = compile_and_run(ctx, cases, log=log, runner=runner)
    say("run at %.1f" % ctx.elapsed())
    return groups, validate(ctx, cases, groups, **kw)

def finish(ctx, level, rule, assumptions=()):
    """known findings, replay files, evidence; returns the exit status"""
    code = 0
    rdir = os.path.join(VERIF, 'replays')
    n = 0
    for what, rep in ctx.violations:
        f = match_finding(ctx, rep)
        if f:
            continue
        n += 1
        if n <= (1000 if os.environ.get('VERIF_DEBUG') else 5):
            os.makedirs(rdir, exist_ok=True)
            rep = dict(rep, property=ctx.prop, what=what)
            h = hashlib.sha1(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:12]
            p = os.path.join(rdir, '%s-%s.json' % (ctx.prop, h))
            json.dump(rep, open(p, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (ctx.prop, p))
            print('  ' + what)
        code = 1
    if n > 5:
        print('  (and %d more)' % (n - 5))
    c = ctx.cov
    tot = c['traces_validated_against_impl'] + c['discarded']
    if not n and tot and c['discarded'] > 0.1 * tot + 3:
        raise ToolError('%d of %d runs were discarded: %r' % (c['discarded'], tot, ctx.discards))
    c['discard_reasons'] = ctx.discards
    c['rule'] = rule
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=c,
                   assumptions=list(assumptions), wall_s=round(ctx.elapsed(), 2), violations=n),
              open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %s in %.1f s: %s' % (ctx.prop, ctx.tier, 'no violation' if not n else '%d violations' % n, ctx.elapsed(),
          ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, int) and v)))
    return code

def match_finding(ctx, rep):
    """is this violation a listed one? only the very same input and behaviour"""
    for f in ctx.findings:
        if f['source'] == rep.get('source') and f['observed'] == rep.get('observed'):
            line = 'KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what'])
            if line not in ctx.known:
                ctx.known.append(line)
                print(line)
            return True
    return False
def finding_cases(ctx):
    return [Case(f['source'], cfgs=f.get('cfgs', [0]), note='known finding') for f in ctx.findings]
