"""Building, compiling, running, and checking against the specification with TLC."""
import os, sys, json, subprocess, threading, queue, tempfile, time, re, shutil, selectors
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import cparse
from cparse import Z

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
COMPILER = os.path.join(REPO, 'target/debug/c_to_wasm_compiler')
RUNMJS = os.path.join(REPO, 'runtime/run.mjs')
NCPU = 8
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ToolError(Exception):
    pass

def build():
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    if os.path.exists('/opt/vp/env.sh'):
        cmd = '. /opt/vp/env.sh; cd %s && cargo build --locked --offline --quiet' % REPO
    else:
        cmd = 'cd %s && cargo build --locked --offline --quiet' % REPO
    r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise ToolError('the compiler does not build:\n' + r.stderr[-3000:])

FLAGS = ['--noopt-tailcall', '--noopt-unreachable-procedure', '--noopt-stack-allocation', '--prof-stack']
def flags_of(cfg):
    """cfg: bits in the order of FLAGS"""
    return [f for i, f in enumerate(FLAGS) if cfg >> i & 1]
def cfg_name(cfg):
    return ' '.join(flags_of(cfg)) or '(default)'

def compile_one(src, out, cfg=0, timeout=30):
    try:
        if os.path.isfile(out):
            os.remove(out)
        r = subprocess.run([COMPILER, src, '-o', out] + flags_of(cfg), cwd=REPO, capture_output=True,
                           timeout=timeout, env=dict(os.environ, RUST_BACKTRACE='0'))
        return r.returncode, r.stderr[-2000:].decode('utf8', 'replace') + r.stdout[-1500:].decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def run_jobs(jobs, scratch, timeout=10, procs=NCPU):
    """jobs: list of dict(id, wasm, args, log) -> dict id -> result
    A program that takes too long is killed; after many of those the rest is given up."""
    results = {}
    chunks = [jobs[i::procs] for i in range(procs)]
    run_jobs.calls += 1
    serial = run_jobs.calls
    def work(ci):
        todo = list(chunks[ci])
        rnd, slow = 0, 0
        while todo and slow < 6:
            rnd += 1
            jf = os.path.join(scratch, 'jobs%d_%d_%d.json' % (serial, ci, rnd))
            json.dump(todo, open(jf, 'w'))
            p = subprocess.Popen(['node', '--stack-size=3000', os.path.join(VERIF, 'harness/host.mjs'), RUNMJS, jf],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=scratch)
            done = 0
            sel = selectors.DefaultSelector()
            sel.register(p.stdout, selectors.EVENT_READ)
            buf = b''
            dead = False
            while True:
                if not sel.select(timeout if slow < 2 else min(timeout, 3)):
                    dead = True
                    break
                d = os.read(p.stdout.fileno(), 1 << 16)
                if not d:
                    break
                buf += d
                *lines, buf = buf.split(b'\n')
                for l in lines:
                    r = json.loads(l)
                    results[r['id']] = r
                    done += 1
            p.kill(); p.wait(); p.stdout.close(); sel.close()
            if done < len(todo):
                bad = todo[done]
                results[bad['id']] = {'id': bad['id'], 'kind': 'timeout' if dead else 'crash', 'out': '', 'ret': 0,
                                      'detail': ''}
                done += 1
                slow += dead
            todo = todo[done:]
    ths = [threading.Thread(target=work, args=(i,)) for i in range(procs) if chunks[i]]
    for t in ths: t.start()
    for t in ths: t.join()
    return results
run_jobs.calls = 0

def runtime_copy(scratch):
    """a copy of the runtime (its profile logs are written beside it)"""
    d = os.path.join(scratch, 'rt')
    if not os.path.exists(d):
        shutil.copytree(os.path.join(REPO, 'runtime'), os.path.join(d, 'runtime'))
        os.makedirs(os.path.join(d, 'logs'))
    return os.path.join(d, 'runtime/run.mjs')

def run_processes(jobs, scratch, timeout=20):
    """like run_jobs, but each program in a process of its own: node run.mjs X.wasm args..."""
    rt = runtime_copy(scratch)
    def one(j):
        try:
            p = subprocess.run(['node', rt, j['wasm']] + [os.fsencode(a) if isinstance(a, str) else a for a in j['args']], cwd=scratch,
                               stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return j['id'], dict(id=j['id'], kind='timeout', out='', ret=0, detail='')
        err = p.stderr.decode('utf8', 'replace')
        bad = p.returncode < 0 or 'Error' in err
        return j['id'], dict(id=j['id'], kind='error' if bad else 'exit', out=p.stdout.decode('latin1'), ret=p.returncode & 255,
                             detail=err[-300:] if bad else '')
    with ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(one, jobs))

def tlc(module, cfg, env, workers=NCPU, heap='8g', timeout=800, extra=()):
    """run TLC on spec/<module>; returns (output text, states generated, distinct)"""
    meta = tempfile.mkdtemp(prefix='tlc')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        raise ToolError('TLC did not finish')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    ms = re.findall(r'(\d+) states generated, (\d+) distinct', out.replace(',', '', 0))
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if 'Error:' in out or not m:
        raise ToolError('TLC failed:\n' + out[-6000:])
    return out, int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

VERDICT = re.compile(r'<<"(AGREE|MISMATCH|DISCARD)", (\d+), "((?:[^"\\]|\\.)*)", (\d+)>>')

def check_csem(progs, runs, scratch, workers=NCPU, timeout=800, module='MC.tla', cfg='MC.cfg'):
    """progs: node tables; runs: [p (1-based), argv, out, ret, kind, ord] -> list of verdicts per run, stats"""
    pf, rf = os.path.join(scratch, 'progs.json'), os.path.join(scratch, 'runs.json')
    json.dump(progs, open(pf, 'w')); json.dump(runs, open(rf, 'w'))
    out, gen, dist = tlc(module, cfg, {'CSEM_PROGS': pf, 'CSEM_RUNS': rf}, workers, timeout=timeout)
    v = [None] * len(runs)
    for k, i, why, n in VERDICT.findall(out):
        v[int(i) - 1] = (k, why, int(n))
    if None in v:
        raise ToolError('TLC gave no verdict on run %d\n' % (v.index(None) + 1) + out[-3000:])
    return v, gen, dist
