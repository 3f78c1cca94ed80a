"""Decide one property: discharge every obligation of the contracts it rests on, against the MIR of /repo's current source.

usage: python -m mirv.verify PROPERTY quick|thorough
"""
import sys, os, json, time, hashlib, subprocess, threading, signal, traceback, fcntl, pickle, resource, random, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CACHE = os.path.join(ROOT, '.cache')
JOBS = max(2, min(8, os.cpu_count() or 2))
HEAVY = {'TStatsCommand.runtime': 9, 'TStatsCommand.standalone': 8, 'evalbare': 8, 'split_conditions': 7, 'StatsCommand.runtime': 6, 'StatsCommand.standalone': 6,
         'SearchCommand.runtime': 6, 'statsbare': 5, 'TopCommand.standalone': 4, 'SearchCommand.standalone': 5}
START = time.time()


# ------------------------------------------------------------------ build
def source_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('src', '.cargo'):
        for base, ds, names in os.walk(os.path.join(REPO, d)):
            ds.sort()
            fs += [os.path.join(base, n) for n in names]
    fs += [os.path.join(REPO, n) for n in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml')]
    for base, ds, names in os.walk(os.path.join(ROOT, 'mirx')):
        ds[:] = sorted(x for x in ds if x != 'target')
        fs += [os.path.join(base, n) for n in names]
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def build():
    """(path of the MIR dump, directory of the extension module) for /repo's current source."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(CACHE, 'b-' + source_hash())
        mir, ext = os.path.join(d, 'mir.json'), os.path.join(d, 'ext')
        if os.path.exists(os.path.join(d, 'ok')):
            return mir, ext, 0.0
        t = time.time()
        for n in os.listdir(CACHE):
            if n.startswith('b-'):
                subprocess.run(['rm', '-rf', os.path.join(CACHE, n)])
        os.makedirs(ext)
        td = os.path.join(CACHE, 'td')
        os.makedirs(td, exist_ok=True)
        ps = [subprocess.Popen(['bash', os.path.join(ROOT, 'bin', 'mirdump.sh'), mir, td], stdout=subprocess.PIPE, stderr=subprocess.STDOUT),
              subprocess.Popen(['bash', os.path.join(ROOT, 'bin', 'extbuild.sh'), ext, td], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)]
        outs = [p.communicate()[0].decode(errors='replace') for p in ps]
        for p, o in zip(ps, outs):
            if p.returncode:
                print('build failed:\n' + o[-4000:], file=sys.stderr)
                sys.exit(2)
        open(os.path.join(d, 'ok'), 'w').close()
        return mir, ext, time.time() - t


def load(mir):
    from .load import load as ld
    from . import dsl
    import importlib
    X = ld(mir)
    for m in ('core', 'functions', 'commands', 'render', 'parser', 'grammar', 'api'):
        importlib.import_module('mirv.spec.' + m)
    dsl.install(X)
    return X


# ------------------------------------------------------------------ one task (in a process of its own)
def text(x, n=1500):
    try:
        s = repr(x) if isinstance(x, tuple) and x and x[0] == 'err' else str(x)
    except RecursionError:
        s = '<deep term>'
    return s if len(s) <= n else s[:n] + ' ...'


def one_task(X, ext, pid, c, key, case, tier, seed, timeout):
    from . import props, prove as PV
    out = dict(contract=c.name, case=case[0], function=X.F[key]['name'], status='unsupported', why='', obligations=0, discharged=0, secs=0.0, fails=[])
    t = time.time()
    X.nsolver = 0
    fails = []
    try:
        r = PV.prove(X, c, key, case=case, timeout=timeout)
        out.update(status=r.status, why=r.why, obligations=r.obligations, discharged=r.discharged)
        fails = r.fails
    except (MemoryError, RecursionError) as e:
        out['why'] = type(e).__name__
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        out['why'] = 'engine: %s: %s @ %s' % (type(e).__name__, str(e)[:200], [(f.name, f.lineno) for f in tb])
    out['secs'] = time.time() - t
    out['models'], out['ext'] = dict(X.used_models), dict(X.ext_used)
    out['rss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    flt = props.PROPS[pid].get('filter', props.any_fail)
    mine = [f for f in fails if flt(f)]
    if fails and not mine:
        out['status'] = 'other'
        out['why'] = '%d obligations fail, none of them about this property' % len(fails)
    if not mine:
        return out
    for f in mine[:4]:
        out['fails'].append(dict(kind=f.kind, path=['%s : %s' % (text(a, 160), l) for a, l in f.log][:40], code=text(f.code), specification=text(f.spec)))
    out['nfails'] = len(mine)
    try:
        out['replay'] = search(X, ext, pid, c, mine, seed, 1 if tier == 'quick' else 4)
    except Exception as e:
        out['search_error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
    if X.ext_used and not out.get('replay'):
        out['status'] = 'unsupported'
        out['why'] = 'not proved, no failing input found; uninterpreted: ' + ', '.join(sorted(X.ext_used))
    return out


def search(X, ext, pid, c, fails, seed, scale):
    """A pipeline on which the real code does something else than the contracts say."""
    from . import oracle, props
    X.deadline = None
    if c.name.startswith('format'):
        return oracle.format_search(ext, PICK.get(pid))
    if is_text(c.name):
        return text_search(X, ext, pid, c, fails, seed, scale)
    S = oracle.Search(X, ext)
    S.accept = PICK.get(pid)
    for f in fails[:6]:
        d = S.from_path(c, f, 6 * scale, seed)
        if d:
            d.pop('term', None)
            d['found'] = 'from the path of the failed obligation'
            return d
    lits, ints = [], []
    for f in fails[:6]:
        l, i = oracle.literals(X, f.path, oracle.flat(f.code) + oracle.flat(f.spec))
        lits += l
        ints += i
    d = S.random(15 * scale, seed, list(dict.fromkeys(lits)), list(dict.fromkeys(ints)), focus_of(pid, c))
    if d:
        d.pop('term', None)
        d['found'] = 'by random search'
    return d or c.name == 'api.render' and oracle.format_search(ext, PICK.get(pid)) or None


def is_text(name):
    return name.startswith(('parse.', 'options.', 'api.')) and name != 'api.render'


def text_search(X, ext, pid, c, fails, seed, scale):
    """A text that the real parser reads otherwise than the contracts say."""
    from . import oracle, textgen
    which, targets = textgen.targets(c)
    lits = []
    for f in fails[:6]:
        lits += oracle.literals(X, f.path, oracle.flat(f.code) + oracle.flat(f.spec))[0]
    lits = [l for l in dict.fromkeys(lits) if l.isprintable()]
    S = textgen.TextSearch(X, ext, which)
    S.accept = PICK.get(pid)
    for i, (b, ls) in enumerate(((20, lits), (20, ()))):
        d = S.random(b * scale, seed * 10 + i, ls, targets)
        if d:
            d['found'] = 'by search for a text through the failed rule'
            return d
    return None


def text_task(X, ext, pid, which, names, seed, budget, lits):
    """Random texts read by the real parser and by the grammar contracts."""
    from . import textgen, dsl
    S = textgen.TextSearch(X, ext, which)
    S.accept = PICK.get(pid)
    targets = []
    for c in dsl.REG:
        if c.name in names:
            targets += [t for t in textgen.targets(c)[1] if t is not None]
    t = time.time()
    d = S.random(budget, seed, lits, targets)
    return dict(contract='(bounded)', case='', function='texts', status='bounded', why='', obligations=0, discharged=0, secs=time.time() - t, fails=[],
                tried=S.tried, skipped=S.skipped, replay=d, rss=0)


def focus_of(pid, c):
    from . import props
    n = c.name.split('.')[0]
    if n.endswith('Command'):
        return [n]
    return props.PROPS[pid].get('focus')


PICK = {
    'C14': lambda got, want: got[0] == 'panic',
    'C13': lambda got, want: got[0] == 'ok' and want[0] == 'err',
}


def bounded_task(X, ext, pid, focus, seed, budget, lits):
    """Random pipelines run on the real code and on the contracts."""
    from . import oracle
    S = oracle.Search(X, ext)
    S.accept = PICK.get(pid)
    t = time.time()
    d = S.random(budget, seed, lits, (), focus)
    if d:
        d.pop('term', None)
    return dict(contract='(bounded)', case='', function=', '.join(focus or ['any command']), status='bounded', why='', obligations=0, discharged=0, secs=time.time() - t, fails=[],
                tried=S.tried, skipped=S.skipped, replay=d, rss=0)


# ------------------------------------------------------------------ pool: one forked process a task
def run_pool(tasks, limit):
    """tasks: [(label, function)]; each runs in a forked process with a big stack. -> results in order (None: it died)"""
    res = [None] * len(tasks)
    live = {}
    todo = list(range(len(tasks)))
    while todo or live:
        while todo and len(live) < JOBS:
            i = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                os.setpgid(0, 0)
                child(tasks[i][1], wr)
            os.close(wr)
            os.set_blocking(rd, False)
            live[pid] = [i, rd, b'', time.time()]
        for pid in list(live):
            st = live[pid]
            eof = False
            while True:
                try:
                    b = os.read(st[1], 1 << 20)
                except BlockingIOError:
                    break
                if not b:
                    eof = True
                    break
                st[2] += b
            if not eof and time.time() - st[3] > limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                eof = True
                st[2] = b''
            if eof:
                os.close(st[1])
                os.waitpid(pid, 0)
                try:
                    res[st[0]] = pickle.loads(st[2])
                except Exception:
                    res[st[0]] = None
                del live[pid]
        time.sleep(0.02)
    return res


def child(fn, wr):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        box = []

        def go():
            try:
                box.append(fn())
            except BaseException as e:
                box.append({'error': '%s: %s' % (type(e).__name__, str(e)[:300])})
        th = threading.Thread(target=go)
        th.start()
        th.join()
        data = pickle.dumps(box[0])
        off = 0
        while off < len(data):
            off += os.write(wr, data[off:off + 65536])
    except BaseException:
        pass
    finally:
        os._exit(0)


# ------------------------------------------------------------------ main
def main(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    from pyv import run as pyrun
    if pid in pyrun.PROPS:
        return py_main(pid, tier, seed)
    mir, ext, bsecs = build()
    from . import dsl, props, oracle
    X = load(mir)
    cs = [c for c in props.contracts(pid, dsl.REG) if not getattr(c, 'axiom', False)]
    timeout = 400 if thorough else 150
    tasks, meta, lost = [], [], []
    for c in cs:
        ks = []
        try:
            ks = c.keys()
        except Exception as e:
            lost.append((c, str(e)))
            continue
        if not ks:
            lost.append((c, 'no function matches its anchor'))
            continue
        for k in ks:
            for case in c.cases:
                tasks.append((c, k, case))
    tasks.sort(key=lambda t: -HEAVY.get(t[0].name, 0))
    fns = [(c.name, (lambda c=c, k=k, case=case: one_task(X, ext, pid, c, k, case, tier, seed, timeout))) for c, k, case in tasks]
    rs = run_pool(fns, timeout + (120 if thorough else 90))
    res = []
    for (c, k, case), r in zip(tasks, rs):
        if r is None or 'error' in r:
            r = dict(contract=c.name, case=case[0], function=X.F[k]['name'], status='unsupported', why='the prover did not finish: %s' % (r or {}).get('error', 'killed'),
                     obligations=0, discharged=0, secs=0.0, fails=[], rss=0)
        res.append(r)
    for c, why in lost:
        res.append(dict(contract=c.name, case='', function='(none)', status='unsupported', why='anchor lost: ' + why, obligations=0, discharged=0, secs=0.0, fails=[], rss=0))
    failed = [r for r in res if r['status'] == 'failed']
    unsup = [r for r in res if r['status'] in ('unsupported', 'other')]
    real = [r for r in unsup if r['status'] == 'unsupported']
    # bounded stand-in for what the prover could not do; in the thorough tier also a test of the trusted base
    bounded = []
    if not failed and (real or thorough):
        n = JOBS
        budget = 90 if thorough else 30
        over = [r['contract'] for r in (real or res)]
        textual = sorted({x for x in over if is_text(x)})
        trees = [x for x in over if not is_text(x)]
        bt = []
        for i in range(n):
            f = None
            if i % 4 != 3:
                f = props.PROPS[pid].get('focus')
                cmds = [r['contract'].split('.')[0] for r in real if r['contract'].split('.')[0].endswith('Command')]
                if cmds and i % 2 == 0:
                    f = sorted(set(cmds))
            lits = source_literals(i, seed)
            if textual and (not trees or i % 2):
                which = 'detect_macros' if any(n in ('parse.macros', 'api.detect_macros') for n in textual) and (i % 4 == 1 or len(textual) < 3) else 'parse'
                bt.append(('bounded', (lambda which=which, i=i, lits=lits: text_task(X, ext, pid, which, textual if i % 4 != 3 else (), seed * 1000 + i, budget, lits))))
                continue
            bt.append(('bounded', (lambda f=f, i=i, lits=lits: bounded_task(X, ext, pid, f, seed * 1000 + i, budget, lits))))
        bounded = [b for b in run_pool(bt, budget + 60) if b and 'error' not in b]
    return report(pid, tier, seed, X, res, failed, real, bounded, bsecs)


def py_main(pid, tier, seed):
    """A property of the Python part: contracts of pyv, and concrete runs where an obligation fails or the prover cannot say."""
    from pyv import run as R
    thorough = tier == 'thorough'
    w, cs = R.world()
    cs = [c for c in cs if c.prop == pid]
    cs.sort(key=lambda c: -max([v for k, v in R.HEAVY.items() if k in c.target] or [0]))
    limit = 400 if thorough else 240
    rs = run_pool([(c.target, (lambda c=c: R.prove(w, c))) for c in cs], limit)
    res = []
    for c, r in zip(cs, rs):
        if r is None or 'error' in r:
            r = dict(contract=c.target, case='', function=c.target, status='unsupported', why='the prover did not finish: %s' % (r or {}).get('error', 'killed'), obligations=0, discharged=0, secs=0.0, fails=[])
        r.setdefault('function', c.target)
        r['function'] = r['function'] or '(none)'
        res.append(r)
    failed = [r for r in res if r['status'] == 'failed']
    unsup = [r for r in res if r['status'] == 'unsupported']
    bounded, bsecs = [], 0.0
    if failed or unsup or thorough:
        _, ext, bsecs = build()
        d = R.tree(ext)
        try:
            for r in failed:
                r['nfails'] = len(r['fails'])
                r['fails'] = r['fails'][:4]
            jobs = [(r, seed * 100 + i, 25 if thorough else 12) for r in failed[:16] for i in range(2)]
            outs = run_pool([('replay', (lambda r=r, s=s, b=b: R.replay(d, [r['contract']], s, b))) for r, s, b in jobs], 200)
            for (r, s, b), o in zip(jobs, outs):
                h = (o or {}).get('hit')
                if h and not r.get('replay'):
                    r['replay'] = dict(pipeline=h['input'], allow_runtime=True, code=h['code'], specification=h['specification'], function=h['target'], found='by random search')
            if not failed and (unsup or thorough):
                over = sorted(r['contract'] for r in (unsup or res))
                budget = 90 if thorough else 40
                parts = [over[i::JOBS] if len(over) >= JOBS else over for i in range(JOBS)]
                outs = run_pool([('bounded', (lambda p=p, i=i: R.replay(d, p, seed * 1000 + i, budget))) for i, p in enumerate(parts)], budget + 120)
                for p, o in zip(parts, outs):
                    o = o or dict(tried=0, seconds=budget)
                    h = o.get('hit')
                    b = dict(contract='(bounded)', function=', '.join(x.split('.', 1)[1] for x in p)[:400], tried=o.get('tried', 0), skipped=len(o.get('errors') or ()), secs=o.get('seconds', 0.0))
                    if h:
                        b['replay'] = dict(pipeline=h['input'], allow_runtime=True, code=h['code'], specification=h['specification'], function=h['target'])
                    bounded.append(b)
        finally:
            subprocess.run(['rm', '-rf', d])
    return report(pid, tier, seed, None, res, failed, unsup, bounded, bsecs)


def source_literals(i, seed):
    """String literals of the current source, to steer random inputs."""
    if i % 2:
        return ()
    out = []
    for base, ds, names in os.walk(os.path.join(REPO, 'src')):
        for n in sorted(names):
            if n.endswith('.rs') and n != 'parser.rs':
                s = open(os.path.join(base, n), errors='replace').read().split('#[cfg(test)]')[0]
                out += re.findall(r'"([^"\\\n{}]{1,24})"', s)
    out = sorted(set(out))
    random.Random(seed * 31 + i).shuffle(out)
    return out[:60]


SCRIPT = '''# Replays the disagreement on the built extension module (python3-vt; PYTHONPATH = directory of spl_transpiler.*.so).
'''


def report(pid, tier, seed, X, res, failed, unsup, bounded, bsecs):
    from . import props
    from pyv import run as pyrun
    viol = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rep = os.path.join(rdir, pid + '.json')
    if os.path.exists(rep):
        os.remove(rep)
    hits = [r for r in failed if r.get('replay')]
    bhits = [b for b in bounded if b.get('replay')]
    if failed or bhits:
        body = dict(property=pid, failed_obligations=[{k: r.get(k) for k in ('contract', 'case', 'function', 'nfails', 'fails', 'replay', 'search_error')} for r in failed],
                    bounded=[b for b in bhits])
        with open(rep, 'w') as f:
            json.dump(body, f, indent=1, default=str)
        viol.append('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if hits or bhits else ' no-failing-input-found'))
    for r in res:
        if r['status'] != 'discharged':
            print('%-12s %s %s [%s] %s' % (r['status'], r['contract'], r['case'], r['function'][-80:], (r.get('why') or '')[:300]))
            for f in r['fails'][:1]:
                print('    failed obligation (%s): code %s\n    specification %s' % (f['kind'], f['code'][:500], f['specification'][:500]))
    for r in hits + bhits:
        d = r['replay']
        print('    input: %s (allow_runtime=%s)\n    code:          %s\n    specification: %s' % (d['pipeline'][:600], d['allow_runtime'], str(d['code'])[:900], str(d['specification'])[:900]))
        break
    kf = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=%s (.*)' % pid, l.strip())
            if m:
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(1)))
    for v in viol:
        print(v)
    ob = sum(r['obligations'] for r in res)
    di = sum(r['discharged'] for r in res)
    from . import trusted
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=ob, discharged=di,
                  checker_cmd='bin/check.sh %s %s' % (pid, tier),
                  trusted_base=pyrun.BASE if pid in pyrun.PROPS else trusted.BASE,
                  functions_under_contract=len({r['function'] for r in res if r['status'] == 'discharged'}),
                  contracts=[dict(contract=r['contract'], case=r['case'], function=r['function'][-140:], status=r['status'], obligations=r['obligations'],
                                  discharged=r['discharged'], seconds=round(r['secs'], 2), why=(r.get('why') or '')[:300]) for r in res],
                  back_end='pyv (symbolic execution of Python source with a built-in rewriting decision procedure, z3 for arithmetic)' if pid in pyrun.PROPS else
                           'mirv (symbolic execution of MIR with a built-in congruence/rewriting decision procedure)',
                  solver_seconds=round(sum(r['secs'] for r in res), 2),
                  peak_mb=max([r.get('rss', 0) for r in res] or [0]),
                  bounded_stand_ins=[dict(for_=r['contract'], why=(r.get('why') or '')[:300]) for r in unsup],
                  bounded_runs=[dict(focus=b['function'], inputs=b['tried'], skipped=b['skipped'], seconds=round(b['secs'], 1)) for b in bounded],
                  build_seconds=round(bsecs, 1)),
              assumptions=pyrun.ASSUME + ['uninterpreted calls: ' + ', '.join(sorted({x for r in res for x in r.get('ext', ())}))] if pid in pyrun.PROPS else trusted.assumptions(res),
              wall_s=round(time.time() - START, 2), violations=len(viol))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d contracts, %d obligations, %d discharged, %d not within reach (bounded), %.1fs' % (pid, tier, len(res), ob, di, len(unsup), time.time() - START))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    threading.stack_size(512 << 20)
    a = sys.argv[1:]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    from mirv import verify
    sys.exit(verify.main(a[0], tier))
