#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property by deterministic simulation
   check.py --replay FILE                        reproduce a recorded violation
   check.py --build                              build every simulator (setup)
   check.py --selftest [PROPERTY..]              determinism proof: many seeds, twice, different worker counts and layouts"""
import sys, os, json, time, subprocess, hashlib, threading, queue, tempfile, random, glob, fcntl, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
NPROC = os.cpu_count() or 8
from campaigns import CONFIGS, CAMPAIGNS, THOROUGH, NOTES, COMPONENTS, ASSUME  # noqa: E402


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        else:
            files = [p]
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\1')
    return h.hexdigest()


_hash = {}


def cached_hash(kind):
    if kind not in _hash:
        if kind == 'sim':
            _hash[kind] = tree_hash([os.path.join(ROOT, 'sim')])
        else:
            _hash[kind] = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    return _hash[kind]


def run_cmd(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
    if p.returncode:
        raise CheckError('build failed: ' + ' '.join(cmd) + '\n' + p.stdout[-4000:])


def expand(x):
    return x.replace('@REPO', REPO).replace('@SIM', os.path.join(ROOT, 'sim'))


def obj_for(unit):
    """unit: dict(src, flags, dep) -> (object path, command)"""
    src = expand(unit['src'])
    flags = [expand(f) for f in unit['flags']]
    comp = unit.get('cc', 'g++')
    dep = cached_hash('sim') if unit['dep'] == 'sim' else cached_hash('sim') + cached_hash('repo')
    key = hashlib.sha256(json.dumps([src, flags, comp, dep]).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'obj', key + '.o')
    return out, [comp] + flags + ['-c', src, '-o']


def build(configs, lenient=False):
    """builds the named configurations; returns {name: binary}.  lenient: configurations the compiler refuses are left out
    (a change of the library may, say, give up on an older language version), unless none is left"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs, res, links = {}, {}, []
        for c in configs:
            objs = []
            for u in CONFIGS[c]['units']:
                o, cmd = obj_for(u)
                objs.append(o)
                if not os.path.exists(o):
                    jobs[o] = (u.get('cost', 1), cmd)
                else:
                    os.utime(o)
                    if os.path.exists(o + '.basic'):
                        os.utime(o + '.basic')
            ld = [expand(x) for x in CONFIGS[c]['link']]
            key = hashlib.sha256(json.dumps([objs, ld]).encode()).hexdigest()[:24]
            b = os.path.join(BUILD, 'bin', c + '-' + key)
            res[c] = b
            if not os.path.exists(b):
                links.append((b, ['g++', '-o', b + '.tmp'] + objs + ld))
            else:
                os.utime(b)
        errs = []

        def step(cmd, tmp, out):
            try:
                run_cmd(cmd, None)
                os.replace(tmp, out)
            except CheckError as e:
                if not lenient:
                    raise
                if '-c' in cmd:
                    # does it compile without the less usual kinds of callables?
                    try:
                        run_cmd(cmd[:1] + ['-DSIM_BASIC'] + cmd[1:], None)
                        open(out + '.basic', 'w').close()
                        os.replace(tmp, out)
                        return
                    except CheckError:
                        pass
                errs.append(str(e))
        parallel([(lambda o=o, cmd=cmd: step(cmd + [o + '.tmp.o'], o + '.tmp.o', o))
                  for o, (cost, cmd) in sorted(jobs.items(), key=lambda kv: -kv[1][0])])
        parallel([(lambda b=b, cmd=cmd: step(cmd, b + '.tmp', b)) for b, cmd in links
                  if not lenient or all(os.path.exists(x) for x in cmd if x.startswith(BUILD) and x.endswith('.o'))])
        basic = [c for c in res if any(os.path.exists(obj_for(u)[0] + '.basic') for u in CONFIGS[c]['units'])]
        if basic and not lenient:
            raise CheckError('built without the less usual kinds of callables: ' + ' '.join(basic))
        if basic:
            print('note: the library does not compile all kinds of callables there, built without: ' + ' '.join(basic), flush=True)
        if errs:
            bad = [c for c in res if not os.path.exists(res[c])]
            if len(bad) == len(res):
                raise CheckError(errs[0])
            print('note: left out, the library does not compile there: %s\n%s' % (' '.join(bad), errs[0][:1500]), flush=True)
            for c in bad:
                del res[c]
        prune()
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def prune():
    for sub, keep in (('obj', 600), ('bin', 160)):
        fs = glob.glob(os.path.join(BUILD, sub, '*'))
        if len(fs) > keep:
            fs.sort(key=lambda f: os.stat(f).st_mtime)
            for f in fs[:len(fs) - keep]:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def parallel(fns, n=NPROC):
    q = queue.Queue()
    for f in fns:
        q.put(f)
    errs = []

    def w():
        while not errs:
            try:
                f = q.get_nowait()
            except queue.Empty:
                return
            try:
                f()
            except Exception as e:      # noqa: BLE001
                errs.append(e)
    ts = [threading.Thread(target=w) for _ in range(min(n, len(fns)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


# ------------------------------------------------------------------ running
def sim(binary, args, timeout=600, env=None):
    e = dict(os.environ)
    e.pop('SIM_REEXEC', None)
    if env:
        e.update(env)
    p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=e)
    return p.stdout


def last_json(out):
    for line in reversed(out.strip().split('\n')):
        if line.startswith('{'):
            return json.loads(line, strict=False)
    raise CheckError('simulator gave no result: ' + out[-500:])


def run_one(binary, knobs, seed):
    return last_json(sim(binary, ['one', knobs, str(seed)]))


def replay_blocks(binary, knobs, blocks, verbose=False, env=None):
    with tempfile.NamedTemporaryFile('w', suffix='.blk', delete=False) as f:
        for b in blocks:
            f.write(' '.join(map(str, b)) + '\n')
    try:
        os.chmod(f.name, 0o644)
        out = sim(binary, ['replay', knobs, f.name] + (['v'] if verbose else []), env=env)
        return (last_json(out), out) if verbose else last_json(out)
    finally:
        os.unlink(f.name)


def show(d):
    return '%s: %s' % (d['cls'], d['msg'])


def ddmin(test, blocks, limit_s=12.0, limit_n=600):
    """deletes blocks, then simplifies values, while test(blocks) holds"""
    t0, n = time.time(), [0]

    def ok(b):
        if time.time() - t0 > limit_s or n[0] >= limit_n:
            return False
        n[0] += 1
        return test(b)
    head, blocks = blocks[:1], blocks[1:]
    # a shorter tail first
    size = max(1, len(blocks) // 2)
    while size >= 1:
        i, changed = 0, False
        while i < len(blocks):
            cand = blocks[:i] + blocks[i + size:]
            if ok(head + cand):
                blocks, changed = cand, True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        if time.time() - t0 > limit_s or n[0] >= limit_n:
            break
    allb = head + blocks
    for bi in range(len(allb)):
        for vi in range(len(allb[bi]) - 1, -1, -1):
            v = allb[bi][vi]
            for nv in ((0,) if v == 1 else (0, v // 2) if v else ()):
                cand = [list(x) for x in allb]
                cand[bi][vi] = nv
                if ok(cand):
                    allb = cand
                    break
        while allb[bi] and allb[bi][-1] == 0:      # missing values read as 0
            allb[bi] = allb[bi][:-1]
    return allb, n[0]


class Stop(Exception):
    pass


def explore(prop, jobs, bins, seed, tier, deadline):
    """jobs: list of dict(cfg|diff, knobs, n).  returns (stats, candidate violations)"""
    stats = {'runs': 0, 'nontrivial': 0, 'steps': 0, 'switches': 0, 'events': 0, 'histories': 0, 'cpu': 0.0,
             'cov': {}, 'faults': {}, 'schedules': set(), 'states': set(), 'samples': [], 'per_config': {}, 'cut': 0}
    lock, cands, stop = threading.Lock(), [], threading.Event()
    tasks = []
    for ji, j in enumerate(jobs):
        base = (seed * 1000003 + ji * 7919 + 17) % (1 << 31) * 1000
        shards = max(1, min(NPROC, j['n'] // 50))
        for k in range(shards):
            cnt = (j['n'] - k + shards - 1) // shards
            if cnt > 0:
                tasks.append((j, base + k, shards, cnt, ji, k))
    # the first part of every job comes first, so that a slow machine cuts depth, not breadth
    tasks.sort(key=lambda t: t[1] % 97 if tier == 'thorough' else t[5])

    def merge(d, j, cfg):
        with lock:
            for k in ('runs', 'nontrivial', 'steps', 'switches', 'events', 'histories'):
                stats[k] += d[k]
            stats['cpu'] += d['wall']
            for k in ('cov', 'faults'):
                for n, v in d[k].items():
                    stats[k][n] = stats[k].get(n, 0) + v
            stats['schedules'].update(d['schedules'])
            stats['states'].update(d['states'])
            pc = stats['per_config'].setdefault(cfg, {'runs': 0, 'switches': 0})
            pc['runs'] += d['runs']
            pc['switches'] += d['switches']
            if d['sample'] and len(stats['samples']) < 12:
                stats['samples'].append(dict(d['sample'], config=cfg, knobs=j['knobs']))
            if d['violation']:
                cands.append({'cfg': cfg, 'knobs': j['knobs'], 'v': d['violation'], 'kind': 'run'})
                if len(cands) >= 4:
                    stop.set()

    def do(task):
        j, s0, stride, cnt, ji, _ = task
        if stop.is_set():
            return
        if cands and len(cands) >= 1 and time.time() > t_first[0] + 2.0:
            return
        left = deadline - time.time()
        if left <= 0.5:
            with lock:
                stats['cut'] += cnt
            return
        lim = max(0.5, min(left, j.get('limit', 1e9)))
        if 'diff' in j:
            outs = []
            for c in j['diff']:
                d = last_json(sim(bins[c], ['run', j['knobs'], str(s0), str(stride), str(cnt), '%.1f' % (lim / len(j['diff'])), 'h'], timeout=lim + 200))
                merge(d, j, c)
                outs.append((c, d))
            if any(d['violation'] for c, d in outs):
                return
            ref, rd = outs[0]
            rh = dict(x.split(':') for x in rd['hashes'])
            for c, d in outs[1:]:
                for x in d['hashes']:
                    s, h = x.split(':')
                    if s in rh and rh[s] != h:
                        with lock:
                            cands.append({'cfg': ref, 'cfg2': c, 'knobs': j['knobs'], 'v': {'seed': int(s)}, 'kind': 'diff'})
                        return
        else:
            d = last_json(sim(bins[j['cfg']], ['run', j['knobs'], str(s0), str(stride), str(cnt), '%.1f' % lim], timeout=lim + 200))
            merge(d, j, j['cfg'])
            if d['runs'] < cnt and not d['violation']:
                with lock:
                    stats['cut'] += cnt - d['runs']
    t_first = [1e18]

    def wrapped(t):
        def f():
            do(t)
            if cands and t_first[0] == 1e18:
                t_first[0] = time.time()
        return f
    parallel([wrapped(t) for t in tasks])
    return stats, cands


def confirm(c, bins):
    """fresh-process reproduction of a candidate; returns a dict with blocks, or None"""
    if c['kind'] == 'diff':
        a, b = (run_one(bins[x], c['knobs'], c['v']['seed']) for x in (c['cfg'], c['cfg2']))
        a2, b2 = (run_one(bins[x], c['knobs'], c['v']['seed']) for x in (c['cfg'], c['cfg2']))
        if a['hash'] != a2['hash'] or b['hash'] != b2['hash'] or a['hash'] == b['hash']:
            return None
        return {'status': 2, 'cls': 'impl-differs', 'msg': 'the observable history in %s differs from the one in %s for the same program' % (c['cfg2'], c['cfg']),
                'hash': a['hash'] + '/' + b['hash'], 'blocks': a['blocks'], 'steps': a['steps'], 'last': ''}
    rs = [run_one(bins[c['cfg']], c['knobs'], c['v']['seed']) for _ in range(2)]
    if all(r['status'] != 1 and r['cls'] == c['v']['cls'] and r['hash'] == c['v']['hash'] for r in rs):
        return rs[0]
    c['loose'] = [r for r in rs if r['status'] != 1]
    return None


def confirm_loose(c, bins):
    """undefined behaviour of the code under test can make the history itself vary: the violation has to occur every time"""
    if c['kind'] == 'diff':
        return None
    rs = [run_one(bins[c['cfg']], c['knobs'], c['v']['seed']) for _ in range(4)]
    return rs[0] if all(r['status'] != 1 for r in rs) else None


def diff_outcome(bins, cfgs, knobs, blocks):
    a, b = (replay_blocks(bins[x], knobs, blocks) for x in cfgs)
    if a['status'] == 1 and b['status'] == 1 and a['hash'] != b['hash']:
        return 'impl-differs', a['hash'] + '/' + b['hash'], a['steps']
    for x in (a, b):
        if x['status'] != 1:
            return x['cls'], a['hash'] + '/' + b['hash'], a['steps']
    return 'ok', '', 0


def report(prop, c, r, bins, tier):
    """minimises a confirmed violation, writes the replay file, returns its path"""
    cfg, knobs = c['cfg'], c['knobs']
    if c['kind'] == 'diff':
        def test(b):
            return diff_outcome(bins, (cfg, c['cfg2']), knobs, b)[0] == 'impl-differs'
    else:
        def test(b):
            x = replay_blocks(bins[cfg], knobs, b, env={'SIM_CPU': '2', 'SIM_WALL': '5'})
            return x['status'] != 1 and x['cls'] == r['cls']
    orig = r['blocks']
    blocks, tries = orig, 0
    if test(orig):
        blocks, tries = ddmin(test, orig)
    if c['kind'] == 'diff':
        cls, h, steps = diff_outcome(bins, (cfg, c['cfg2']), knobs, blocks)
        fin, log = {'cls': cls, 'hash': h, 'steps': steps, 'msg': r['msg']}, ''
        for x in (cfg, c['cfg2']):
            log += '--- %s ---\n' % x + replay_blocks(bins[x], knobs, blocks, True)[1]
    else:
        fin, log = replay_blocks(bins[cfg], knobs, blocks, True)
        again = replay_blocks(bins[cfg], knobs, blocks)
        if again['cls'] != fin['cls'] or again['hash'] != fin['hash'] or fin['cls'] != r['cls']:
            blocks = orig
            fin, log = replay_blocks(bins[cfg], knobs, blocks, True)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    name = '%s-%s-%s-%d.json' % (prop, cfg, fin['cls'].replace(' ', '_').replace('/', '_'), c['v']['seed'])
    path = os.path.join('replays', name)
    lines = [x for x in log.split('\n') if x and not x.startswith('{')]
    json.dump({'property': prop, 'config': cfg, 'config2': c.get('cfg2'), 'knobs': knobs, 'seed': c['v']['seed'], 'class': fin['cls'], 'message': fin['msg'],
               'hash': fin['hash'], 'operations': len(blocks), 'original_operations': len(orig), 'minimiser_runs': tries,
               'blocks': blocks, 'trace': lines[-400:]}, open(os.path.join(ROOT, path), 'w'), indent=1)
    return path, fin, len(orig), len(blocks), lines


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e['property'] == prop:
                res.append(e)
    return res


def determinism(jobs, bins, seed, n):
    """the same seeds twice, in fresh processes, with another address layout: identical histories"""
    seen, bad, total = {}, [], [0]
    todo = []
    for j in jobs:
        for c in (j['diff'] if 'diff' in j else [j['cfg']]):
            if seen.setdefault(c, 0) < 2:
                seen[c] += 1
                todo.append((c, j['knobs']))

    def one(c, k):
        s0 = str((seed * 7 + 3) * 100000)
        a = last_json(sim(bins[c], ['run', k, s0, '1', str(n), '60', 'h']))
        b = last_json(sim(bins[c], ['run', k, s0, '1', str(n), '60', 'h'], env={'SIM_REEXEC': '1'}))      # this one keeps address randomisation
        total[0] += len(a['hashes'])
        if not a['violation'] and not b['violation'] and a['hashes'] != b['hashes']:
            bad.append((c, k))
    parallel([(lambda c=c, k=k: one(c, k)) for c, k in todo])
    return total[0], bad


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    print('check %s tier=%s seed=%d' % (prop, tier, seed), flush=True)
    jobs = [dict(j) for j in CAMPAIGNS[prop]]
    if tier == 'thorough':
        jobs += [dict(j) for j in THOROUGH.get(prop, [])]
        for j in jobs:
            j['n'] *= int(os.environ.get('SIM_SCALE', '40'))
    cfgs = sorted({c for j in jobs for c in (j['diff'] if 'diff' in j else [j['cfg']])})
    bins = build(cfgs, lenient=True)
    tb = time.time() - t0
    left_out = [c for c in cfgs if c not in bins]
    for j in jobs:
        if 'diff' in j:
            j['diff'] = [c for c in j['diff'] if c in bins]
    jobs = [j for j in jobs if (len(j['diff']) > 1 if 'diff' in j else j['cfg'] in bins)]
    ndet, bad = determinism(jobs, bins, seed, 12)
    t1 = time.time()
    deadline = t1 + (90 if tier == 'quick' else 3600)
    stats, cands = explore(prop, jobs, bins, seed, tier, deadline)
    wall = time.time() - t1
    found, unconfirmed = None, 0
    # several candidates: prefer the one with the shortest history
    cands.sort(key=lambda c: (c['v'].get('steps', 0), c['v']['seed']))
    known, hit = known_findings(prop), []
    for c in cands:
        r = confirm(c, bins)
        if not r:
            unconfirmed += 1
            continue
        found = (c, r)
        break
    if not found:
        for c in cands:
            r = confirm_loose(c, bins)
            if r:
                found = (c, r)
                break
    runs = stats['runs']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(stats['schedules']),
            'rule': 'one evaluation is one complete simulated run: a seed chooses the program (operations, objects, sizes), the schedule and the injected faults; '
                    'runs count as distinct and non-trivial by the hash of their sequence of context and thread switches (runs with no switch or allocation event are not counted), '
                    'so two runs with the same switch sequence count once',
            'samples': stats['samples'][:6],
            'runs_per_hour': int(runs / max(wall, 1e-9) * 3600), 'seeds_per_hour': int(runs / max(wall, 1e-9) * 3600),
            'simulated_time': {'unit': 'logical steps (wake-ups, i.e. control transfers observed and checked)', 'steps': stats['steps'], 'switches': stats['switches'], 'history_events': stats['events']},
            'faults_injected': stats['faults'],
            'reach': stats['cov'],
            'distinct_schedules': len(stats['schedules']), 'schedule_measure': 'FNV hash of the ordered (from, to, kind, thread) switch sequence of a run',
            'distinct_states': len(stats['states']), 'state_measure': 'abstract model state after each switch: status and stack depth class of every context plus the kind of switch',
            'configurations': stats['per_config'],
            'configurations_left_out': left_out,
            'jobs': [{k: v for k, v in j.items()} for j in jobs],
            'seeds_not_run_because_of_time': stats['cut'],
            'determinism_check': {'seeds_run_twice_in_fresh_processes_with_other_layout': ndet, 'mismatches': 0},
            'components': dict(NOTES['components'], **COMPONENTS.get(prop, {})),
            'build_s': round(tb, 1), 'explore_s': round(wall, 1), 'cpu_s': round(stats['cpu'], 1),
        },
        'assumptions': ASSUME.get(prop, NOTES['assumptions']),
        'wall_s': round(time.time() - t0, 1),
        'violations': 0,
    }
    rc = 0
    if found:
        c, r = found
        path, fin, n0, n1, lines = report(prop, c, r, bins, tier)
        k = [e for e in known if e['class'] == fin['cls'] and e['config'] == c['cfg'] and e['hash'] == fin['hash']]
        if k:
            hit = k
        else:
            ev['violations'] = 1
            ev['coverage']['violation'] = {'class': fin['cls'], 'message': fin['msg'], 'config': c['cfg'], 'seed': c['v']['seed'], 'operations': n1, 'before_minimisation': n0, 'replay': path}
            print('%s (config %s, knobs "%s", seed %d; %d operations, %d before minimisation)' % (show(fin), c['cfg'], c['knobs'], c['v']['seed'], n1, n0))
            for x in lines[-25:]:
                print('   | ' + x)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if rc == 0 and bad:
        raise CheckError('simulation is not deterministic in ' + str(bad))
    if rc == 0 and unconfirmed:
        for c in cands:
            print('unconfirmed: ' + json.dumps({k: v for k, v in c['v'].items() if k != 'blocks'}), c['cfg'], c['knobs'])
        raise CheckError('a candidate violation did not reproduce from its seed')
    print('%s: %d runs, %d distinct schedules, %d states, %.1f s (build %.1f s)%s' % (prop, runs, len(stats['schedules']), len(stats['states']), time.time() - t0, tb, ' - VIOLATED' if rc else ' - held'))
    return rc


def replay(path):
    d = json.load(open(path))
    cfgs = [d['config']] + ([d['config2']] if d.get('config2') else [])
    bins = build(cfgs)
    if d.get('config2'):
        cls, h, _ = diff_outcome(bins, cfgs, d['knobs'], d['blocks'])
        out = ''
    else:
        x, out = replay_blocks(bins[cfgs[0]], d['knobs'], d['blocks'], True)
        cls, h = (x['cls'], x['hash']) if x['status'] != 1 else ('ok', x['hash'])
        print('\n'.join(y for y in out.split('\n') if not y.startswith('{')))
    print('recorded: %s %s   replayed: %s %s' % (d['class'], d['hash'], cls, h))
    if cls == d['class']:
        if h != d['hash']:
            print('note: same violation, different history (the code changed since it was recorded)')
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('the recorded violation does not occur on the current tree')
    return 0


def selftest(props):
    bad = 0
    for p in props:
        jobs = CAMPAIGNS[p]
        cfgs = sorted({c for j in jobs for c in (j['diff'] if 'diff' in j else [j['cfg']])})
        bins = build(cfgs)
        n, b = determinism(jobs, bins, random.randrange(1000), 400)
        print(p, n, 'seeds twice,', 'DIVERGED ' + str(b) if b else 'identical', flush=True)
        bad |= bool(b)
    return bad


def main():
    a = sys.argv[1:]
    try:
        if not a:
            print(__doc__)
            return 2
        if a[0] == '--build':
            t = time.time()
            build(sorted(CONFIGS), lenient=True)
            print('built %d simulators in %.0f s' % (len(CONFIGS), time.time() - t))
            return 0
        if a[0] == '--replay':
            return replay(a[1])
        if a[0] == '--selftest':
            return selftest(a[1:] or sorted(CAMPAIGNS))
        tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[0], tier)
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
