"""Runner: TLC explores a specification and emits behaviours (rendered document
+ predicted observations); the harness replays each of them into the real code
built from /repo's working tree and compares."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
REPLAYS = os.path.join(VERIF, 'replays')
BIN = os.path.join(TARGET, 'debug', 'adk-conf')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(HOME='/root', LANG='C.UTF-8', RUSTUP_TOOLCHAIN='1.90.0-x86_64-unknown-linux-gnu',
               CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
               RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=TARGET)
    env['PATH'] = '/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin'
    return env


def build(crate='harness'):
    r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(VERIF, crate),
                       env=cargo_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('harness build failed:\n' + r.stderr[-4000:])


def tlc_job(job, workdir, seed):
    """job: name, spec, consts{}, mode 'bfs'|'sim', inv[], num, depth, workers, timeout"""
    name = job['name']
    d = os.path.join(workdir, 'tlc-' + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    cfg = ['INIT ' + job.get('init', 'Init'), 'NEXT ' + job.get('next', 'Next'), 'CHECK_DEADLOCK FALSE']
    for c, v in job.get('consts', {}).items():
        cfg.append(f'CONSTANT {c} = {v}')
    for i in job.get('inv', []) + ['Emit']:
        cfg.append('INVARIANT ' + i)
    if job.get('constraint'):
        cfg.append('CONSTRAINT ' + job['constraint'])
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    w = str(job.get('workers', 2))
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + job.get('heap', '2500m'), '-Xss16m',
           '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
           '-config', 'M.cfg', '-workers', w, '-metadir', os.path.join(d, 'states')]
    if job['mode'] == 'sim':
        cmd += ['-seed', str(seed + job.get('seedoff', 0)), '-simulate', f"num={job['num']}", '-depth', str(job['depth'])]
    cmd.append(job['spec'] + '.tla')
    raw = os.path.join(d, 'out.txt')
    t0 = time.time()
    with open(raw, 'w') as out:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT,
                                timeout=job.get('timeout', 700)).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC job {name} timed out')
    cases = {}
    tail = []
    states = distinct = 0
    with open(raw, errors='replace') as f:
        for line in f:
            if line.startswith('"@@'):
                # the specifications write characters beyond ASCII as \\uXXXX
                s = re.sub(r'\\\\u([0-9a-f]{4})', r'\\u\1', json.loads(line.rstrip('\n'))[2:])
                k = hashlib.sha1(s.encode()).hexdigest()
                cases[k] = s
            else:
                tail.append(line)
                m = re.match(r'(\d+) states generated, (\d+) distinct', line)
                if m:
                    states, distinct = int(m[1]), int(m[2])
                m = re.match(r'Progress.*?: (\d+) states checked', line)
                if m and job['mode'] == 'sim':
                    states = distinct = int(m[1])
                m = re.match(r'The number of states generated: (\d+)', line)
                if m:
                    states = distinct = int(m[1])
    if rc != 0:
        raise ToolError(f'TLC job {name} rc={rc}:\n' + ''.join(tail[-60:]))
    shutil.rmtree(d, ignore_errors=True)
    return dict(name=name, states=states, distinct=distinct, cases=list(cases.values()), cap=job.get('cap'),
                wall=round(time.time() - t0, 1), mode=job['mode'],
                emits=job.get('emits', True), expect=job.get('expect'), also=job.get('also'))


def case_id(c):
    k = {x: c.get(x) for x in ('lines', 'files', 'set', 'nofinaleol')}
    return hashlib.sha1(json.dumps(k, sort_keys=True).encode()).hexdigest()[:12]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_cases(cases, workdir, binary=None, extra=()):
    """Runs the harness over the cases in parallel shards.  Returns (n, failures)."""
    path = os.path.join(workdir, 'cases.ndjson')
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    n = min(NCPU, max(1, len(cases) // 50 + 1))
    outs = []

    def shard(i):
        out = os.path.join(workdir, f'out-{i}.ndjson')
        st = os.path.join(workdir, f'st-{i}')
        for p in (out, st):
            if os.path.exists(p):
                os.remove(p)
        start, crashes = 0, 0
        done = 0
        while True:
            r = subprocess.run([binary or BIN, 'run', path, out, st, str(i), str(n), str(start), *extra],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, text=True)
            if r.returncode == 0:
                done += json.loads(r.stdout.strip().splitlines()[-1])['done']
                return out, done, crashes
            try:
                cur = int(open(st).read().strip())
            except Exception:
                raise ToolError(f'harness shard {i} failed before its first case (rc {r.returncode})')
            what = 'hang (over 20 s)' if r.returncode == 42 else f'process died (rc {r.returncode}: abort/stack overflow/out of memory)'
            with open(out, 'a') as f:
                f.write(json.dumps({'idx': cur, 'fails': [{'obs': 'crash', 'variant': '?', 'expected': 'terminates normally', 'actual': what}]}) + '\n')
            crashes += 1
            start = cur + 1
            if crashes > 20:
                return out, done, crashes
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(shard, range(n)))
    fails = []
    for out, _, _ in res:
        if os.path.exists(out):
            for line in open(out):
                fails.append(json.loads(line))
    fails.sort(key=lambda f: f['idx'])
    return sum(r[1] for r in res) + sum(r[2] for r in res), fails


def known_findings(pid):
    known = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key=(\w+) (.*)', line.strip())
            if m and m[1] == pid:
                known[m[2]] = m[3]
    return known


def report(pid, tier, seed, level, coverage, violations, t0, assumptions=None, known_hit=None):
    for k, d in (known_hit or {}).items():
        print(f'KNOWN-FINDING: property={pid} {d}')
    os.makedirs(REPLAYS, exist_ok=True)
    shown = 0
    for v in violations:
        key = v['key']
        path = os.path.join(REPLAYS, f'{pid}-{key}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if shown < 5:
            print(f'VIOLATION property={pid} replay={path}')
            for x in v.get('fails', [])[:2]:
                print('   ' + json.dumps(x)[:600])
            shown += 1
        if shown >= 40:
            break
    if len(violations) > 5:
        print(f'({len(violations)} failing behaviours in all)')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    if assumptions:
        ev['assumptions'] = assumptions
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return 1 if violations else 0


def clear_replays(pid):
    if os.path.isdir(REPLAYS):
        for f in os.listdir(REPLAYS):
            if f.startswith(pid + '-'):
                os.remove(os.path.join(REPLAYS, f))


def check_traces(files, workdir, idx_of=lambda i: i):
    """Validates recorded event traces against the machine of Events.tla.  Returns
    (number of traces, events, rejected {idx: (position, events)})"""
    ids, traces = {}, []
    for p in files:
        if os.path.exists(p):
            for line in open(p):
                t = json.loads(line)
                traces.append((t['idx'], [ids.setdefault(e, len(ids) + 1) for e in t['ev']]))
    uniq = {}
    for i, ev in traces:
        uniq.setdefault(tuple(ev), i)
    traces = sorted((i, ev) for ev, i in uniq.items())
    table = []
    for e in ids:
        m = re.match(r'([-+=])(\w+)(?::(\d+))?$', e)
        table.append(dict(k=m[1], n=m[2], a=int(m[3] or 0)))

    def shard(k):
        d = os.path.join(workdir, f'traces-{k}')
        os.makedirs(d)
        mine = traces[k::NCPU]
        if not mine:
            return []
        for f in ('Events.tla', 'EventTraces.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, 'events.ndjson'), 'w') as f:
            f.writelines(json.dumps(e) + '\n' for e in table)
        with open(os.path.join(d, 'traces.ndjson'), 'w') as f:
            f.writelines(json.dumps(dict(idx=i, ev=list(ev))) + '\n' for i, ev in mine)
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write('INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = 0\nCONSTANT MaxDepth = 0\nCONSTANT Kinds = {}\n')
        r = subprocess.run(['java', '-XX:+UseSerialGC', '-Xmx2500m', '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
                            '-config', 'M.cfg', '-workers', '1', '-metadir', os.path.join(d, 'states'), 'EventTraces.tla'],
                           cwd=d, capture_output=True, text=True, timeout=700)
        if r.returncode != 0 or f'{len(mine) + 1} distinct states found' not in r.stdout:
            raise ToolError('trace validation failed:\n' + r.stdout[-3000:])
        return [json.loads(json.loads(line)[2:]) for line in r.stdout.splitlines() if line.startswith('"@@')]
    with ThreadPoolExecutor(NCPU) as ex:
        res = [x for l in ex.map(shard, range(NCPU)) for x in l]
    names = list(ids)
    by = dict(traces)
    rejected = {x['idx']: (x['at'], [names[e - 1] for e in by[x['idx']]]) for x in res}
    return len(traces), sum(len(ev) for _, ev in traces), rejected


def run_property(pid, prop, tier, seed):
    t0 = time.time()
    build()
    clear_replays(pid)
    workdir = os.path.join(WORK, pid)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    jobs = prop['jobs'](tier)
    for j in jobs:
        j.setdefault('cap', 10000 if tier == 'quick' else 300000)
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        results = list(ex.map(lambda j: tlc_job(j, workdir, seed), jobs))
    cases, seen = [], set()
    per_job = []
    for r in results:
        k = 0
        cap = r['cap']
        emitted = len(r['cases'])
        if cap and emitted > cap:
            r['cases'] = random.Random(seed).sample(sorted(r['cases']), cap)
        for s in r['cases']:
            c = json.loads(s)
            c.setdefault('job', r['name'])
            if r['expect']:
                c.update(expect=r['expect'], also=r['also'])
            i = case_id(c) + str(sorted(c.get('expect', {})))
            if i in seen:
                continue
            seen.add(i)
            cases.append(c)
            k += 1
        per_job.append(dict(job=r['name'], mode=r['mode'], states=r['states'], distinct=r['distinct'], emitted=emitted, replayed=k, wall_s=r['wall']))
        if k == 0 and r['emits']:
            raise ToolError(f"job {r['name']} emitted no behaviours")
    if prop.get('traces'):
        tracefile = os.path.join(workdir, 'events')
        n, fails = replay_cases(cases, workdir, extra=(tracefile,))
        ntraces, nevents, rejected = check_traces([f'{tracefile}-{i}' for i in range(NCPU)], workdir)
        of = {f['idx']: f for f in fails}
        for i, (at, ev) in sorted(rejected.items()):
            f = of.get(i)
            if f is None:
                f = dict(idx=i, fails=[])
                fails.append(f)
            f['fails'].append(dict(obs='trace', variant='base', expected='a behaviour of Events.tla',
                                   actual=f'event {at} rejected: ' + ' '.join(ev[max(0, at - 8):at])))
    else:
        n, fails = replay_cases(cases, workdir)
        ntraces = nevents = 0
    known = known_findings(pid)
    violations, hit = [], {}
    for f in fails:
        c = cases[f['idx']]
        key = case_id(c)
        if key in known:
            hit[key] = known[key]
            continue
        violations.append(dict(property=pid, key=key, case=c, fails=f['fails']))
    samples = []
    if cases:
        rnd = random.Random(seed)
        for c in rnd.sample(cases, min(3, len(cases))):
            samples.append(dict(lines=c.get('lines'), expect=c.get('expect')))
    states = sum(j['distinct'] for j in per_job)
    cov = dict(states=states, transitions=sum(j['states'] for j in per_job),
               traces_validated_against_impl=n, samples=samples, jobs=per_job)
    if ntraces:
        cov.update(event_traces_validated_by_tlc=ntraces, events=nevents)
    rc = report(pid, tier, seed, prop['level'], cov, violations, t0, prop.get('assumptions'), hit)
    if rc == 0:
        print(f'{pid}: {n} behaviours replayed, {states} model states, {round(time.time() - t0, 1)} s')
    if not os.environ.get('KEEP_WORK'):
        shutil.rmtree(workdir, ignore_errors=True)
    return rc
