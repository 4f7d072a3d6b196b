#!/usr/bin/env python3
"""check.py <property>: decide one property of geminio (see DESIGN.md).

 1. TLC checks the design models of the property (spec/, exhaustively within the bounds of the cfg).
 2. TLC generates behaviours of them, which the Go driver replays on the code; it also runs random
    scenarios.  Every run is recorded as a sequence of events.
 3. TLC decides for every recorded run whether it is a behaviour of the monitor (spec/Geminio.tla,
    spec/Wire.tla, ...).

Exit 0: held; 1: VIOLATION line; anything else: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, collections, random

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks import PROPS, ASSUME  # noqa: E402

ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off',
           GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod')
ENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + ENV.get('PATH', '')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = ':'.join(sorted(glob.glob('/opt/veriftools/tla/*.jar')))
T0 = time.time()


class Broken(Exception):
    pass


def log(*a):
    print('[%5.1f]' % (time.time() - T0), *a, flush=True)


def build(tmp):
    d = os.path.join(tmp, 'h')
    os.mkdir(d)
    for f in os.listdir(os.path.join(ROOT, 'harness')):
        p = os.path.join(ROOT, 'harness', f)
        if os.path.isfile(p) and (f.endswith('.go') or f in ('go.mod', 'go.sum')):
            shutil.copy(p, d)
    p = subprocess.run(['go', 'build', '-o', os.path.join(tmp, 'vh'), '.'], cwd=d, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken('building the driver failed:\n' + p.stdout[-4000:])
    return os.path.join(tmp, 'vh')


def tlc(tmp, module, cfg, extra=(), workers=1, heap='2g', timeout=600, env=None, expect=(0,)):
    """run TLC, return its output"""
    md = tempfile.mkdtemp(dir=tmp)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-cp', CM, 'tlc2.TLC',
           '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'spec'), env=dict(ENV, **(env or {})),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC on %s %s took more than %d s' % (module, cfg, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    if expect is not None and p.returncode not in expect:
        raise Broken('TLC on %s %s exited with %d:\n%s' % (module, cfg, p.returncode, p.stdout[-4000:]))
    return p.returncode, p.stdout


def model(tmp, m, tier):
    """exhaustive check of a design model"""
    t = time.time()
    cfg = m['cfg'] + '.cfg'
    bug = m.get('bug')
    if bug:
        # the same with a fault, which has to be found: the model isn't vacuous
        txt = open(os.path.join(ROOT, 'spec', cfg)).read()
        cfg = os.path.join(tmp, '%s.%s.cfg' % (m['cfg'], bug))
        open(cfg, 'w').write(txt.replace('BUG = "no"', 'BUG = "%s"' % bug))
    rc, out = tlc(tmp, m['module'] + '.tla', cfg, expect=(10, 11, 12, 13, 14) if bug else (0,), workers=m.get('workers', 2),
                  heap=m.get('heap', '3g'), timeout=m.get('timeout', 600 if tier == 'quick' else 3000))
    if bug:
        if 'is violated' not in out:
            raise Broken('TLC on %s with the fault %s: %s' % (m['cfg'], bug, out[-3000:]))
    elif 'No error has been found' not in out:
        raise Broken('TLC on %s: %s' % (m['cfg'], out[-3000:]))
    n = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
    if not n:
        raise Broken('TLC on %s: no count of states' % m['cfg'])
    return dict(model=m['cfg'] + (' with fault ' + bug + ': found' if bug else ''), generated=int(n[-1][0]), distinct=int(n[-1][1]), wall=round(time.time() - t, 1),
                complete='queue' in out and ' 0 states left on queue' in out)


def generate(tmp, g, seed, tier):
    """behaviours of a design model, as schedules for the driver"""
    out = os.path.join(tmp, 'gen-%s.ndjson' % g['cfg'])
    num = g['num'] if tier == 'quick' else g.get('tnum', g['num'] * 10)
    parts = []
    nproc = g.get('procs', 2)

    def one(i):
        o = out + '.%d' % i
        tlc(tmp, g['module'] + '.tla', g['cfg'] + '.cfg',
            extra=['-simulate', 'num=%d' % (num // nproc), '-depth', str(g.get('depth', 60)),
                   '-seed', str(seed * 1000 + i)],
            env={'OUT': o}, heap='2g', timeout=900)
        return o
    with cf.ThreadPoolExecutor(nproc) as ex:
        parts = list(ex.map(one, range(nproc)))
    seen, n = set(), 0
    for p in parts:
        if os.path.exists(p):
            for l in open(p):
                n += 1
                if l.strip():
                    seen.add(l)
    if not seen:
        raise Broken('no behaviours generated from ' + g['cfg'])
    seen = sorted(seen)
    random.Random(seed).shuffle(seen)
    most = g.get('most', (500, 10000))[tier == 'thorough']
    with open(out, 'w') as f:
        f.writelines(seen[:most])
    return out, n, min(len(seen), most)


def drive(vh, args, timeout):
    p = subprocess.Popen([vh] + args, env=dict(ENV, GOTRACEBACK='all'), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        return 'timeout', err.decode('utf8', 'replace')


def crashed(err):
    """the process died: because of geminio (True), or of the driver"""
    if 'harness:' in err[:200000] and 'panic: harness:' in err:
        return False
    for mark in ('panic: ', 'fatal error: ', 'unexpected fault'):
        i = err.find(mark)
        if i >= 0:
            # the goroutine which failed comes first
            first = err[i:].split('\n\ngoroutine ', 2)
            head = '\n'.join(first[:2])
            if 'github.com/singchia/' in head or 'github.com/jumboframes/' in head or mark != 'panic: ':
                return True
            return 'main.' not in head
    return False


def runs_of(path):
    return [json.loads(l) for l in open(path + '.idx')]


def validate(tmp, path, runs, mod, late=None, chunk=60000):
    """the runs of which the monitor rejects an event: [(run, line)]"""
    lines = open(path, 'rb').read().split(b'\n')
    jobs, cur, n = [], [], 0
    for r in runs:
        cur.append(r)
        n += r['n']
        if n >= chunk:
            jobs.append(cur)
            cur, n = [], 0
    if cur:
        jobs.append(cur)
    cfg = mod + ('.late' if late else '') + '.cfg'

    def one(i, odd=0):
        f = '%s.v%d%s' % (path, i, 'l' if late else '')
        pos, ends = [], []
        k = 0
        with open(f, 'wb') as o:
            for r in jobs[i]:
                for x in lines[r['from']:r['from'] + r['n']]:
                    o.write(x + b'\n')
                k += r['n']
                ends.append(k)
        rc, out = tlc(tmp, mod + '.tla', cfg, env={'TRACE': f}, heap='3g', timeout=900, expect=(0, 75))
        if rc == 75:
            # an event of a kind which the monitor can't even evaluate: so it isn't allowed.
            # Without the run it's in, again
            m = re.findall(r'The depth of the complete state graph search is (\d+)', out)
            b = int(m[-1]) - 1 if m else -1
            if not 0 <= b < k:
                raise Broken('TLC on %s: %s' % (mod, out[-3000:]))
            j = next(x for x in range(len(ends)) if b < ends[x])
            log('not evaluated: ' + re.sub(r'\s+', ' ', out[out.find('Error:'):][:400]))
            r = jobs[i][j]
            jobs[i] = jobs[i][:j] + jobs[i][j + 1:]
            bad, k1 = one(i, odd + 1) if jobs[i] and odd < 4 else ([], sum(x['n'] for x in jobs[i]))
            return bad + [(r, b - (ends[j] - r['n']))], k1 + r['n']
        os.unlink(f)
        d = re.findall(r'<<"DONE", (\d+), (\d+)>>', out)
        if not d or int(d[0][0]) != int(d[0][1]) or int(d[0][1]) != k:
            raise Broken('TLC did not consume the trace: %s\n%s' % (d, out[-3000:]))
        bad = []
        for b in re.findall(r'<<"BAD", (\d+)>>', out):
            b = int(b) - 1
            j = next(x for x in range(len(ends)) if b < ends[x])
            bad.append((jobs[i][j], b - (ends[j] - jobs[i][j]['n'])))
        return bad, k
    bad, total = [], 0
    with cf.ThreadPoolExecutor(6) as ex:
        for b, k in ex.map(one, range(len(jobs))):
            bad += b
            total += k
    return bad, total


def load_known():
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for l in open(p):
        m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l.strip())
        if m:
            res.append(m.groups())
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix='vchk-')
    try:
        return decide(pid, P, tier, seed, tmp)
    except Broken as e:
        print('CHECK FAILED: %s' % e, flush=True)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, P, tier, seed, tmp):
    vh = build(tmp)
    log('built')
    ex = cf.ThreadPoolExecutor(8)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, models=[], scenarios={}, samples=[])
    evk = collections.Counter()
    viols, known = [], []
    replay = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(replay, exist_ok=True)
    for f in glob.glob(os.path.join(replay, pid + '-*')):
        os.unlink(f)

    def save(name, data):
        p = os.path.join(replay, '%s-%s' % (pid, name))
        open(p, 'wb').write(data)
        return p

    def batch(tag, scen, sd, budget, mod, sched=None, par=8, procs=0):
        """run, and judge"""
        out = os.path.join(tmp, 'tr-%s.ndjson' % tag)
        args = ['run', '-scen', scen, '-seed', str(sd), '-out', out, '-par', str(par), '-procs', str(procs)]
        if budget:
            args += ['-budget', '%ds' % budget]
        if sched:
            args += ['-sched', sched]
        rc, err = drive(vh, args, (budget or 120) + 240)
        if rc != 0:
            open_ = []
            for l in err.split('\n'):
                m = re.match(r'(START|END) (\S+) (\d+)', l)
                if m:
                    (open_.append if m.group(1) == 'START' else open_.remove)((m.group(2), m.group(3)))
            if rc == 'timeout' or crashed(err):
                i = max(err.find('panic: '), err.find('fatal error: '), 0)
                p = save('crash-%s.txt' % tag, ('running: %s\n' % open_ + err[i:i + 200000]).encode())
                viols.append((p, 'the process %s in %s' % ('did not end' if rc == 'timeout' else 'crashed', tag)))
                if not os.path.exists(out + '.idx'):
                    return
            else:
                raise Broken('the driver failed (%s): %s' % (rc, err[-3000:]))
        runs = runs_of(out)
        if not runs:
            if rc != 0:
                return
            raise Broken('nothing was recorded by ' + tag)
        log('%s: %d runs, %d events' % (tag, len(runs), sum(r['n'] for r in runs)))
        data = open(out, 'rb').read().split(b'\n')
        for r in runs:
            cov['scenarios'][r['scen']] = cov['scenarios'].get(r['scen'], 0) + 1
            for x in data[r['from']:r['from'] + r['n']]:
                evk[x[7:x.find(b'"', 7)].decode()] += 1
        if sched:
            cov['diverged'] = sum(1 for x in data if b'"what":"diverged' in x)
        bad, total = validate(tmp, out, runs, mod)
        cov['events'] += total
        cov['traces_validated_against_impl'] += len(runs) - len(bad)
        cov['transitions'] += total
        cov['states'] += total
        if len(cov['samples']) < 4:
            r = runs[len(runs) // 2]
            cov['samples'].append(dict(scenario=r['scen'], seed=r['seed'], events=r['n'],
                                       first=[x.decode() for x in data[r['from']:r['from'] + 8]]))
        if not bad:
            return
        # is it only late?  then it has to be late again and again
        slow, _ = validate(tmp, out, [r for r, _ in bad], mod, late=True)
        hard = {(r['scen'], r['seed']) for r, _ in slow}
        soft = 0
        for r, n in sorted(bad, key=lambda x: (x[0]['scen'], x[0]['seed']) not in hard)[:40]:
            line = data[r['from'] + n].decode()
            key = (r['scen'], r['seed'])
            why = 'event %d of %s, seed %d: %s' % (n, r['scen'], r['seed'], line[:300])
            k = [x for x in KNOWN if x[0] == pid and re.search(x[1], r['scen'] + ' ' + line)]
            if k:
                known.append(k[0][2])
                continue
            if key not in hard:
                soft += 1
                if viols or soft > 8:
                    break
                log('late: ' + why)
                again = 0
                for j in range(3):
                    o2 = os.path.join(tmp, 're.ndjson')
                    rc2, _ = drive(vh, ['run', '-scen', r['scen'], '-one', str(r['seed']), '-out', o2, '-par', '1', '-patient', '8']
                                   + (['-sched', sched] if sched else []), 240)
                    b2 = rc2 != 0 or validate(tmp, o2, runs_of(o2), mod)[0]
                    again += 1 if b2 else 0
                if again < 2:
                    log('not reproduced alone, an effect of the load')
                    cov['late_runs_discarded'] = cov.get('late_runs_discarded', 0) + 1
                    continue
            p = save('%s-%d.ndjson' % key, b'\n'.join(data[r['from']:r['from'] + n + 1]) + b'\n')
            st = '%s.%s.%d.stacks' % (out, r['scen'], r['seed'])
            if os.path.exists(st):
                shutil.copy(st, p + '.stacks')
            viols.append((p, why))
            if len(viols) >= 5:
                break

    global KNOWN
    KNOWN = load_known()
    gens = []
    for g in P.get('gens', []):
        gens.append((g, ex.submit(generate, tmp, g, seed, tier)))
    rounds = 1 if tier == 'quick' else P.get('rounds', 12)
    for i in range(rounds):
        for tag, spec in P.get('runs', {}).items():
            b = spec.get('budget', 12)
            batch('%s-%d' % (tag, i), spec['scen'], seed * 100 + i, b, spec.get('mod', 'TraceGeminio'), par=spec.get('par', 8),
                  procs=spec.get('procs', 0) or (48 if i % 3 == 2 else 0))
            if viols and tier == 'quick':
                break
        if len(viols) >= 5 or (viols and tier == 'quick'):
            break
    for g, fu in gens:
        path, n, d = fu.result()
        cov.setdefault('schedules', {})[g['cfg']] = dict(behaviours=n, distinct=d)
        if not viols or tier == 'thorough':
            batch('gen-' + g['cfg'], '%s:%d' % (g['scen'], d), seed, g.get('budget', 15 if tier == 'quick' else 300),
                  g.get('mod', 'TraceGeminio'), sched=path)
            cov['schedules'][g['cfg']]['replays_which_left_the_model'] = cov.pop('diverged', 0)
    # after the runs, which the load would disturb
    mex = cf.ThreadPoolExecutor(3 if tier == 'quick' else 1)
    todo = [m for m in P.get('models', []) if tier == 'thorough' or not m.get('thorough')] if not viols or tier == 'thorough' else []
    for fu in [mex.submit(model, tmp, m, tier) for m in todo]:
        r = fu.result()
        cov['models'].append(r)
        cov['states'] += r['distinct']
        cov['transitions'] += r['generated']
    ex.shutdown()
    cov['event_kinds'] = dict(evk.most_common())
    cov['exhaustive'] = False
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=len(viols))
    p = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    for w in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    for f, w in viols:
        print('# ' + w)
        print('VIOLATION property=%s replay=%s' % (pid, f))
    log('%s: %d runs, %d events, %d models' % (pid, cov['traces_validated_against_impl'], cov['events'], len(cov['models'])))
    return 1 if viols else 0


if __name__ == '__main__':
    sys.exit(main())
