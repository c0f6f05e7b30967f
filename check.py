#!/usr/bin/env python3
"""Driver of one property check:  python3 check.py <id> [--tier quick|thorough] [--replay FILE]

Builds the property's harness from /repo's current working tree, runs the enumerated and the
generated cases in parallel worker processes, turns any failure into a shrunk replay file,
replays it three times, and rewrites evidence/<id>.json.  Exit 0: held; exit 1: VIOLATION."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCPU = 8

from props import PROPS  # noqa: E402

T0 = time.time()
FLAVOURS = {
    # optimised, assertions off: what a Release user runs
    'rel': dict(cxx='g++', flags='-std=c++17 -O2 -DNDEBUG -w'),
    # assertions on, address + undefined-behaviour sanitizers, libstdc++ assertions
    'dbg': dict(cxx='g++', flags='-std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined '
                                 '-fno-sanitize-recover=all -fno-omit-frame-pointer'),
    'tsan': dict(cxx='g++', flags='-std=c++17 -O1 -w -fsanitize=thread'),
    'fuzz': dict(cxx='clang++', flags='-std=c++17 -O1 -w -DPBT_FUZZ -fsanitize=fuzzer,address,undefined '
                                      '-fno-sanitize-recover=all'),
}
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:hard_rss_limit_mb=3000:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=98', TSAN_OPTIONS='exitcode=96:halt_on_error=1')
ENV.pop('RC_PARAMS', None)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class DoesNotCompile(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in [os.path.join(REPO, 'CMakeLists.txt')] + sorted(glob.glob(os.path.join(REPO, 'cmake', '*')) + glob.glob(os.path.join(VERIF, 'harness', '**', '*.*'), recursive=True)):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class Builder:
    def __init__(self, key):
        self.dir = os.path.join(BUILD, key)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)

    def obj(self, flavour, src, extra=''):
        f = FLAVOURS[flavour]
        tag = hashlib.sha256((flavour + src + extra + f['flags']).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, '%s-%s-%s.o' % (os.path.basename(src), flavour, tag))
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = '%s %s %s -I%s/harness -I%s/include -c %s -o %s' % (
                f['cxx'], f['flags'], extra, VERIF, REPO, src, tmp)
            for attempt in (0, 1):
                r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if not r.returncode:
                    break
            if r.returncode:
                # the compiler rejects the public interface the property is stated on (not: out of memory, disk full, ...)
                if re.search(r'(^|\n)\S+:\d+:\d+: (fatal )?error: ', r.stdout) and 'No space left' not in r.stdout:
                    raise DoesNotCompile(cmd, r.stdout)
                raise RuntimeError('compilation failed: %s\n%s' % (cmd, r.stdout[-4000:]))
            os.rename(tmp, out)
        return out

    def link(self, flavour, name, objs):
        f = FLAVOURS[flavour]
        out = os.path.join(self.dir, '%s-%s' % (name, flavour))
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = '%s %s %s -o %s -lrapidcheck -lpthread' % (f['cxx'], f['flags'], ' '.join(objs), tmp)
            r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('link failed: %s\n%s' % (cmd, r.stdout[-4000:]))
            os.rename(tmp, out)
        return out


def sources(prop, flavour):
    """(source, extra flags) of every translation unit of this property's binary."""
    h = os.path.join(VERIF, 'harness')
    out = [(os.path.join(h, 'props', prop['src'] + '.cxx'), '')]
    for l in prop.get('libs', []):
        if l == 'factory':
            if flavour in ('rel', 'tsan'):  # compiled mode: the library's own translation units
                out += [(s, '') for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.cxx')))]
            else:  # header-only mode
                out.append((os.path.join(h, 'ho_impl.cxx'), ''))
        elif l == 'factory_compiled':
            out += [(s, '') for s in sorted(glob.glob(os.path.join(REPO, 'src', '*.cxx')))]
        else:
            out.append((os.path.join(h, l + '.cxx'), ''))
    return out


def prune_builds(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if re.fullmatch(r'[0-9a-f]{16}', d)]
        ds = sorted((d for d in ds if os.path.basename(d) != keep), key=os.path.getmtime)
        for d in ds[:-3]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(prop, flavours):
    key = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    prune_builds(key)
    b = Builder(key)
    bins = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {fl: [ex.submit(b.obj, fl, s, e) for s, e in sources(prop, fl)] for fl in flavours}
        for fl in flavours:
            bins[fl] = b.link(fl, prop['src'], [f.result() for f in futs[fl]])
    return bins


def limits(flavour):
    def pre():
        import resource
        if flavour == 'rel':
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return pre


def run(cmd, flavour, timeout, env=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=timeout, env=env or ENV, preexec_fn=limits(flavour))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def known_lines(pid):
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = PROPS[pid]
    conf = prop[tier]
    flavours = list(conf['flavours'])
    work = os.path.join(BUILD, 'work-%s-%d' % (pid, os.getpid()))
    if '--replay' in sys.argv:
        rp = sys.argv[sys.argv.index('--replay') + 1]
        fl = 'rel'
        for l in open(rp):
            m = re.match(r'# flavour=(\S+)', l)
            if m:
                fl = m.group(1)
        bins = build(prop, [fl])
        rc, out = run([bins[fl], '--replay', rp, '--cpu-limit', '120'], fl, 900)
        print(out, end='')
        print('exit status', rc)
        return 0 if rc == 0 else 1
    os.makedirs(work, exist_ok=True)
    log('check', pid, tier, 'seed', seed)
    use_fuzz = conf.get('fuzz', 0)
    bins = build(prop, flavours + (['fuzz'] if use_fuzz else []))
    log('built', ', '.join(bins))
    t_build = time.time() - T0

    known = known_lines(pid)
    knownf = os.path.join(work, 'known')
    with open(knownf, 'w') as f:
        f.write(''.join(k + '\n' for k in known))
    cap = conf.get('time_cap', 420 if tier == 'quick' else 2400)
    cpu_limit = conf.get('cpu_limit', 30 if tier == 'quick' else 90)

    def params(fl, sh, fc):
        p = ['--seed', str(seed), '--cases', str(fc.get('cases', 0)), '--shard', str(sh), '--nshards', str(fc['shards']),
             '--tier', '1' if tier == 'thorough' else '0', '--cpu-limit', str(fc.get('cpu_limit', cpu_limit)),
             '--time-cap', str(cap), '--known', knownf]
        if not fc.get('enum', True):
            p.append('--no-enum')
        return p

    def worker(job):
        fl, sh = job
        fc = conf['flavours'][fl]
        base = os.path.join(work, '%s.%d' % (fl, sh))
        cmd = [bins[fl]] + params(fl, sh, fc) + ['--out', base + '.json', '--fail', base + '.fail', '--cur', base + '.cur']
        rc, out = run(cmd, fl, cap + 300)
        res = dict(fl=fl, shard=sh, rc=rc, out=out[-3000:], stats=None, case=None, msg=None)
        if os.path.exists(base + '.json'):
            res['stats'] = json.load(open(base + '.json'))
        if rc == 0:
            return res
        if rc == 1 and os.path.exists(base + '.fail'):
            t = open(base + '.fail').read().split('\n')
            res['case'], res['msg'] = t[0], t[1][2:] if len(t) > 1 else ''
            return res
        # crash, sanitizer report, abort or CPU limit: the case being evaluated is in the .cur file
        cur = ''
        if os.path.exists(base + '.cur'):
            cur = open(base + '.cur', 'rb').read().split(b'\0')[0].decode(errors='replace').strip()
        if cur:
            tail = [l for l in out.split('\n') if re.search(r'ERROR|runtime error|Assertion|terminate|PBT:|WARNING: Thread', l)]
            res['case'], res['msg'] = cur, 'worker ended with %s: %s' % (rc, ' | '.join(tail[:3])[:500])
            res['crash'] = True
        else:
            res['lost'] = True
        return res

    jobs = [(fl, sh) for fl in flavours for sh in range(conf['flavours'][fl]['shards'])]
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(worker, jobs):
            results.append(r)
    log('ran', len(jobs), 'workers')

    fuzz_stats = None
    if use_fuzz and not any(r['case'] for r in results):
        fuzz_stats, fres = run_fuzz(bins['fuzz'], work, knownf, seed, use_fuzz, prop)
        results += fres
        log('fuzzed', fuzz_stats)

    # ---- failures: shrink crashes in isolation, then replay three times
    fails = [r for r in results if r['case']]
    fails.sort(key=lambda r: (bool(r.get('crash')), len(r['case']), r['case']))
    violation = None
    flaky = []
    t_fail = time.time()
    for r in fails[:6]:
        if time.time() - t_fail > 240:
            break
        fl = r['fl']
        cands = []
        if r.get('crash') and fl != 'fuzz':
            fc = conf['flavours'][fl]
            base = os.path.join(work, 'iso.%s.%d' % (fl, r['shard']))
            p = params(fl, r['shard'], fc)
            p[p.index('--cpu-limit') + 1] = str(min(20, cpu_limit))
            rc, out = run([bins[fl]] + p + ['--isolate', '--shrink-budget', '45', '--fail', base + '.fail'], fl, 150)
            if os.path.exists(base + '.fail'):
                t = open(base + '.fail').read().split('\n')
                cands.append((t[0], t[1][2:]))
        cands.append((r['case'], r['msg']))
        for case, msg in cands:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            rp = os.path.join(VERIF, 'replays', '%s-%s.case' % (pid, hashlib.sha256(case.encode()).hexdigest()[:10]))
            rfl = 'dbg' if fl == 'fuzz' else fl
            if rfl not in bins:
                bins.update(build(prop, [rfl]))
            with open(rp, 'w') as f:
                f.write('# property=%s\n# flavour=%s\n# python3 check.py %s --replay %s\n# %s\n%s\n' % (pid, rfl, pid, rp, msg, case))
            with cf.ThreadPoolExecutor(3) as ex:
                rcs = list(ex.map(lambda _: run([bins[rfl], '--replay', rp, '--cpu-limit', str(cpu_limit), '--known', knownf], rfl, max(200, cpu_limit + 60)), range(3)))
            if all(c not in (0, 3, 'timeout') for c, _ in rcs):
                violation = (rp, msg, case, rfl)
                break
            flaky.append((case[:300], msg, [c for c, _ in rcs]))
        if violation:
            break

    # ---- evidence
    labels, knownhits, distinct, samples = {}, {}, set(), []
    ev = en = ge = 0
    capped = False
    per = {}
    for r in results:
        s = r.get('stats')
        if not s:
            continue
        ev += s['evaluations']; en += s['enumerated']; ge += s['generated']; capped |= s['capped']
        d = per.setdefault(r['fl'], dict(evaluations=0, enumerated=0, generated=0))
        for k in d:
            d[k] += s[k]
        for k, v in s['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s['known'].items():
            knownhits[k] = knownhits.get(k, 0) + v
        distinct.update(s['distinct'])
        if len(samples) < 8:
            samples += s['samples'][:2]
    cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=prop['rule'], samples=samples[:8] or ['(none)'],
               enumerated_cases=en, generated_cases=ge, per_build=per, labels=dict(sorted(labels.items())),
               build_seconds=round(t_build, 1), time_cap_reached=capped)
    if prop.get('exhaustive'):
        cov['enumerated_space'] = prop['exhaustive']
        cov['exhaustive'] = False
    if fuzz_stats:
        cov['libfuzzer'] = fuzz_stats
    if flaky:
        cov['not_reproduced'] = flaky
    if knownhits:
        cov['known_findings_hit'] = knownhits
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
                       assumptions=prop.get('assumptions', []), wall_s=round(time.time() - T0, 1),
                       violations=1 if violation else 0), f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k, v in known.items():
        if k in knownhits:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, v))
    log('evaluations', ev, 'distinct non-trivial', len(distinct), 'labels', labels)
    if violation:
        print('violating case (%s build): %s' % (violation[3], violation[2][:1500]))
        print('why: %s' % violation[1])
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]), flush=True)
        return 1
    lost = [r for r in results if r.get('lost')]
    if lost:
        # died outside any case: if the binary cannot even start, the library fails while it is being loaded
        fl = lost[0]['fl']
        rcs = [run([bins[fl], '--cases', '0', '--no-enum'], fl, 120)[0] for _ in range(3)]
        if all(c not in (0, 'timeout') for c in rcs):
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            rp = os.path.join(VERIF, 'replays', '%s-startup.case' % pid)
            with open(rp, 'w') as f:
                f.write('# property=%s\n# flavour=%s\n# the program ends with %s before any case is run\n' % (pid, fl, rcs[0]))
            print('the program ends with %s before any case is run: %s' % (rcs[0], lost[0]['out'][-1000:]))
            print('VIOLATION property=%s replay=%s' % (pid, rp), flush=True)
            return 1
        print('worker lost without a case: %s %s' % (lost[0]['rc'], lost[0]['out'][-1500:]))
        return 2
    if flaky:
        print('not reproduced in 3 replays (no violation reported): %s' % (flaky,))
    return 0


def run_fuzz(binary, work, knownf, seed, conf, prop):
    secs, jobs = conf['seconds'], conf.get('jobs', NCPU)
    cur = os.path.join(work, 'fz.cur'); failp = os.path.join(work, 'fz.fail')
    env = dict(ENV, PBT_KNOWN=knownf, PBT_CUR=cur, PBT_FAIL=failp)

    def one(i):
        corp = os.path.join(work, 'corpus%d' % i)
        os.makedirs(corp, exist_ok=True)
        cmd = [binary, corp, '-seed=%d' % (seed * 1000 + i + 1), '-max_total_time=%d' % secs, '-max_len=%d' % conf.get('max_len', 512),
               '-timeout=120', '-rss_limit_mb=5000', '-print_final_stats=1', '-artifact_prefix=' + corp + '/art-', '-verbosity=1']
        if i % 2 == 0:
            cmd.append('-len_control=20')
        return run(cmd, 'fuzz', secs + 400, env)
    res, execs, cov = [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, out in ex.map(one, range(jobs)):
            m = re.search(r'stat::number_of_executed_units:\s*(\d+)', out)
            execs += int(m.group(1)) if m else 0
            for c in re.findall(r'cov: (\d+)', out)[-1:]:
                cov = max(cov, int(c))
            if rc != 0:
                case = None
                for f in sorted(glob.glob(failp + '.*')):
                    if not f.endswith('.tmp'):
                        case = open(f).read().split('\n')[0]
                        os.unlink(f)
                        break
                if not case:
                    m = re.search(r'==(\d+)==', out)
                    p = cur + '.' + m.group(1) if m else None
                    if p and os.path.exists(p):
                        case = open(p, 'rb').read().split(b'\0')[0].decode(errors='replace').strip()
                if case:
                    res.append(dict(fl='fuzz', shard=0, rc=rc, out=out[-2000:], stats=None, case=case,
                                    msg='found by libFuzzer: ' + ' | '.join(l for l in out.split('\n') if 'FUZZ-FAIL' in l or 'ERROR' in l)[:400]))
    return dict(jobs=jobs, seconds=secs, executions=execs, edges_covered=cov), res


def does_not_compile(pid, e):
    """The interface a property is about no longer compiles: nothing can be requested from it at all."""
    cmd, out = e.args
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    rp = os.path.join(VERIF, 'replays', '%s-compile.txt' % pid)
    with open(rp, 'w') as f:
        f.write('# property=%s\n# the program that exercises the property does not compile against this tree:\n# %s\n%s\n' % (pid, cmd, out[:20000]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier='quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='exploration',
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule=PROPS[pid]['rule'], samples=['(does not compile)']),
                       assumptions=[], wall_s=round(time.time() - T0, 1), violations=1), f, indent=1)
    print('\n'.join(l for l in out.split('\n') if 'error: ' in l)[:2000])
    print('VIOLATION property=%s replay=%s' % (pid, rp), flush=True)
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except DoesNotCompile as e:
        sys.exit(does_not_compile(sys.argv[1], e))
    except RuntimeError as e:
        print('check could not run:', e)
        sys.exit(2)
