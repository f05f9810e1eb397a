#!/usr/bin/env python3
"""Driver of the checks: builds the monitors of one property against /repo, runs them in parallel
shards, matches what they report against the known findings and writes the evidence file.

usage: check.py PNN [--tier quick|thorough] [--repo DIR] [--replay FILE] [--job NAME]
exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check / inconclusive."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J

NCPU = int(os.environ.get('VERIF_JOBS', '8'))

def die(msg):
    print('CHECK-ERROR ' + msg)
    sys.exit(2)

def env_for(job):
    e = dict(os.environ)
    e.update({
        'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:halt_on_error=1:allocator_may_return_null=1:'
                        'detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:symbolize=0:'
                        'hard_rss_limit_mb=2500:quarantine_size_mb=32:malloc_context_size=5:handle_abort=0',
        'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99',
        'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:report_bugs=1:history_size=4',
        'LC_ALL': 'C', 'TZ': 'UTC',
    })
    e.update(job.get('env', {}))
    return e

def build(pid, job, bdir, repo):
    out = os.path.join(bdir, job['name'])
    if 'build' in job:   # jobs with a builder of their own
        return job['build'](job, out, repo)
    cmd = [job['cxx'], *job['flags'], '-I' + repo, '-I' + os.path.join(HERE, 'harness'),
           os.path.join(HERE, 'harness', job['src']), '-o', out, *job.get('libs', [])]
    for attempt in (0, 1):
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=1500)
        if p.returncode == 0:
            return out, ' '.join(cmd), ''
        if 'error:' in p.stderr:
            break
    return None, ' '.join(cmd), p.stderr[-200000:]

def shard_cmd(job, binp, seed, tier, cases, i, n, outp, only=None):
    c = list(job.get('wrap', [])) + [binp, '--seed', str(seed), '--tier', tier, '--cases', str(cases),
         '--shard', str(i), '--nshards', str(n), '--out', outp,
         '--watchdog', str(job.get('watchdog', 60))] + job.get('args', [])
    if only is not None:
        c += ['--only', str(only)]
    return c

def run_shard(job, cmd, outp, timeout):
    if os.path.exists(outp):
        os.remove(outp)
    wd = os.path.dirname(outp)
    try:
        p = subprocess.run(cmd, capture_output=True, env=env_for(job), timeout=timeout, cwd=wd)
        rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        err = (ex.stderr or b'').decode('utf8', 'replace')
        # a sanitizer that found something may still not manage to end the process
        return {'status': 'timeout', 'err': err[-6000:], 'reported': 'WARNING: ThreadSanitizer' in err or 'ERROR: AddressSanitizer' in err}
    d = None
    if os.path.exists(outp):
        try:
            d = json.load(open(outp))
        except Exception as ex:
            return {'status': 'error', 'err': 'unreadable shard output %s\n%s' % (ex, err[-3000:]), 'rc': rc}
    if d is None:
        return {'status': 'died', 'rc': rc, 'err': err[-6000:]}
    if d.get('complete') and rc not in (0, 1):
        return {'status': 'died', 'rc': rc, 'err': err[-6000:]}
    return {'status': 'ok', 'rc': rc, 'data': d, 'err': err[-12000:]}

def short(err):
    l = [x for x in err.split('\n') if re.search(r'error|required from here|harness/', x)]
    return '\n'.join(x[:400] for x in l[:25])

def san_kind(err):
    m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w-]+)', err)
    if m:
        return m.group(1) + ':' + m.group(2)
    m = re.search(r'==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid read|Invalid write|Mismatched free|Invalid free|Syscall param|Source and destination overlap)', err)
    if m:
        return 'valgrind:' + m.group(1).replace(' ', '-')
    m = re.search(r'runtime error: ([^\n]{0,80})', err)
    if m:
        t = re.sub(r"[-\d.e+']+", '#', m.group(1))
        return 'UBSan:' + t
    return 'crash'

def load_known():
    kf = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                kf.append(m.groups())
    return kf

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--replay')
    ap.add_argument('--job')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = J.PROPS[pid]
    jobs = [j for j in prop['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    only_case = None
    if a.replay:
        rp = json.load(open(a.replay))
        a.job, only_case, seed, tier = rp['job'], rp['case'], rp['seed'], rp['tier']
        jobs = list(prop['jobs'])
    if a.job:
        jobs = [j for j in jobs if j['name'] in a.job.split('|')]
    bdir = os.path.join(HERE, '.build', pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)

    compile_s = {}
    viol, inconclusive, errors = [], [], []
    res = {j['name']: [] for j in jobs}
    bins, cmds = {}, {}
    # Build and run in one pool: shards of a job are queued as soon as it is built.
    with cf.ThreadPoolExecutor(NCPU) as ex:
        def b(j):
            t = time.time()
            r = build(pid, j, bdir, a.repo)
            compile_s[j['name']] = round(time.time() - t, 1)
            return r
        bf = {ex.submit(b, j): j for j in jobs}
        rf = {}
        for f in cf.as_completed(bf):
            j = bf[f]
            try:
                out, cmd, err = f.result()
            except Exception as e2:
                out, cmd, err = None, '', 'build of %s: %r' % (j['name'], e2)
            if out is None:
                if re.search(r'(?<!fatal )error:', err) and not re.search(
                        r'fatal error|internal compiler error|collect2|ld returned|emory|No space|Killed', err):
                    # A program that makes only valid calls of this property is no longer accepted.
                    cmds[j['name']] = cmd
                    viol.append((j['name'], 'program-rejected', -1, 'a valid program is rejected by the library\n' + short(err)))
                else:
                    errors.append('cannot build monitor %s\n%s\n%s' % (j['name'], cmd, short(err)))
                continue
            bins[j['name']], cmds[j['name']] = out, cmd
            cases = j[tier] if tier in j else j['quick']
            n = min(j.get('shards', NCPU), max(1, cases))
            if only_case is not None:
                n = 1
            for i in range(n):
                wd = os.path.join(bdir, j['name'] + '.d%d' % i)
                os.makedirs(wd, exist_ok=True)
                outp = os.path.join(wd, 'out.json')
                c = shard_cmd(j, out, seed, tier, cases, i, n, outp, only_case)
                to = j.get('timeout', j.get('quick_timeout', 700) if tier == 'quick' else 6 * 3600)
                rf[ex.submit(run_shard, j, c, outp, to)] = (j, i, n, cases, c, outp, to)
        for f in cf.as_completed(rf):
            j, i, n, cases, c, outp, to = rf[f]
            r = f.result()
            name = j['name']
            if r['status'] in ('died', 'error'):
                # repeat once: an infrastructure hiccup does not repeat
                r2 = run_shard(j, c, outp, to)
                if r2['status'] in ('died', 'error'):
                    rc = r2.get('rc', 0)
                    if rc is not None and (rc == 99 or (rc < 0 and rc not in (-9, -15))):
                        viol.append((name, san_kind(r2['err']), -1, 'monitor process died (rc %s)\n%s' % (rc, r2['err'])))
                    else:
                        errors.append('monitor %s died rc=%s\n%s' % (name, rc, r2['err']))
                    continue
                r = r2
            if r['status'] == 'timeout':
                if r.get('reported'):
                    viol.append((name, 'sanitizer:' + san_kind(r['err']), -1, 'the monitor did not end after this report\n' + r['err']))
                    continue
                inconclusive.append('%s shard %d timed out' % (name, i))
                continue
            d = r['data']
            if d.get('complete'):
                res[name].append(d)
            for v in d['viol']:
                key = v['key']
                if key == 'hang':
                    # inconclusive until it repeats
                    o2 = outp + '.hang'
                    r2 = run_shard(j, shard_cmd(j, bins[name], seed, tier, cases, i, n, o2, v['case']), o2, to)
                    if not (r2['status'] == 'ok' and any(x['key'] == 'hang' for x in r2['data']['viol'])):
                        inconclusive.append('%s case %s exceeded its CPU budget once' % (name, v['case']))
                        continue
                elif key in ('sanitizer', 'abort', 'crash'):
                    key = key + ':' + san_kind(r['err']) if key == 'sanitizer' else key
                viol.append((name, key, v['case'], v['msg'] + '\n' + (r['err'] if not d.get('complete') else '')))

    # Builds whose results must be equal case by case.
    compared = 0
    groups = {}
    for j in jobs:
        if 'compare' in j:
            groups.setdefault(j['compare'], []).append(j)
    for gname, js in groups.items():
        per = []
        for j in js:
            m = {}
            for d in res[j['name']]:
                m.update(d.get('digests', {}))
            per.append((j, m))
        if len(per) < 2:
            continue
        ref, rm = per[0]
        for j, m in per[1:]:
            diff = sorted((int(k) for k in m if k in rm and m[k] != rm[k]))
            compared += sum(1 for k in m if k in rm)
            for case in diff[:3]:
                t = []
                for q in (ref, j):
                    o = os.path.join(bdir, q['name'] + '.text.json')
                    cases = q[tier] if tier in q else q['quick']
                    c = shard_cmd(q, bins[q['name']], seed, tier, cases, 0, 1, o, case) + ['--text', '1']
                    p = subprocess.run(c, capture_output=True, env=env_for(q), timeout=600, cwd=bdir)
                    e = p.stderr.decode('utf8', 'replace')
                    t.append(e[e.find('TEXT') + 4:e.rfind('ENDTEXT')].split('\n') if 'ENDTEXT' in e else [])
                line = next(((x, y) for x, y in zip(t[0], t[1]) if x != y), ('?', '?'))
                viol.append((ref['name'] + '|' + j['name'], 'differs:' + line[0].split(':')[0], case,
                             '%s computes %s but %s computes %s' % (j['name'], line[1][:900], ref['name'], line[0][:900])))

    known = [(k, what) for p, k, what in load_known() if p == pid]
    seen_known, new = set(), {}
    for name, key, case, msg in viol:
        hit = [(k, w) for k, w in known if k == name + '/' + key or k == key]
        if hit:
            seen_known.add(hit[0])
        else:
            new.setdefault((name, key), (case, msg))
    for k, w in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))

    # evidence
    ev, samples, evals, distinct, nontriv, checks = {}, [], 0, set(), 0, 0
    perjob, group_ev = {}, {}
    for name, ds in res.items():
        je = sum(d['evaluations'] for d in ds)
        perjob[name] = {'cases': je, 'oracle_checks': sum(d['checks'] for d in ds),
                        'shards_completed': len(ds), 'compile_s': compile_s.get(name)}
        je_ev = {}
        for d in ds:
            evals += d['evaluations']; nontriv += d['nontrivial']; checks += d['checks']
            distinct.update(hashlib.md5((name.split('.')[0] + str(x)).encode()).digest()[:8] for x in d['distinct'])
            for k, v in d['ev'].items():
                ev[k] = ev.get(k, 0) + v
                je_ev[k] = je_ev.get(k, 0) + v
        if ds and ds[0]['samples']:
            samples.append({'monitor': name, 'cases': ds[0]['samples'][:2]})
        g = group_ev.setdefault(name.split('.')[0], {})
        for k, v in je_ev.items():
            g[k] = g.get(k, 0) + v
    if only_case is None and not new and not a.job:
        for j in jobs:
            for k in j.get('required', []):
                t = 'monitor %s never observed event %s' % (j['name'].split('.')[0], k)
                if not group_ev.get(j['name'].split('.')[0], {}).get(k) and t not in inconclusive:
                    inconclusive.append(t)
    if groups and not new and not a.job and only_case is None and compared == 0:
        inconclusive.append('no results of different builds were compared')
    if not new and not a.job and only_case is None and evals == 0:
        inconclusive.append('nothing was observed')
    level = prop.get('level', 'exploration')
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': prop['rule'],
            'samples': samples[:12] or ['none'], 'oracle_checks': checks,
            'nontrivial_cases': nontriv,
            'observed_events': dict(sorted(ev.items())), 'monitors': perjob,
            **({'cases_compared_between_builds': compared} if groups else {}),
        },
        'assumptions': prop.get('assumptions', []) + [
            'Held on the executions produced; paths the workload does not drive are not covered.'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if only_case is None and not a.job:
        json.dump(evidence, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %.1f s' % (
        pid, tier, seed, evals, len(distinct), checks, time.time() - t0))
    if not os.environ.get('VERIF_KEEP_BUILD'):
        shutil.rmtree(bdir, ignore_errors=True)
    if new:
        for (name, key), (case, msg) in list(new.items())[:10]:
            fn = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (pid, name.replace('|', '+'), hashlib.md5(key.encode()).hexdigest()[:8]))
            json.dump({'property': pid, 'job': name, 'key': key, 'case': case, 'seed': seed, 'tier': tier, 'message': msg,
                       'build': cmds.get(name), 'replay': 'VERIF_SEED=%d python3 %s/check.py %s --replay %s' % (seed, HERE, pid, fn)},
                      open(fn, 'w'), indent=1)
            print('  [%s] %s case %s: %s' % (name, key, case, msg[:700].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (pid, fn))
        sys.exit(1)
    if errors:
        die('\n'.join(errors)[:3000])
    if inconclusive:
        die('INCONCLUSIVE ' + '; '.join(inconclusive[:10]))
    sys.exit(0)

if __name__ == '__main__':
    try:
        main()
    except Exception:  # a failure of the driver itself is not a verdict about the code
        import traceback
        traceback.print_exc()
        sys.exit(2)
