#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property
   check.py --setup                                  build every harness (fills the private ccache)

Rebuilds the harness and SIREN's own sources from the working tree, runs every monitored group of the property in parallel shards,
collects what the monitors observed, matches violations against known_findings.json, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION printed; 2: the machinery itself failed (no verdict)."""
import sys, os, json, subprocess, time, re, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as PR
VERIF = B.VERIF
EV = os.path.join(VERIF, 'evidence')

SAN_ENV = dict(ASAN_OPTIONS='abort_on_error=0:exitcode=98:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=6000:strict_init_order=1:check_initialization_order=1:detect_odr_violation=0:malloc_fill_byte=190:max_malloc_fill_size=1048576:symbolize=1',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98', TSAN_OPTIONS='exitcode=98:halt_on_error=1',
               ASAN_SYMBOLIZER_PATH='/usr/bin/llvm-symbolizer-18', MON_HARNESS_DIR=os.path.join(VERIF, 'harness'))

def list_groups(exe):
    out = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **SAN_ENV), timeout=120)
    if out.returncode: raise RuntimeError('--list failed for ' + exe)
    return [(p, g, int(q), int(t)) for p, g, q, t in (l.split() for l in out.stdout.splitlines())]

def summarize(err):
    """one-line identity of a sanitizer report / crash: kind + innermost SIREN function"""
    kind = ''
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([\w-]+)', err)
    if m: kind = m.group(1) + ':' + m.group(2)
    m = re.search(r'runtime error: (.*)', err)
    if m: kind = 'UBSan:' + re.sub(r'0x[0-9a-f]+|-?\d[\d.e+-]*', 'N', m.group(1))[:80]
    if 'MON-HANG' in err: kind = 'hang'
    fn = ''
    for l in err.splitlines():
        m = re.search(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)', l)
        if m and '/projects/' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1)); break
    return (kind or 'crash') + (' in ' + fn if fn else '')

def run_shard(job):
    exe, group, a, b, seed, thorough, tmp, limit = job
    res, viol = [], []
    crashes = 0
    wd = tempfile.mkdtemp(prefix='s_', dir=tmp)  # a directory of its own for each shard: cases write files by name
    while a < b:
        out = os.path.join(wd, '%s_%d_%d.json' % (group, a, b))
        cmd = [exe, '--group', group, '--from', str(a), '--to', str(b), '--seed', str(seed), '--out', out] + (['--thorough'] if thorough else [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors='replace', text=True, env=dict(os.environ, **SAN_ENV), timeout=limit, cwd=wd)
        except subprocess.TimeoutExpired:
            return res, viol, 'group %s cases %d..%d ran out of wall time' % (group, a, b)
        if p.returncode == 0 and os.path.exists(out):
            res.append(json.load(open(out))); break
        if p.returncode == 3: return res, viol, 'harness error: ' + p.stderr[-500:]
        try:
            import struct
            k, ph = struct.unpack('qq', open(out + '.pos', 'rb').read(16))
        except Exception as e:
            return res, viol, 'harness died before the first case: %s' % p.stderr[-800:]
        if 'out-of-memory' in p.stderr and 'AddressSanitizer' not in p.stderr: return res, viol, 'out of memory'
        if p.returncode == -9: return res, viol, 'killed (memory?) in ' + group
        viol.append(dict(group=group.split('_', 1)[-1], monitor='sanitizer', case=k, detail=summarize(p.stderr), log=p.stderr[-6000:], rc=p.returncode))
        crashes += 1
        if crashes >= 3: break
        # cases before the crash: their results died with the process; rerun them without the crashing one
        if k > a:
            cmd2 = [exe, '--group', group, '--from', str(a), '--to', str(k), '--seed', str(seed), '--out', out] + (['--thorough'] if thorough else [])
            p = subprocess.run(cmd2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors='replace', text=True, env=dict(os.environ, **SAN_ENV), timeout=limit, cwd=wd)
            if p.returncode == 0: res.append(json.load(open(out)))
        a = k + 1
    return res, viol, None

def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]

def match(kf, v):
    key = '%s/%s' % (v['group'], v['monitor'])
    return kf['key'] == key and re.search(kf.get('detail', ''), v['detail']) is not None

def main():
    args = sys.argv[1:]
    if '--setup' in args: return setup()
    prop = args[0]; tier = 'quick'
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough') and '--tier' not in args: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    only = args[args.index('--group') + 1] if '--group' in args else None
    t0 = time.time()
    cfg = PR.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='chk_', dir=os.path.join(VERIF, '.cache'))
    results, viols, errors, built = [], [], [], []
    try:
        jobs = []
        for h in cfg.get('harness', []):
            name, projects, config = h[:3]
            try: exe = B.build(name, projects, config)
            except B.BuildError as e:
                print('BUILD-ERROR %s [%s]: %s' % (name, config, str(e)[:3000])); return 2
            built.append('%s[%s]' % (name, config))
            for p, g, q, t in list_groups(exe):
                if p != prop and not cfg.get('all_groups'): continue
                if only and g != only: continue
                n = t if tier == 'thorough' else q
                if cfg.get('all_groups') and tier == 'quick': n = max(1, n // cfg['all_groups'])
                shards = min(n, 16 if tier == 'thorough' else 8)
                step = (n + shards - 1) // shards
                for a in range(0, n, step):
                    jobs.append((exe, p + '_' + g, a, min(n, a + step), seed, tier == 'thorough', tmp, 6 * 3600 if tier == 'thorough' else 800))
        with ThreadPoolExecutor(8) as ex:
            for r, v, e in ex.map(run_shard, jobs):
                results += r; viols += v
                if e: errors.append(e)
        for r in results: viols += r['violations']
        for scr in cfg.get('script', []):
            out = os.path.join(tmp, 'script.json')
            p = subprocess.run(['python3-vt' if shutil.which('python3-vt') else sys.executable, os.path.join(VERIF, scr), out, str(seed), tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode != 0 or not os.path.exists(out): errors.append('%s: %s' % (scr, p.stdout[-2000:]))
            else:
                r = json.load(open(out)); results.append(r); viols += r['violations']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    evals, observed, extreme, fails, distinct, samples, gsum = {}, {}, {}, {}, set(), [], {}
    for r in results:
        gsum[r['group']] = gsum.get(r['group'], 0) + r['cases']
        for k, n in r['evals'].items(): evals[k] = evals.get(k, 0) + n
        for k, n in r['observed'].items(): observed[k] = observed.get(k, 0) + n
        for k, n in r.get('extreme', {}).items(): extreme[k] = max(extreme.get(k, n), n)
        for k, n in r.get('fails', {}).items(): fails[k] = fails.get(k, 0) + n
        distinct |= set(r['distinct'])
        for s in r['samples']:
            if len(samples) < 12 and not any(s.split('|')[0] == x.split('|')[0] for x in samples): samples.append(s)
    kfs = known(prop)
    hit, new = {}, []
    for v in viols:
        for i, kf in enumerate(kfs):
            if match(kf, v): hit.setdefault(i, v); break
        else: new.append(v)
    total = sum(evals.values())
    if not errors and not only:
        floor = cfg.get('min_evals', 1)
        if total < floor and not new: errors.append('monitors evaluated only %d times (floor %d)' % (total, floor))
        if not distinct and not new: errors.append('no distinct situation observed')
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    vl = []
    bykey = {}
    for v in new: bykey.setdefault('%s/%s' % (v['group'], v['monitor']), []).append(v)
    for key, vs in bykey.items():
        v = vs[0]
        rp = os.path.join(EV, 'replay', '%s-%s.json' % (prop, re.sub(r'\W+', '_', key)))
        json.dump(dict(property=prop, key=key, group=v['group'], case=v['case'], seed=seed, tier=tier, detail=v['detail'], log=v.get('log', ''), occurrences=len(vs), others=[x['detail'] for x in vs[1:6]],
                       how='python3 tools/check.py %s --tier %s --group %s (VERIF_SEED=%d); or run the harness with --group %s_%s --from %s --to %s --seed %d' % (prop, tier, v['group'], seed, prop, v['group'], v['case'], int(v['case']) + 1, seed)), open(rp, 'w'), indent=1)
        vl.append((key, rp, v))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=max(1, total), distinct_nontrivial=len(distinct),
                            rule=cfg['rule'], samples=samples or ['none'], groups=gsum, monitors=evals, observed=observed, extremes=extreme, builds=built),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2),
              violations=[dict(key=k, detail=v['detail'], replay=rp) for k, rp, v in vl],
              known_findings=[kfs[i]['what'] for i in sorted(hit)])
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    print('%s [%s seed=%d] %d monitor evaluations, %d distinct situations, %d groups, %.1f s' % (prop, tier, seed, total, len(distinct), len(gsum), time.time() - t0))
    for i in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (prop, kfs[i]['what']))
    for k, rp, v in vl:
        print('  %s case %s: %s' % (k, v['case'], v['detail'][:600]))
    if vl:
        for k, rp, v in vl: print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        for e in errors: print('ERROR (no verdict): ' + e)
        return 2
    return 0

def setup():
    todo = []
    for p, c in PR.PROPS.items():
        for h in c.get('harness', []):
            if h[:3] not in todo: todo.append(h[:3])
    rc = 0
    for name, projects, config in todo:
        t = time.time()
        try: B.build(name, projects, config); print('built %s [%s] %.1f s' % (name, config, time.time() - t), flush=True)
        except B.BuildError as e: print('BUILD-ERROR %s [%s]: %s' % (name, config, str(e)[:2000])); rc = 2
    return rc

if __name__ == '__main__':
    os.makedirs(os.path.join(VERIF, '.cache'), exist_ok=True)
    sys.exit(main())
