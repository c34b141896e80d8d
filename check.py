#!/usr/bin/env python3
"""Decide one property: build the engine and the harness (which compiles /repo's current tree to
wasm), execute the registered entry points symbolically, replay every counterexample on V8, write
evidence.  Usage: check.py ID [--tier quick|thorough] | check.py --replay FILE | check.py --build"""
import concurrent.futures, fcntl, json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS  # noqa: E402
ENG = V + '/build/engine/release/wsym'


def env(tool, target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_PROFILE') or k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
            del e[k]
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(RUSTUP_TOOLCHAIN=tool, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    return e


def sh(cmd, cwd, e):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print('ERROR: build failed: ' + ' '.join(cmd))
        sys.exit(2)


class NoFeature(Exception):
    pass


def build(crates):
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        sh(['cargo', 'build', '--release', '--offline', '--locked'], V + '/engine', env('stable', V + '/build/engine'))
        for c in crates:
            # a feature that is off by default need not compile
            if c == 'la' and subprocess.run(['cargo', 'build', '--offline', '--locked', '--target', 'wasm32-wasi'], cwd=V + '/la', env=env('1.81.0', V + '/build/la'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
                sh(['cargo', 'build', '--offline', '--locked', '--target', 'wasm32-wasi'], V + '/lv', env('1.81.0', V + '/build/lv'))
                raise NoFeature
            sh(['cargo', 'build', '--offline', '--locked', '--target', 'wasm32-wasi'], V + '/' + c, env('1.81.0', V + '/build/' + c))


def wasm(crate):
    return V + '/build/' + crate + '/wasm32-wasi/debug/' + {'harness': 'vh', 'lv': 'vl', 'la': 'va'}[crate] + '.wasm'


def node(crate, cases, timeout=120):
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(cases, f)
    try:
        r = subprocess.run(['node', V + '/replay.mjs', wasm(crate), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return [json.loads(x) for x in r.stdout.splitlines()], r.stderr
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        os.unlink(f.name)


def nodes(crate, cases):
    """many cases, in several processes"""
    k = min(os.cpu_count() or 8, max(1, len(cases) // 50))
    n = -(-len(cases) // k)
    with concurrent.futures.ThreadPoolExecutor(k) as ex:
        rs = list(ex.map(lambda i: node(crate, cases[i:i + n]), range(0, len(cases), n)))
    if any(o is None for o, _ in rs):
        return None, 'timeout'
    return sum((o for o, _ in rs), []), ' '.join(e for _, e in rs)


# crate -> what takes part in a concrete run besides the compiled code: the browser's half
CLIENT = {'lv': '/repo/puck_liveview/client/index.js'}
PAGE = 'view: the browser shows the tree that was rendered'


def reproduce(crate, case, label, kind, alloc):
    """run the counterexample on the compiled code; returns (reproduced, what was seen)"""
    out, err = node(crate, [case], timeout=40)
    if out is None:
        return kind == 'hang', 'did not terminate within 40 s'
    if not out:
        return False, 'replayer failed: ' + err[-400:]
    r = out[0]
    if kind == 'check' and case.get('client') and label.startswith('view:'):
        # the page is what the real client makes of it
        if r.get('unsupported'):
            return False, 'the client needs more of a browser than there is here: ' + r['unsupported']
        return bool(r.get('page')), 'the page: %s' % r.get('page')
    if kind == 'check':
        return label in r['failed'], 'failed checks: %s, end %s %s' % (r['failed'], r['end'], r['text'])
    if kind == 'alloc':
        big = r['grown'] * 65536 >= alloc
        return big or r['end'] in ('alloc', 'panic') or r['end'].startswith('trap'), 'end %s, %d pages of memory %s' % (r['end'], r['mem_pages'], r['text'])
    if kind == 'hang':
        return False, 'terminated: %s' % r['end']
    return r['end'] in ('panic', 'alloc', 'exit') or r['end'].startswith('trap'), 'end %s %s' % (r['end'], r['text'])


def known(pid):
    p = V + '/known_findings.jsonl'
    if not os.path.exists(p):
        return []
    return [k for k in map(json.loads, filter(lambda l: l.startswith('{'), open(p))) if k['property'] == pid]


def main():
    a = sys.argv[1:]
    if a[:1] == ['--build']:
        build(sorted({p.get('crate', 'harness') for p in PROPS.values()}))
        return 0
    if a[:1] == ['--replay']:
        c = json.load(open(a[1]))
        build([c['crate']])
        ok, seen = reproduce(c['crate'], {**c['case'], 'verbose': True}, c['label'], c['kind'], c['alloc'])
        print('label:', c['label'])
        print('input:', c['case']['input'], 'params:', c['case']['params'])
        print('reproduced' if ok else 'not reproduced', '-', seen)
        return 1 if ok else 0
    pid = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[pid]
    crate = P.get('crate', 'harness')
    t0 = time.time()
    fns, unexplored = set(), []
    try:
        build([crate])
    except NoFeature:
        unexplored.append('the feature `apply` does not compile')
    t_build = time.time() - t0
    runs = [] if unexplored else [r for r in P['runs'] if tier == 'thorough' or not r.get('thorough')]
    if tier == 'thorough':
        runs = [r for r in runs if not r.get('quick_only')]
    client = {'client': CLIENT[crate]} if crate in CLIENT and any('view:'.startswith(t) for t in P['tags']) else {}
    kf = known(pid)
    kf_seen, viols, errors, reports, samples = {}, [], [], [], []
    validated = mismatched = log_only = 0
    budget = float(os.environ.get('VERIF_BUDGET', '400' if tier == 'quick' else '3000'))
    for n, r in enumerate(runs):
        left = budget - (time.time() - t0 - t_build)
        tl = int(max(10, min(r.get('time', 200), left)))
        out = tempfile.mktemp(suffix='.json')
        alloc = r.get('alloc', 1 << 20)
        params = list(r.get('params', []))
        cmd = [ENG, 'run', wasm(crate), '--entry', r['entry'], '--params', ','.join(map(str, params)), '--time', str(tl), '--threads', str(os.cpu_count() or 8),
               '--fuel', str(r.get('fuel', 50_000_000)), '--alloc', str(alloc), '--samples', str(r.get('samples', 40)), '--out', out]
        tags = list(P['tags']) + ['host:'] if P.get('tags') else None
        cmd += ['--tags', '|'.join(tags)] if tags else []
        cmd += ['--known', '|'.join(k['label'] for k in kf)] if kf else []
        if tier == 'thorough' and r.get('selfcheck'):
            cmd += ['--selfcheck', '1']
        try:
            pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 120)
        except subprocess.TimeoutExpired:
            unexplored.append('%s params %s: the engine did not stop in time' % (r['entry'], params))
            continue
        if pr.returncode != 0 or not os.path.exists(out):
            errors.append('%s: engine failed (%d): %s' % (r['entry'], pr.returncode, pr.stdout[-800:]))
            continue
        j = json.load(open(out))
        os.unlink(out)
        if j['died']:
            errors.append('%s: engine thread died: %s' % (r['entry'], pr.stdout[-800:]))
        if j['engine_errors']:
            # paths that could not be followed to their end
            (unexplored if j['ends'].get('ok') else errors).append('%s params %s: %d paths given up: %s' % (r['entry'], params, j['ends'].get('engine', 0), j['engine_errors'][:3]))
        if not j['exhaustive']:
            unexplored.append('%s params %s: %d path prefixes not executed, %d solver unknowns, stopped at %.0f s' % (r['entry'], params, j['frontier_left'], j['unknown'], j['wall_s']))
        missing = [c for c in r.get('covers', []) if c not in j['covers']]
        fns.update(f for f in j['functions'])
        # validate sampled paths: the same input on V8 must take the same path outcome and log
        cs = [{'entry': r['entry'], 'input': s['input'], 'params': params, 'tags': tags, **client} for s in j['samples']]
        if cs:
            o, err = nodes(crate, cs)
            if o is None or len(o) != len(cs):
                errors.append('%s: replayer: %s' % (r['entry'], err[-300:]))
            else:
                for s, v in zip(j['samples'], o):
                    if v.get('unsupported'):
                        unexplored.append('%s params %s: the client needs more of a browser than there is here: %s' % (r['entry'], params, v['unsupported']))
                        break
                    if v.get('page') and not any(x['label'] == PAGE for x in j['violations']):
                        j['violations'].append({'label': PAGE, 'kind': 'check', 'input': s['input'], 'trace': []})
                    if v.get('page'):
                        continue
                    want = {'ok': 'ok', 'trap:panic': 'panic'}[s['end']]
                    if v['end'] == want and (v['log'] == s['log']):
                        validated += 1
                    elif v['failed']:
                        validated += 1  # a violation; handled below
                    else:
                        mismatched += 1
                        log_only += v['end'] == want
                        # what is logged depends on more than the input (the order of a hash map, say): not a wrong outcome
                        if v['end'] == want:
                            continue
                        errors.append('%s: engine and V8 disagree on input %s: %s/%s vs %s/%s %s' % (r['entry'], s['input'], s['end'], s['log'], v['end'], v['log'], v['text'][:200]))
            for s, v in list(zip(j['samples'], o or []))[:2]:
                samples.append({'entry': r['entry'], 'params': params, 'input': s['input'], 'end': v['end'], 'reached': v['covers']})
        done = set()
        for v in j['violations']:
            k = next((k for k in kf if k['label'] == v['label'] and k.get('entry', r['entry']) == r['entry']), None)
            if v['label'] in done or (k and k['label'] in kf_seen):
                continue
            case = {'entry': r['entry'], 'input': v['input'], 'params': params, 'tags': tags, **client}
            ok, seen = reproduce(crate, case, v['label'], v['kind'], alloc)
            if not ok and v['kind'] in ('hang', 'alloc'):
                # the limits of the engine were too small for this path, which V8 runs to its end
                unexplored.append('%s params %s: a path was given up (%s), input %s' % (r['entry'], params, v['label'], v['input'][:200]))
                continue
            if not ok and client and v['label'].startswith('view:'):
                # the model of the browser is not what the client does; the client is right
                unexplored.append('%s params %s: %s (model of the browser), %s, input %s' % (r['entry'], params, v['label'], seen, v['input'][:200]))
                continue
            if not ok:
                errors.append('%s: counterexample for "%s" does not reproduce on V8 (input %s): %s' % (r['entry'], v['label'], v['input'], seen))
                continue
            done.add(v['label'])
            if k:
                kf_seen[k['label']] = {'what': k['what'], 'input': v['input'], 'entry': r['entry']}
                continue
            path = '%s/evidence/replay_%s_%d.json' % (V, pid, len(viols))
            os.makedirs(V + '/evidence', exist_ok=True)
            json.dump({'property': pid, 'crate': crate, 'case': case, 'label': v['label'], 'kind': v['kind'], 'alloc': alloc, 'seen': seen, 'backtrace': v['trace'],
                       'how': 'python3 check.py --replay ' + path}, open(path, 'w'), indent=1)
            viols.append({'label': v['label'], 'kind': v['kind'], 'replay': path, 'input': v['input'], 'seen': seen})
        # reproduced (even once) means the label is decided; drop its non-reproducing twins
        errors = [e for e in errors if not any(('"%s"' % l) in e for l in done)]
        reports.append({'entry': r['entry'], 'bounds': r['bounds'], 'params': params, 'exhaustive': j['exhaustive'], 'paths': j['paths'], 'branch_decisions': j['path_items'],
                        'wasm_instructions': j['steps'], 'wall_s': j['wall_s'], 'solver': j['solver'], 'path_ends': j['ends'], 'checks': j['checks'],
                        'reached': j['covers'], 'not_reached': missing, 'values_selfchecked': j['selfchecked']})
        print('%s %-24s %s: %d paths, %d solver queries (%.1f s), %s, %.1f s' % (pid, r['entry'], params, j['paths'], j['solver']['z3_queries'], j['solver']['solver_s'],
              'every path within the bounds' if j['exhaustive'] else 'INCOMPLETE', j['wall_s']))
        if missing:
            print('  note: not reached: ' + ', '.join(missing))
        sys.stdout.flush()
        if viols and tier == 'quick':
            break
    for l, k in kf_seen.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = lambda k: sum(r['solver'][k] for r in reports)
    mine = sorted(f for f in fns if f.startswith(('puck', '_<puck', 'list::')) or '<puck' in f)
    exh = bool(reports) and not unexplored and len(reports) == len(runs)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
          'assumptions': P.get('assumptions', []) + COMMON,
          'coverage': {
              'states': sum(r['paths'] for r in reports), 'transitions': sum(r['branch_decisions'] for r in reports),
              'traces_validated_against_impl': validated, 'samples': samples[:12], 'exhaustive': exh,
              'explanation': 'states = symbolic paths executed to their end, transitions = branch decisions on symbolic values along them; each path stands for all inputs satisfying its condition',
              'queries_discharged': {'z3': tot('z3_queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'answered_from_cache': tot('cache_hits'),
                                     'answered_by_model_reuse': tot('model_hits'), 'answered_by_byte_domain': tot('byte_domain'), 'byte_domain_exclusions_confirmed_by_z3': tot('byte_domain_confirmed')},
              'solver_s': round(tot('solver_s'), 2), 'build_s': round(t_build, 1),
              'functions_encoded': len(fns), 'functions_of_the_code_under_test': mine,
              'bounds': [r['bounds'] for r in reports], 'not_explored': unexplored, 'runs': reports,
              'known_findings_seen': kf_seen, 'disagreements_with_v8': mismatched - log_only, 'same_outcome_with_another_log': log_only, 'errors': errors[:10]}}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for u in unexplored:
        print('  not explored: ' + u)
    if not reports and not errors and not unexplored:
        errors.append('no run came to an end')
    if viols:
        for v in viols:
            print('  %s [%s] input %s: %s' % (v['label'], v['kind'], v['input'][:120], v['seen'][:300].replace('\n', ' ')))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR: ' + e)
        return 3
    print('%s: no violation %s' % (pid, 'on any path within the stated bounds' if exh else 'on the part explored (see not_explored in the evidence)'))
    return 0


COMMON = [
    'the code decided is the wasm32-wasi output of rustc 1.81.0 (dev profile, overflow checks on) for /repo as it is now; wasm semantics as encoded in /verif/engine, cross-checked against V8 on sampled paths',
    'memory allocation never fails below 1 MiB per request (larger requests are reported) and freed memory is not reused',
    'hash values of HashMap keys are abstracted to a constant (lookups become linear scans); no check depends on iteration order',
    'text written to stderr/stdout is discarded; logging is disabled (no logger installed)',
]
if __name__ == '__main__':
    sys.exit(main())
