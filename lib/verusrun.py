"""Run the Verus back end on one group of functions, freshly extracted from /repo."""
import os, re, json, signal, subprocess, time, threading
import extract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = os.path.join(HERE, 'verus')

def _verus(path, extra, timeout, multi=4):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', str(multi)] + extra
    t = time.time()
    left = timeout if callable(timeout) else lambda: t + timeout - time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    while True:
        try: out, err = p.communicate(timeout=2); break
        except subprocess.TimeoutExpired:
            if left() > 0: continue
            # its solvers too: they hold the pipes
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
            return dict(cmd=' '.join(cmd), timeout=True, diags=[], results=None, wall=time.time() - t, fns=[])
    try: js = json.loads(out)
    except ValueError: js = {}
    diags = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and d.get('spans'): diags.append(d)
            elif d.get('level') == 'error' and not d['message'].startswith('aborting'): diags.append(d)
    fns = []
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        fns += m.get('function-breakdown', [])
    return dict(cmd=' '.join(cmd), timeout=False, diags=diags, results=js.get('verification-results'), fns=fns,
                smt_ms=js.get('times-ms', {}).get('smt', {}).get('smt-run', 0), wall=time.time() - t, err=err[-2000:] if not js else '')

def _owner(ex, d):
    """the extracted function in which a diagnostic's primary failure lies"""
    sp = d.get('spans', [])
    def fn_at(line):
        for f in ex.fns:
            if f['first'] <= line <= f['last']: return f
    # for a failed precondition / postcondition the non-primary span names the place in the body
    for want in (lambda s: 'at the end of the function' in (s.get('label') or '') or 'at this exit' in (s.get('label') or ''),
                 lambda s: s.get('is_primary'), lambda s: True):
        for s in sp:
            if want(s):
                f = fn_at(s['line_start'])
                if f: return f
    return None

def _line(d):
    return next((s for s in d['spans'] if s.get('is_primary')), d['spans'][0])['line_start']

RLIMIT_MSG = ('rlimit', 'Resource limit', 'resource limit', 'timed out', 'timeout', 'canceled')

class Result: pass

def _vac(tpl, root, stubs, work, name, threads, timeout, rlimit):
    """assert(false) at the start of every contracted body: one that is accepted has a contradictory precondition"""
    exv = extract.build(tpl, root, VT, stubs=stubs, tolerant=True, vacuity=True)
    pv = os.path.join(work, name + '_vac.rs')
    open(pv, 'w').write('\n'.join(exv.out) + '\n')
    rv = _verus(pv, ['--num-threads', str(threads), '--rlimit', str(rlimit), '--no-auto-recommends-check'], timeout, multi=1)
    if not rv['results'] or rv['timeout'] or rv['results'].get('encountered-vir-error'): return None
    got = set()
    for d in rv['diags']:
        if 'assertion failed' in d['message'] or any(m in d['message'] for m in RLIMIT_MSG):
            f = _owner(exv, d)
            if f: got.add(f['key'])
    want = [f['key'] for f in exv.fns if not f['stub']]
    return len(want), [k for k in want if k not in got]

def run_group(name, root, work, threads=4, rlimit=None, vacuity=True, timeout=300, log=lambda s: None, vac_rlimit=1, deadline=None, opinions=2):
    """Result: .fns (extracted functions under contract and their verdict), .failed (failed obligations),
    .undecided {key: reason}, .lemmas, .smt_ms, .cmd, .assumed, .rewrites, .vacuous [key], .error"""
    R = Result()
    R.group = name; R.failed = []; R.undecided = {}; R.error = None; R.vacuous = None; R.lemma_fail = []
    R.fns = []; R.verified = 0; R.errors = 0; R.smt_ms = 0; R.cmd = ''; R.assumed = []; R.rewrites = []; R.trusted = []
    R.slow = []; R.wall = 0; R.vac_checked = 0
    t0 = time.time()
    # `deadline` is read again while a run is under way: the caller may bring it forward
    def left(most=timeout):
        t1 = time.time()
        return lambda: min(t1 + most, deadline() if deadline else t1 + most) - time.time()
    tpl = os.path.join(VT, name + '.vrs')
    stubs = set(); rounds = 0
    base = ['--num-threads', str(threads)] + (['--rlimit', str(rlimit)] if rlimit else [])
    while True:
        rounds += 1
        try: ex = extract.build(tpl, root, VT, stubs=stubs, tolerant=True)
        except extract.Lost as e:
            R.error = 'extraction lost: %s' % e; return R
        except Exception as e:
            R.error = 'extraction failed: %r' % e; return R
        for k, why in ex.lost: R.undecided.setdefault(k, 'extraction: ' + why)
        stubs |= {k for k, _ in ex.lost}
        path = os.path.join(work, name + '.rs')
        open(path, 'w').write('\n'.join(ex.out) + '\n')
        if vacuity and rounds == 1:
            vac = {}
            vt = threading.Thread(target=lambda: vac.update(r=_vac(tpl, root, set(stubs), work, name, threads, left(), vac_rlimit)))
            vt.start()
        r = _verus(path, base, left())
        R.cmd = r['cmd']; R.ex = ex; R.path = path
        if r['timeout']:
            R.error = 'verus did not finish in the time it has'; return R
        res = r['results']
        soft = {k for k in ex.soft if k not in stubs}
        def give_up():
            for k in soft: R.undecided.setdefault(k, 'extraction: ' + ex.soft[k][:300])
            stubs.update(soft)
        if res is None and soft: give_up(); continue
        if res is None:
            R.error = 'verus gave no result: ' + r['err'][-600:]; return R
        ran = bool(r['fns'])
        if res['success'] or (ran and not res.get('encountered-vir-error')): break
        # a compile or unsupported-feature error: the function it lies in is out of reach on this run
        hit = set()
        for d in r['diags']:
            f = _owner(ex, d)
            if f and not f['forced']: hit.add(f['key']); R.undecided.setdefault(f['key'], 'verus: ' + d['message'][:200])
        if not hit and soft: give_up(); continue
        if not hit or rounds > 8:
            R.error = 'verus error: ' + '; '.join(d['message'][:200] for d in r['diags'][:3]); return R
        stubs |= hit
    # further opinions on failures: more resources, fresh solver contexts, another setting of the solver.
    # A function is discharged once one of the runs discharges it; what fails must fail in all of them.
    fails = [d for d in r['diags'] if d.get('spans')]
    def owner_soft(d):
        f = _owner(ex, d)
        if f and f['key'] in soft:
            R.undecided.setdefault(f['key'], 'extraction: %s; and it does not verify without (%s)' % (ex.soft[f['key']][:300], d['message'][:80]))
            return True
    fails = [d for d in fails if not owner_soft(d)]
    if not res['success'] and not fails: res = dict(res, success=True)
    if not res['success'] and fails:
        bad = {f['function'] for f in r['fns'] if not f['success']}
        short = lambda d: next((m.group(1) for i in range(min(_line(d), len(ex.out)) - 1, -1, -1) for m in [re.match(r'.*\bfn (?:r#)?(\w+)', ex.out[i])] if m), None)
        for extra in (['-V', 'spinoff-all'], ['--smt-option', 'smt.delay_units=false'])[:opinions]:
            r2 = _verus(path, ['--num-threads', str(threads), '--rlimit', '60'] + extra, left(150))
            if not r2['results'] or r2['timeout']: continue
            bad &= {f['function'] for f in r2['fns'] if not f['success']}
            names = {b.split('::')[-1] for b in bad}
            r = r2; res = dict(r2['results'])
            fails = [d for d in r2['diags'] if d.get('spans') and (short(d) is None or short(d) in names) and not owner_soft(d)] if bad else []
            if not bad: res['success'] = True
            res['verified'] += res['errors'] - len(bad); res['errors'] = len(bad)
            for f in r['fns']: f['success'] = f['function'] not in bad
            if not bad: break
    R.verified, R.errors, R.smt_ms = res['verified'], res['errors'], r['smt_ms']
    R.assumed, R.rewrites = ex.assumed, ex.rewrites
    bad = {}
    for d in fails:
        f = _owner(ex, d)
        key = f['key'] if f else '(lemma)'
        msg = d['message']
        prim = next((s for s in d['spans'] if s.get('is_primary')), d['spans'][0])
        what = ' '.join(t['text'].strip() for t in prim.get('text', []))[:300]
        labels = '; '.join('%s: %s' % (s.get('label'), ' '.join(t['text'].strip() for t in s.get('text', [])[:3])[:160]) for s in d['spans'] if not s.get('is_primary'))
        rec = dict(function=key, file=f['file'] if f else '', message=msg, obligation=what, where=labels, rendered=d.get('rendered', ''), props=f['props'] if f else None)
        if any(m in msg for m in RLIMIT_MSG):
            R.undecided.setdefault(key, 'solver gave up: ' + msg[:120]); continue
        bad.setdefault(key, []).append(rec)
    for k, v in bad.items(): R.failed += v
    for f in ex.fns:
        key = f['key']
        st = 'stub (trusted)' if f['stub'] and not f['forced'] else 'undecided' if key in R.undecided else 'failed' if key in bad else 'verified'
        R.fns.append(dict(function=key, file=f['file'], status=st, props=f['props']))
    R.lemmas = sum(1 for f in r['fns'] if f.get('mode:') == 'proof')
    R.fn_times = {f['function'].split('::', 1)[-1]: f['time'] for f in r['fns']}
    R.queries = len([f for f in r['fns'] if f.get('mode:') in ('exec', 'proof')])
    R.discharged = len([f for f in r['fns'] if f.get('mode:') in ('exec', 'proof') and f['success']])
    R.slow = sorted(((f['time'], f['function'].split('::', 1)[-1]) for f in r['fns']), reverse=True)[:3]
    R.trusted = scan_trusted(ex) + ['contracts verified in group ' + g for g in sorted(ex.uses)]
    if vacuity and not R.failed:
        if rounds > 1: vac['r'] = _vac(tpl, root, stubs, work, name, threads, left(), vac_rlimit)
        else: vt.join()
        if vac.get('r'): R.vac_checked, R.vacuous = vac['r']
    R.wall = time.time() - t0
    return R

def scan_trusted(ex):
    """mechanical scan of the generated file for everything the verifier takes on faith"""
    out = []
    src = '\n'.join(ex.out)
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]*?)\s*\]', src): out.append('assume_specification ' + m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(', src):
        line = src.count('\n', 0, m.start())
        out.append('%s: %s' % (m.group(1), ex.out[line].strip()[:120]))
    lines = ex.out
    for i, l in enumerate(lines):
        if 'verifier::external_body' in l or 'verifier::external_type_specification' in l or 'verifier::external]' in l:
            if '/* contract of group' in l: continue
            j = i
            while j < len(lines) and not re.search(r'\b(fn|struct|enum|trait)\s+\w+', lines[j]): j += 1
            if j < len(lines): out.append('trusted: ' + re.search(r'\b(fn|struct|enum|trait)\s+\w+', lines[j]).group(0))
        m = re.search(r'\baxiom fn (\w+)', l)
        if m: out.append('axiom ' + m.group(1))
    seen = []
    for o in out:
        if o not in seen: seen.append(o)
    return seen
