"""Build and run the bounded search over the real crate."""
import os, json, struct, subprocess, time, resource, signal, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(HERE, 'build', 'target')

def build(log=lambda s: None):
    """{'main': path or None, 'varint': path or None}, and the compiler output of what failed"""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    out, err = {}, {}
    for b in ('main', 'varint'):
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', b], cwd=os.path.join(HERE, 'search'), env=env,
                           capture_output=True, text=True)
        path = os.path.join(TARGET, 'debug', b)
        out[b] = path if p.returncode == 0 and os.path.exists(path) else None
        if p.returncode: err[b] = p.stderr[-3000:]
    return out, err

def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def replay(binary, family, tape, timeout=60):
    """(failed?, text)"""
    try:
        p = subprocess.run([binary, 'replay', family, tape], capture_output=True, text=True, errors='replace', timeout=timeout, preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        return True, 'does not finish within %d s' % timeout
    if p.returncode == 0: return False, p.stdout
    if p.returncode < 0: return True, 'killed by signal %d (%s)' % (-p.returncode, signal.Signals(-p.returncode).name)
    return True, p.stdout[-4000:] + p.stderr[-500:]

def families(binary):
    p = subprocess.run([binary, 'families'], capture_output=True, text=True)
    out = []
    for l in p.stdout.split('\n'):
        w = l.split('\t')
        if len(w) == 3: out.append(dict(name=w[0], props=w[1].split(','), rule=w[2]))
    return out

def run(binary, prop, seed, seconds, work, workers=6, thorough=False, tag=''):
    """merged counters and the first failure found"""
    fams = families(binary)
    procs = []
    for w in range(workers):
        sh = os.path.join(work, 'tape_%s%s_%d' % (tag, prop, w))
        out = open(sh + '.out', 'w')
        p = subprocess.Popen([binary, 'run', prop, str(seed), str(w), str(workers), str(seconds), str(1 << 62),
                              '1' if thorough else '0', sh], stdout=out, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        procs.append((p, sh, out))
    end = time.time() + seconds * 2 + 90
    m = dict(evaluations=0, distinct=0, skipped=0, fixed_total=0, fixed_done=True, per_family={}, samples=[], fail=None, notes=[])
    for p, sh, out in procs:
        hung = False
        try: p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); hung = True
        out.close()
        txt = open(sh + '.out', errors='replace').read().strip()
        js = None
        if txt:
            try: js = json.loads(txt.split('\n')[-1])
            except ValueError: m['notes'].append('unreadable worker output')
        if js is None:
            # the process died (or hung) inside a case: the case is in the shared tape
            try: raw = open(sh, 'rb').read()
            except OSError: raw = b''
            fi, n = struct.unpack('<QQ', raw[:16]) if len(raw) >= 16 else (0, 0)
            if fi and not m['fail']:
                n = min(n, (len(raw) - 16) // 8)
                tape = ' '.join(map(str, struct.unpack('<%dQ' % n, raw[16:16 + 8 * n])))
                name = fams[fi - 1]['name']
                bad, text = replay(binary, name, tape)
                if bad:
                    m['fail'] = dict(family=name, tape=tape, message=text, log='')
                else:
                    m['notes'].append('a worker %s in family %s; the replay of that case passes' % ('hung' if hung else 'died', name))
            else:
                m['notes'].append('a worker ended without a result')
            continue
        m['evaluations'] += js['evaluations']; m['distinct'] += js['distinct']; m['skipped'] += js['skipped']
        m['fixed_total'] = max(m['fixed_total'], js['fixed_total']); m['fixed_done'] &= js['fixed_done']
        for k, v in js['per_family'].items(): m['per_family'][k] = m['per_family'].get(k, 0) + v
        m['samples'] += js['samples'][:1]
        if js.get('fail') and not m['fail']: m['fail'] = js['fail']
    m['rules'] = [f['name'] + ': ' + f['rule'] for f in fams if prop in f['props']]
    for _, sh, _ in procs:
        for f in (sh, sh + '.out'):
            try: os.remove(f)
            except OSError: pass
    return m
