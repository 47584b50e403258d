#!/usr/bin/env python3
"""run.py ID: decide property ID on /repo's current working tree.

A. Verus discharges the obligations of the functions under contract (extracted from /repo/src now).
B. The bounded search over the real crate stands in where no contract reaches, and looks for a
   concrete failing input.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken."""
import os, sys, re, json, time, shutil, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import verusrun, searchrun
from props import PROPS

ROOT = '/repo'

def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    thorough = tier == 'thorough'
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='run_%s_' % pid, dir=os.path.join(HERE, 'build'))
    try: code = check(pid, cfg, tier, seed, thorough, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def check(pid, cfg, tier, seed, thorough, work, t0):
    res = {}
    dl = dict(t=t0 + (600 if not thorough else 3000))
    def prove(g):
        try: res[g] = verusrun.run_group(g, ROOT, work, threads=3, rlimit=30, timeout=400 if not thorough else 1500, vac_rlimit=20 if thorough else 1,
                                          deadline=lambda: dl['t'])
        except Exception as e:
            R = verusrun.Result(); R.group = g; R.error = 'internal: %r' % e; R.failed = []; R.fns = []; R.undecided = {}
            R.cmd = ''; R.vacuous = None; R.trusted = []; R.rewrites = []; R.queries = R.discharged = R.smt_ms = R.lemmas = 0; R.slow = []; R.vac_checked = 0
            res[g] = R
    built = {}
    def build(): built['bins'], built['err'] = searchrun.build()
    th = [threading.Thread(target=prove, args=(g,)) for g in cfg['groups']] + [threading.Thread(target=build)]
    for t in th: t.start()
    th[-1].join()
    bins = built['bins']
    seconds = cfg.get('seconds', 15) if not thorough else cfg.get('thorough_seconds', 240)
    search = []
    for name in ('varint', 'main'):
        if not bins.get(name):
            print('note: the search binary `%s` does not build against this tree:\n%s' % (name, built['err'].get(name, '')[-1500:]))
            continue
        if not any(pid in f['props'] for f in searchrun.families(bins[name])): continue
        search.append((name, searchrun.run(bins[name], pid, seed, seconds, work, thorough=thorough, tag=name)))
    # a failing input settles it; the proof only has to name the obligation
    if not thorough and any(m['fail'] for _, m in search): dl['t'] = min(dl['t'], time.time() + 120)
    for t in th: t.join()

    groups = [res[g] for g in cfg['groups']]
    # `C07:safe` on a function: only its safety obligations (not what it returns) carry the property
    def mine(props): return not props or pid in props or pid + ':safe' in props
    def counts(f):
        if not f['props'] or pid in f['props']: return True
        return pid + ':safe' in f['props'] and not re.search('postcondition|assertion failed|invariant not', f['message'])
    failed = [f for R in groups for f in R.failed if counts(f)]
    if failed and not any(m['fail'] for _, m in search):
        # an obligation failed: look longer for a failing input
        for i, (name, m) in enumerate(search):
            if not thorough and time.time() - t0 > 620: break
            m2 = searchrun.run(bins[name], pid, seed + 7919, 60 if not thorough else 240, work, thorough=thorough, tag=name)
            if m2['fail']: m['fail'] = m2['fail']
            m['evaluations'] += m2['evaluations']; m['distinct'] += m2['distinct']
    found = [(n, m) for n, m in search if m['fail']]

    under = [f for R in groups for f in R.fns if mine(f['props'])]
    undecided = [(R.group, k, v) for R in groups for k, v in R.undecided.items()
                 if any(f['function'] == k and mine(f['props']) for f in R.fns)] + [(R.group, '*', R.error) for R in groups if R.error]
    vacuous = [k for R in groups for k in (R.vacuous or [])]
    cov = dict(
        evaluations=sum(m['evaluations'] for _, m in search), distinct_nontrivial=sum(m['distinct'] for _, m in search),
        rule='BOUNDED part, not counted as proved. Families (cases are distinct choice tapes; non-trivial when the case reached its comparison): '
             + ' | '.join(r for _, m in search for r in m['rules']),
        samples=[s for _, m in search for s in m['samples']][:4],
        per_family={k: v for _, m in search for k, v in m['per_family'].items()},
        enumerated_cases=sum(m['fixed_total'] for _, m in search), enumeration_complete=all(m['fixed_done'] for _, m in search),
        search_notes=[n for _, m in search for n in m['notes']])
    if cfg['groups']:
        cov.update(obligations=sum(R.queries for R in groups if not R.error), discharged=sum(R.discharged for R in groups if not R.error),
            backend='Verus 0.2026.09.13 (Z3)', checker_cmd='; '.join(R.cmd.replace(work, 'build') for R in groups),
            trusted_base=sorted({t for R in groups for t in R.trusted} | {'extraction rewrite: ' + t for R in groups for t in R.rewrites}
                                | {'Verus, Z3, rustc, and the extractor /verif/lib/extract.py'}),
            functions_under_contract=['%s (%s): %s' % (f['function'], f['file'], f['status']) for f in under],
            lemmas=sum(R.lemmas for R in groups if not R.error), solver_ms=sum(R.smt_ms for R in groups),
            slowest=[s for R in groups for s in R.slow][:6],
            vacuity='assert(false) at the start of %d contracted bodies: all rejected' % sum(R.vac_checked for R in groups) if not vacuous
                    else 'VACUOUS: ' + ', '.join(vacuous),
            undecided_this_run=['%s: %s: %s' % u for u in undecided])
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg['level'], coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(found) + (1 if failed and not found else 0))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

    rp = os.path.join(HERE, 'evidence', '%s.replay.txt' % pid)
    for f in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, f))
    for g, k, v in undecided: print('undecided this run (bounded search stands in): %s: %s: %s' % (g, k, v))
    if cfg['groups']:
        print('%s: %d obligations (functions and lemmas), %d discharged; %d functions under contract' % (pid, cov['obligations'], cov['discharged'], len(under)))
    print('%s: bounded search: %d cases, %d distinct non-trivial' % (pid, cov['evaluations'], cov['distinct_nontrivial']))
    if found or failed:
        with open(rp, 'w') as o:
            o.write('property %s is violated on /repo\n\n' % pid)
            for name, m in found:
                f = m['fail']
                o.write('failing input, replayed against the real crate:\n  family %s\n  %s\n\n%s\n' % (f['family'], f['message'], f['log']))
                o.write('replay: cd /verif && bash replay.sh %s %s "%s"\n\n' % (name, f['family'], f['tape']))
            for f in failed:
                o.write('failed obligation: %s (%s): %s\n  %s\n  %s\n%s\n' % (f['function'], f['file'], f['message'], f['obligation'], f['where'], f['rendered']))
        for name, m in found: print('%s: %s: %s' % (pid, m['fail']['family'], m['fail']['message'][:400]))
        for f in failed: print('%s: failed obligation in %s (%s): %s: %s' % (pid, f['function'], f['file'], f['message'], f['obligation']))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        return 1
    if os.path.exists(rp): os.remove(rp)
    if not search and not any(f['status'] == 'verified' for f in under):
        print('nothing could be checked on this tree'); return 2
    return 0

main()
