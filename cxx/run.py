#!/usr/bin/env python3
"""run.py PROP TIER SEED EVIDENCE REPLAYDIR BUILDDIR: run a property's parts over several workers.   run.py --replay FILE BUILDDIR"""
import json, os, subprocess, sys, tempfile, time
PROPS = {
 'X01': dict(parts=[('app', 'diskio', 5), ('app', 'mkfs', 1)], quick=30, thorough=420,
  rule='random sequences of handler calls (single and paired writes, reads, polls, waits, destruction) against a simulated disk whose requests finish in any order; a case counts when it makes at least 3 requests (mkfs: an image of at least 2 blocks)',
  assumptions=['the disk below open/pread/pwrite/aio is simulated: writes finish whole, in any order, and are durable at completion when the file was opened O_DSYNC']),
 'X02': dict(parts=[('app', 'application', 3), ('rc', 'application', 2)], quick=30, thorough=420,
  rule='random sequences of application operations (insert, query, range reads, syncs, crash) over a model of the verified store that asks for disk reads and writes at random moments; a case counts when it performs at least 3 operations and the disk was used',
  assumptions=['the verified store behind BundleWrapper is a map model that may postpone any operation until the disk answers']),
 'X03': dict(parts=[('rc', 'rowCache', 1)], quick=20, thorough=240,
  rule='random sequences of row-cache operations against a reference LRU map, with the cache reduced to a handful of rows; a case counts when at least one row was evicted', assumptions=['the cache size constant is reduced for the test build']),
 'X04': dict(parts=[('app', 'packed', 2), ('app', 'arrays', 2), ('app', 'linear', 2), ('app', 'instructions', 1), ('app', 'byteString', 1)], quick=25, thorough=240,
  rule='random inputs and operation sequences to the hand-written C++ helpers against reference computations; a case counts by the part (non-empty data, operations that alter it)', assumptions=[]),
}
def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if sys.argv[1] == '--replay':
        f = json.load(open(sys.argv[2])); t = os.path.join(sys.argv[3], 'tape'); open(t, 'w').write(' '.join(map(str, f['tape'])))
        sys.exit(subprocess.call([os.path.join(sys.argv[3], f['binary']), '--replay', f['part'], t]))
    pid, tier, seed, ev, rd, bd = sys.argv[1:7]; p = PROPS[pid]; t0 = time.time(); env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=0', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1')
    budget = float(os.environ.get('BUDGET') or p[tier]); W = int(os.environ.get('WORKERS') or 6); tot = sum(w for *_, w in p['parts'])
    # every worker runs each part for its share of the time
    def rounds(w):
        for b, n, wt in p['parts']: yield b, n, budget * wt / tot
    res, viol, skips = [], None, {}
    procs = []
    for w in range(W):
        procs.append(dict(w=w, it=rounds(w), p=None))
    live = True
    while live:
        live = False
        for q in procs:
            if q['p'] is None or q['p'].poll() is not None:
                if q['p'] is not None:
                    rc = q['p'].returncode
                    try: r = json.load(open(q['out']))
                    except Exception: r = None
                    if r is None: skips['%s/%s: the runner ended with %s' % (q['b'], q['n'], rc)] = skips.get('%s/%s: the runner ended with %s' % (q['b'], q['n'], rc), 0) + 1
                    else:
                        r['binary'] = q['b']; res.append(r)
                        if 'violation' in r and not viol: viol = r
                        if 'flaky' in r['stat']: skips['%s: not reproduced: %s' % (q['n'], r['stat']['flaky'][:200])] = 1
                    q['p'] = None
                if viol: continue
                x = next(q['it'], None)
                if x is None: continue
                q['b'], q['n'], s = x; q['out'] = os.path.join(bd, 'out%d.json' % q['w'])
                if os.path.exists(q['out']): os.remove(q['out'])
                q['p'] = subprocess.Popen([os.path.join(bd, q['b']), q['n'], str(int(seed) * 64 + q['w']), str(s), q['out']], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q['p'] is not None: live = True
        if viol:
            for q in procs:
                if q['p'] is not None and q['p'].poll() is None: q['p'].kill(); q['p'].wait()
            break
        time.sleep(0.05)
    cases = sum(r['cases'] for r in res); nt = sum(r['stat']['nt'] for r in res); disc = sum(r['discards'] for r in res); samples, labels, pc = [], {}, {}
    for r in res:
        k = r['part'] if r['binary'] == 'app' or r['part'] == 'rowCache' else r['part'] + ' (row cache)'
        pc[k] = pc.get(k, 0) + r['cases']
        for l, v in r['stat']['labels'].items(): labels[l] = labels.get(l, 0) + v
        for s in r['stat']['samples'][:4]:
            if len(samples) < 20: samples.append(k + ': ' + s)
    e = dict(property=pid, tier=tier, seed=int(seed), level='exploration', coverage=dict(evaluations=cases, distinct_nontrivial=nt, rule=p['rule'], samples=samples or ['(none)'], parts=pc, classes=labels, discarded=disc, inconclusive=len(skips), inconclusive_reasons=skips), assumptions=p['assumptions'], wall_s=time.time() - t0, violations=1 if viol else 0)
    open(ev, 'w').write(json.dumps(e) + '\n')
    if viol:
        v = viol['violation']; os.makedirs(rd, exist_ok=True); f = os.path.join(rd, pid + '-replay.json')
        json.dump(dict(property=pid, part=viol['part'], binary=viol['binary'], msg=v['msg'], tape=v['tape'], log=v['log'].split('\n')[:80]), open(f, 'w'), indent=1)
        for l in v['log'].split('\n')[:40]: print('  ' + l)
        print('%s/%s: %s' % (pid, viol['part'], v['msg'])); print('VIOLATION property=%s replay=%s' % (pid, f)); sys.exit(1)
    print('%s: %d cases, %d distinct non-trivial, %d discarded, no violation' % (pid, cases, nt, disc))
    for s in skips: print('  inconclusive ' + s)
main()
