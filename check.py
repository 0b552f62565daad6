#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [--only SUBSTR] [-j N]

Decides one property: every contract of the property is verified against the
LLVM IR compiled from /repo's current working tree.  Exit 0: all obligations
discharged (or, where labelled, bounded checks clean).  Exit 1: VIOLATION line.
Exit 2: the machinery could not run (extraction error, vacuous contract)."""
import sys, os, time, json, random, argparse, importlib, traceback, hashlib
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vc import build, verify
import props

KF = os.path.join(HERE, 'known_findings.jsonl')


def known_findings(pid):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid:
                    out.append(d)
    return out


def plain(o):
    if isinstance(o, bytes):
        return {'hex': o[:4096].hex(), 'len': len(o)}
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [plain(v) for v in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return str(o)[:2000]


def work(args):
    pid, mod, idx, tier, seed, t_end = args
    c = CONTRACTS[idx]
    d = dict(name=c.name, fn=c.fn, idx=idx)
    try:
        r = verify.verify(c, random.Random(seed * 1000003 + idx), tier, fail_deadline=t_end)
        d.update(status=r.status, oblig=r.oblig, discharged=r.discharged, paths=r.paths, backends=r.backends, solver=r.solver_time,
                 wall=r.wall, kinds=r.kinds, functions=sorted(r.functions), loops={k: str(v)[:200] for k, v in r.loops.items()},
                 failures=plain(r.failures), unknown=r.unknown, sampled=r.sampled, dead=len(r.dead), live=r.live)
    except build.ExtractError as e:
        d.update(status='optional' if getattr(c, 'internal', False) else 'extract', error=str(e)[:1500])
    except Exception as e:
        d.update(status='error', error=repr(e)[:500] + traceback.format_exc()[-1500:])
    return d


CONTRACTS = []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    P = props.PROPS[pid]
    try:
        for m in P['modules']:
            m, _, grp = m.partition(':')
            M = importlib.import_module('contracts.' + m)
            if hasattr(M, 'prepare'):
                M.prepare()
            CONTRACTS.extend(getattr(M, 'contracts_' + grp)() if grp else M.contracts())
        if a.tier == 'quick':
            CONTRACTS[:] = [c for c in CONTRACTS if not getattr(c, 'thorough_only', False)]
        if a.only:
            CONTRACTS[:] = [c for c in CONTRACTS if a.only in c.name]
        # compile every translation unit once, in parallel, before forking the workers
        tus = sorted({t for c in CONTRACTS for t in c.tus})
        build.prebuild(tus, a.j)
        for t in tus:
            build.module(t)
        # generated contracts may need the modules
        mods_all = [build.module(t) for t in tus]
        build.demangle(sorted({n for m in mods_all for n in list(m.functions) + list(m.declares)}))
    except build.ExtractError as e:
        print('ERROR extraction failed: %s' % e)
        return 2
    t_end = t0 + 560
    jobs = [(pid, None, i, a.tier, a.seed, t_end) for i in sorted(range(len(CONTRACTS)), key=lambda i: -getattr(CONTRACTS[i], 'cost', 1))]
    results = []
    with mp.get_context('fork').Pool(a.j, maxtasksperchild=40) as pool:
        for d in pool.imap_unordered(work, jobs):
            results.append(d)
            if a.v:
                print('%-44s %-8s obl=%s/%s paths=%s %.1fs %s %s' % (d['name'], d['status'], d.get('discharged'), d.get('oblig'), d.get('paths'), d.get('wall', 0),
                                                                   str(d.get('unknown') or '')[:300], d.get('error', '')[:600]), flush=True)
                for f in d.get('failures', []):
                    print('    ', {k: v for k, v in f.items() if k not in ('pc', 'goal')}.__repr__()[:700], flush=True)
            nc = sum(1 for r in results for f in r.get('failures', []) if f['confirmed'])
            if nc >= 4 and not a.v:
                pool.terminate()
                break
    results.sort(key=lambda d: d['idx'])
    findings = known_findings(pid)
    viol = []
    known = []
    for d in results:
        for f in d.get('failures', []):
            k = [x for x in findings if x.get('contract') == d['name'] and f['obligation'] in x.get('obligations', [])]
            if k:
                known.append((k[0], d, f))
            else:
                viol.append((d, f))
    # a listed finding is reported while its contract still shows it
    for x in findings:
        if any(k[0] is x for k in known):
            print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    viol.sort(key=lambda df: not df[1]['confirmed'])
    for d, f in viol[:10]:
        h = hashlib.md5((d['name'] + f['obligation']).encode()).hexdigest()[:8]
        path = os.path.join(HERE, 'evidence', 'replay', '%s_%s.json' % (pid, h))
        json.dump(dict(property=pid, contract=d['name'], function=d['fn'], **{k: v for k, v in f.items() if k != 'function'}, in_function=f.get('function')),
                  open(path, 'w'), indent=1, default=str)
        print('failed obligation: %s of %s (%s line %s)%s' % (f['obligation'], d['name'], f.get('function'), f.get('line'),
                                                          '' if f['confirmed'] else ' [not reproduced natively]'))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if f['confirmed'] else ' no-failing-input-found'))
    errs = [d for d in results if d['status'] in ('extract', 'error', 'vacuous')]
    proved = [d for d in results if d['status'] == 'proved']
    bounded = [d for d in results if d['status'] == 'bounded']
    ob = sum(d.get('oblig', 0) for d in results)
    dis = sum(d.get('discharged', 0) for d in results)
    be = {}
    fns = set()
    for d in results:
        for k, v in d.get('backends', {}).items():
            be[k] = be.get(k, 0) + v
        fns |= set(d.get('functions', []))
    dem = build.demangle(sorted(fns)) if fns else {}
    assum = list(props.COMMON_ASSUMPTIONS) + list(P.get('assumptions', []))
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=assum,
              coverage=dict(obligations=ob, discharged=dis, checker_cmd='python3-vt check.py %s --tier %s' % (pid, a.tier),
                            trusted_base=props.TRUSTED_BASE + P.get('trusted', []),
                            contracts=len(results), contracts_proved=len(proved), paths=sum(d.get('paths', 0) for d in results),
                            functions_under_contract=[d['fn'] + ' [' + d['name'] + ']' for d in results if d['status'] in ('proved', 'bounded', 'failed')],
                            functions_inlined=sorted(set(dem.values()))[:400],
                            by_back_end=be, solver_seconds=round(sum(d.get('solver', 0) for d in results), 2),
                            native_runs=sum(d.get('sampled', 0) for d in results),
                            loops_proved_by_invariant={d['name']: d['loops'] for d in results if d.get('loops')},
                            bounded=[dict(contract=d['name'], why=d['unknown'], native_runs=d['sampled']) for d in bounded],
                            absent_internal_functions=[d['name'] for d in results if d['status'] == 'optional'],
                            undecided=[dict(contract=d['name'], why=d.get('error', d['status'])) for d in errs],
                            known_findings=[k[0]['what'] for k in known],
                            explanation=P.get('explanation', '')))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d proved, %d bounded, %d violated, %d errors; %d/%d obligations discharged, %.1fs' % (
        pid, len(results), len(proved), len(bounded), sum(1 for d in results if d['status'] == 'failed'), len(errs), dis, ob, time.time() - t0))
    for d in bounded:
        print('  bounded only: %s: %s' % (d['name'], str(d['unknown'])[:200]))
    for d in errs:
        print('  ERROR %s: %s' % (d['name'], d.get('error', 'vacuous: the precondition admits no terminating execution')[:600]))
    if viol:
        return 1
    if errs or ob == 0:
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
