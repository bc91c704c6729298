"""Jython worker: runs, replays and minimises simulated executions.

usage: worker.py JOB.json OUT.jsonl
"""
import sys
import os
import json
import copy
import gc
import hashlib
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import kernel
from kernel import Kernel, Violation, HarnessError, now_ns
from base import Rng
import scenarios

T0 = now_ns()


def elapsed():
    return (now_ns() - T0) / 1e9


def seed_of(vseed, prop, i):
    h = hashlib.sha256('%s/%s/%s' % (vseed, prop, i)).hexdigest()
    return int(h[:15], 16)


def run_plan(k, scn, plan, record=False, keep=False):
    plan = copy.deepcopy(plan)
    plan['keep_log'] = keep
    plan.setdefault('budget', scn.step_budget(plan))
    res = {'viol': None}
    k.begin(plan, record)
    try:
        try:
            scn.execute(k, plan)
        except Violation as v:
            res['viol'] = {'kind': v.kind, 'key': v.key, 'detail': v.detail}
            k.trace('VIOLATION', v.kind, v.key)
    finally:
        k.end()
    res['digest'] = k.digest.hexdigest()
    res['sig'] = k.sig.hexdigest()[:16]
    res['counts'] = k.counts
    res['sim'] = k.sim_end
    res['jobs'] = k.nops
    res['steps'] = sum(k.steps.values())
    res['known'] = k.known_hits
    res['overlap'] = bool(k.counts.get('switch'))
    res['log'] = k.log
    base = {}
    if record:
        for lab, n in k.steps.items():
            base[lab] = (k.recs.get(lab, []), n, k.devcalls.get(lab, 0), k.entcalls.get(lab, 0))
    res['base'] = base
    k.recs = {}
    return res


def plain(o):
    """what a plan looks like after a trip through a replay file"""
    if isinstance(o, unicode):
        return o.encode('utf-8')
    if isinstance(o, list):
        return [plain(x) for x in o]
    if isinstance(o, dict):
        return dict((plain(a), plain(b)) for a, b in o.items())
    return o


def trip(o):
    return plain(json.loads(json.dumps(o)))


def workload(scn, seed, i=None):
    rng = Rng(seed)
    rng.i = i
    plan = scn.gen(rng)
    plan['seed'] = seed
    plan['pol'] = rng.below(3)
    for i, op in enumerate(plan['ops']):
        op.setdefault('id', i)
    return trip(plan)


def variant(scn, plan, base, seed, v):
    rng = Rng(seed * 1000003 + v + 1)
    p = copy.deepcopy(plan)
    p['pol'] = rng.below(3)
    return trip(scn.inject(rng, p, base))


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'w')

    def put(self, **kw):
        self.f.write(json.dumps(kw) + '\n')
        self.f.flush()


def do_run(job, out):
    scn = scenarios.get(job['prop'])
    k = Kernel(dict((x, 1) for x in job.get('known', [])))
    agg = {'runs': 0, 'seeds': 0, 'sim': 0.0, 'jobs': 0, 'steps': 0, 'counts': {}, 'faulty': 0,
           'overlap': 0, 'known': {}, 'disturbed': 0}
    sigs = {}
    allsigs = {}
    digs = {}
    samples = []

    FAULTS = ('switch', 'intr:', 'net:', 'entropy:', 'device:', 'clock:', 'node:')

    def note(res, plan):
        agg['runs'] += 1
        agg['sim'] += res['sim']
        agg['jobs'] += res['jobs']
        agg['steps'] += res['steps']
        for c, n in res['counts'].items():
            agg['counts'][c] = agg['counts'].get(c, 0) + n
        for c, n in res['known'].items():
            agg['known'][c] = agg['known'].get(c, 0) + n
        if res['overlap']:
            agg['overlap'] += 1
        allsigs[res['sig']] = 1
        if any(c.startswith(FAULTS) for c in res['counts']):
            agg['disturbed'] += 1
            sigs[res['sig']] = 1

    def one(seed, i, quiet=False):
        ds = []
        plan = workload(scn, seed, i)
        out.put(t='at', i=i, v=-1, el=elapsed())
        res = run_plan(k, scn, plan, record=True)
        ds.append(res['digest'])
        if not quiet:
            note(res, plan)
            if res['viol']:
                return ds, plan, res['viol']
        base = res['base']
        if res['viol']:
            return ds, plan, res['viol']
        for v in range(scn.nvariants(plan)):
            p = variant(scn, plan, base, seed, v)
            out.put(t='at', i=i, v=v, el=elapsed())
            r = run_plan(k, scn, p)
            ds.append(r['digest'])
            if not quiet:
                note(r, p)
                agg['faulty'] += 1
                if len(samples) < 2 and len(json.dumps(p)) < 2500 and r['counts']:
                    samples.append({'seed': seed, 'plan': p, 'fired': r['counts'],
                                    'digest': r['digest']})
            if r['viol']:
                return ds, p, r['viol']
        return ds, None, None

    for i in job['seeds']:
        if elapsed() > job['cap']:
            out.put(t='capped', i=i)
            break
        if agg['seeds'] % 50 == 49 and os.path.exists(job.get('stop', '/nonexistent')):
            break
        seed = seed_of(job['vseed'], job['prop'], i)
        ds, plan, viol = one(seed, i)
        agg['seeds'] += 1
        digs[str(i)] = hashlib.sha1(','.join(ds)).hexdigest()
        if viol:
            out.put(t='viol', i=i, seed=seed, plan=plan, viol=viol)
            break
    else:
        for i in job.get('recheck', []):
            if elapsed() > job['cap']:
                break
            ds, p, v = one(seed_of(job['vseed'], job['prop'], i), i, quiet=True)
            out.put(t='recheck', i=i, d=hashlib.sha1(','.join(ds)).hexdigest())
    out.put(t='done', agg=agg, sigs=sorted(sigs), allsigs=len(allsigs), digs=digs, samples=samples, el=elapsed(),
            meta={'variants': scn.variants, 'real': scn.real, 'stub': scn.stub}, locs=len(kernel.LOCS), files=sorted(set(l[0] for l in kernel.LOCS)))


def do_replay(job, out):
    scn = scenarios.get(job['prop'])
    k = Kernel(dict((x, 1) for x in job.get('known', [])))
    if job.get('seed_only') is not None:
        # a hang: only the seed and the variant number are known
        seed = job['seed_only']
        plan = workload(scn, seed, job.get('index'))
        v = job['variant']
        if v >= 0:
            res = run_plan(k, scn, plan, record=True)
            plan = variant(scn, plan, res['base'], seed, v)
    else:
        plan = job['plan']
    out.put(t='at', i=0, v=0, el=elapsed())
    r = run_plan(k, scn, plan, keep=True)
    out.put(t='replay', viol=r['viol'], digest=r['digest'], log=r['log'], counts=r['counts'],
            known=r['known'], plan=plan)


# --------------------------------------------------------------------------
NETS = ('net', 'net2', 'net3')


def do_minimise(job, out):
    scn = scenarios.get(job['prop'])
    k = Kernel(dict((x, 1) for x in job.get('known', [])))
    best = job['plan']
    kind = job['viol']['kind']
    key = job['viol']['key']
    tries = [0]

    def bad(p):
        if elapsed() > job['cap']:
            return False
        tries[0] += 1
        try:
            r = run_plan(k, scn, p)
        except HarnessError:
            return False
        v = r['viol']
        return bool(v) and v['kind'] == kind and v['key'] == key

    if not bad(best):
        out.put(t='min', plan=best, tries=tries[0], stable=False)
        return

    # 1. drop operations (ddmin)
    n = 2
    while len(best['ops']) >= 2 and elapsed() < job['cap']:
        ops = best['ops']
        size = max(1, len(ops) // n)
        hit = False
        for s in range(0, len(ops), size):
            p = dict(best)
            p['ops'] = ops[:s] + ops[s + size:]
            if p['ops'] and bad(p):
                best = p
                n = max(2, n - 1)
                hit = True
                break
        if not hit:
            if size == 1:
                break
            n = min(len(ops), n * 2)

    # 2. drop faults one by one, then 3. shrink values
    def holders(p):
        for i, op in enumerate(p['ops']):
            if op.get('f'):
                yield op['f']
            for h in NETS:
                for f in op.get(h) or []:
                    yield f

    changed = True
    while changed and elapsed() < job['cap']:
        changed = False
        for hi in range(len(list(holders(best)))):
            hs = list(holders(best))
            if hi >= len(hs):
                break
            for key2 in sorted(hs[hi]):
                p = copy.deepcopy(best)
                h = list(holders(p))
                if hi >= len(h) or key2 not in h[hi]:
                    continue
                v = h[hi][key2]
                del h[hi][key2]
                if bad(p):
                    best = p
                    changed = True
                    continue
                if isinstance(v, list) and len(v) > 1 and key2 in ('sw', 'intr', 'dev', 'ent'):
                    for x in range(len(v)):
                        p = copy.deepcopy(best)
                        h = list(holders(p))[hi]
                        h[key2] = v[:x] + v[x + 1:]
                        if bad(p):
                            best = p
                            changed = True
                            break
        for i, op in enumerate(best['ops']):
            for hop in NETS:
                net = best['ops'][i].get(hop)
                if net is None:
                    continue
                cands = [[{}]] if net != [{}] else []
                if len(net) > 1:
                    cands += [[f] for f in net]
                for c in cands:
                    p = copy.deepcopy(best)
                    p['ops'][i][hop] = copy.deepcopy(c)
                    if bad(p):
                        best = p
                        changed = True
                        break
    for where in ['ops', 'cfg']:
        items = best['ops'] if where == 'ops' else [best.get('cfg', {})]
        for i in range(len(items)):
            cur = items[i]
            for kk in sorted(cur):
                if kk in scn.hexkeys:
                    for _ in range(12):
                        v = (best['ops'][i] if where == 'ops' else best['cfg'])[kk]
                        if not isinstance(v, basestring) or not v:
                            break
                        done = True
                        for nv in ['', v[:(len(v) // 4) * 2], v[(len(v) // 4) * 2:], '00' * (len(v) // 2)]:
                            if nv == v or len(nv) > len(v):
                                continue
                            if nv == '00' * (len(v) // 2) and set(v) == set('0'):
                                continue
                            p = copy.deepcopy(best)
                            (p['ops'][i] if where == 'ops' else p['cfg'])[kk] = nv
                            if bad(p):
                                best = p
                                done = False
                                break
                        if done:
                            break
                elif kk in scn.intkeys:
                    for nv in [0, 1, 2]:
                        v = (best['ops'][i] if where == 'ops' else best['cfg'])[kk]
                        if not isinstance(v, (int, long)) or v == nv or abs(v) < nv:
                            continue
                        p = copy.deepcopy(best)
                        (p['ops'][i] if where == 'ops' else p['cfg'])[kk] = nv
                        if bad(p):
                            best = p
                            break
    if best.get('pol'):
        p = dict(best)
        p['pol'] = 0
        if bad(p):
            best = p
    out.put(t='min', plan=best, tries=tries[0], stable=True)


def main():
    job = plain(json.load(open(sys.argv[1])))
    out = Out(sys.argv[2])
    try:
        {'run': do_run, 'replay': do_replay, 'min': do_minimise}[job['mode']](job, out)
    except BaseException:
        out.put(t='error', tb=traceback.format_exc())
        sys.exit(3)
    except java.lang.Throwable:
        out.put(t='error', tb=traceback.format_exc())
        sys.exit(3)
    out.put(t='end')


import java.lang
main()
# abandoned simulated threads (after a violation) must not keep the process up
java.lang.System.exit(0)
