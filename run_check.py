#!/usr/bin/env python3
"""Run the simulation check of one property.

  run_check.py C01 [--tier quick|thorough]     search
  run_check.py C01 --replay FILE               replay one recorded violation

Exit 0: held in every simulated run.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken.  Exit 2: no answer.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
REPO = os.environ.get('SIM_REPO', '/repo')
HANG_S = 170

# seeds in the quick tier: about half a minute on eight cores
QUICK = json.load(open(os.path.join(SIM, 'seeds.json')))


JIT = 1         # the client compiler warms up faster; thorough runs use both


def java(job, out, err, xmx='2g'):
    env = dict(os.environ)
    env['SIM_REPO'] = REPO
    env['PYTHONHASHSEED'] = '0'
    env.pop('JYTHONPATH', None)
    return subprocess.Popen(
        ['java', '-Xmx' + xmx, '-Xss16m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=%d' % JIT, '-Djava.awt.headless=true',
         '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true', '-Dpython.console.encoding=UTF-8',
         '-jar', '/usr/share/java/jython.jar', '-B', os.path.join(SIM, 'worker.py'), job, out],
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(err, 'wb'), env=env, cwd=SIM,
        start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class NoAnswer(Exception):
    pass


class Worker:
    def __init__(self, d, name, job):
        self.jobf = os.path.join(d, name + '.job')
        self.out = os.path.join(d, name + '.out')
        self.err = os.path.join(d, name + '.err')
        self.job = job
        json.dump(job, open(self.jobf, 'w'))
        open(self.out, 'w').close()
        self.p = java(self.jobf, self.out, self.err)
        self.pos = 0
        self.buf = b''
        self.last = time.time()
        self.at = None
        self.recs = []
        self.finished = False

    def poll(self):
        with open(self.out, 'rb') as f:
            f.seek(self.pos)
            b = f.read()
        self.pos += len(b)
        self.buf += b
        new = []
        while b'\n' in self.buf:
            l, self.buf = self.buf.split(b'\n', 1)
            r = json.loads(l.decode('utf-8', 'replace'))
            self.last = time.time()
            if r['t'] == 'at':
                self.at = r
            elif r['t'] == 'end':
                self.finished = True
            else:
                self.recs.append(r)
                new.append(r)
        return new

    def stderr(self):
        try:
            s = open(self.err, 'rb').read().decode('utf-8', 'replace')
            return '\n'.join(l for l in s.splitlines() if '__del__' not in l)[-2000:]
        except OSError:
            return ''

    def wait(self, timeout):
        """run to the end; None if it did not end in time"""
        t = time.time() + timeout
        while time.time() < t:
            self.poll()
            if self.p.poll() is not None:
                self.poll()
                return self.recs
            time.sleep(0.05)
        self.poll()
        kill(self.p)
        return None


def known_open(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def one(d, name, job, timeout):
    w = Worker(d, name, job)
    recs = w.wait(timeout)
    if recs is None:
        return None, w
    for r in recs:
        if r['t'] == 'error':
            raise NoAnswer('worker: ' + r['tb'])
    if not w.finished:
        raise NoAnswer('worker died: ' + w.stderr())
    return recs, w


def replay_once(d, name, prop, plan, known, timeout=HANG_S + 60):
    recs, w = one(d, name, {'mode': 'replay', 'prop': prop, 'plan': plan, 'known': list(known)}, timeout)
    if recs is None:
        return None
    return [r for r in recs if r['t'] == 'replay'][0]


def search(prop, tier, vseed, nseeds, cap, d, workers):
    known = known_open(prop)
    t0 = time.time()
    ws = []
    for w in range(workers):
        seeds = list(range(w, nseeds, workers))
        # repeat a few executions of the neighbour in another process
        other = list(range((w + 1) % workers, nseeds, workers))
        recheck = [other[0], other[len(other) // 2]] if len(other) > 2 else other[:1]
        ws.append(Worker(d, 'w%d' % w, {
            'mode': 'run', 'prop': prop, 'vseed': vseed, 'seeds': seeds, 'cap': cap, 'recheck': recheck,
            'known': list(known), 'stop': os.path.join(d, 'stop')}))
    viol = None
    hang = None
    live = list(ws)
    grace = None
    try:
        while live:
            for w in list(live):
                for r in w.poll():
                    if r['t'] == 'viol':
                        if viol is None or r['i'] < viol['i']:
                            viol = r
                    elif r['t'] == 'error':
                        raise NoAnswer('worker: ' + r['tb'])
                if w.p.poll() is not None:
                    w.poll()
                    live.remove(w)
                    for r in w.recs:
                        if r['t'] == 'viol' and (viol is None or r['i'] < viol['i']):
                            viol = r
                    if not w.finished and viol is None:
                        raise NoAnswer('worker died (exit %s) at %s: %s' % (w.p.returncode, w.at, w.stderr()))
                elif time.time() - w.last > HANG_S:
                    hang = (w.at, w.job)
                    break
            if viol is not None:
                if grace is None:
                    grace = time.time() + 1.0
                elif time.time() > grace:
                    break
            if hang is not None and viol is None:
                break
            time.sleep(0.05)
    finally:
        for w in ws:
            if w.p.poll() is None:
                kill(w.p)
    return ws, viol, hang, known, time.time() - t0


def seed_of(vseed, prop, i):
    import hashlib
    return int(hashlib.sha256(('%s/%s/%s' % (vseed, prop, i)).encode()).hexdigest()[:15], 16)


def handle_violation(prop, viol, known, d, vseed):
    """confirm in fresh processes, minimise, write the replay file"""
    first = replay_once(d, 'r0', prop, viol['plan'], known)
    if first is None or not first['viol']:
        again = replay_once(d, 'r1', prop, viol['plan'], known)
        if again is None or not again['viol']:
            raise NoAnswer('a violation did not replay: %s' % json.dumps(viol['viol']))
        first = again
    plan = viol['plan']
    mini, tries = plan, 0
    recs, w = one(d, 'min', {'mode': 'min', 'prop': prop, 'plan': plan, 'viol': first['viol'], 'cap': 120,
                             'known': list(known)}, 260)
    if recs is not None:
        m = [r for r in recs if r['t'] == 'min']
        if m and m[0]['stable']:
            mini, tries = m[0]['plan'], m[0]['tries']
    a = replay_once(d, 'a', prop, mini, known)
    b = replay_once(d, 'b', prop, mini, known)
    exact = bool(a and b and a['viol'] and b['viol'] and a['digest'] == b['digest'] and a['viol'] == b['viol'])
    if not (a and a['viol']):
        mini, a = plan, first
    path = os.path.join(EVID, 'replay-%s.json' % prop)
    json.dump({'property': prop, 'seed': viol['seed'], 'index': viol['i'], 'vseed': vseed, 'violation': a['viol'],
               'plan': mini, 'digest': a['digest'], 'trace': a['log'], 'fired': a['counts'],
               'minimiser_runs': tries, 'original_ops': len(plan['ops']), 'ops': len(mini['ops']),
               'replayed_exactly': exact}, open(path, 'w'), indent=1)
    return path, a, exact, mini


def do_replay(prop, path, d):
    rep = json.load(open(path))
    known = known_open(prop)
    if rep.get('hang'):
        recs, w = one(d, 'hang', dict(rep['hang'], mode='replay', prop=prop, known=list(known)), HANG_S)
        if recs is None:
            print('no progress within %d s, as recorded' % HANG_S)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('the run ended this time')
        return 0
    r = replay_once(d, 'replay', prop, rep['plan'], known)
    for l in (r or {}).get('log', []):
        print('  ' + l)
    if r and r['viol']:
        print('%s: %s' % (r['viol']['kind'], r['viol']['detail']))
        print('digest %s (%s)' % (r['digest'], 'as recorded' if r['digest'] == rep['digest'] else
                                  'recorded: ' + rep['digest']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('no violation in this replay')
    return 0


def evidence(prop, tier, vseed, ws, wall, level, nviol, extra):
    agg = {'runs': 0, 'seeds': 0, 'sim': 0.0, 'jobs': 0, 'steps': 0, 'faulty': 0, 'overlap': 0, 'disturbed': 0}
    counts = {}
    sigs = set()
    samples = []
    digs = {}
    rech = []
    files = []
    locs = 0
    scn = {'variants': 0, 'real': [], 'stub': []}
    for w in ws:
        for r in w.recs:
            if r['t'] == 'done':
                for k in agg:
                    agg[k] += r['agg'][k]
                for k, v in r['agg']['counts'].items():
                    counts[k] = counts.get(k, 0) + v
                sigs.update(r['sigs'])
                samples += r['samples'][:1]
                digs.update(r['digs'])
                files = r['files']
                locs = r['locs']
                scn = r['meta']
            elif r['t'] == 'recheck':
                rech.append((str(r['i']), r['d']))
    same = sum(1 for i, h in rech if digs.get(i) == h)
    differ = [i for i, h in rech if i in digs and digs[i] != h]
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': level, 'wall_s': round(wall, 2), 'violations': nviol,
        'coverage': dict({
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(sigs),
            'rule': 'One evaluation is one simulated execution: a seeded workload run once without faults and then '
                    'under up to %d seeded fault and schedule plans. Counted as distinct and non-trivial: executions in '
                    'which at least one thread switch, fault, clock jump or network fate fired, distinct by the '
                    'hash of the sequence of (operation started, client), (switch, client, function, successor) '
                    'and (fault, client, function).' % scn['variants'],
            'samples': samples[:3],
            'seeds': agg['seeds'],
            'seeds_per_hour': int(agg['seeds'] * 3600 / max(wall, 0.1)),
            'runs_per_hour': int(agg['runs'] * 3600 / max(wall, 0.1)),
            'simulated_seconds': round(agg['sim'], 1),
            'operations_simulated': agg['jobs'],
            'sim_points_executed': agg['steps'],
            'runs_with_faults_planned': agg['faulty'],
            'runs_in_which_something_fired': agg['disturbed'],
            'runs_with_thread_switches_inside_operations': agg['overlap'],
            'fired': dict((k, v) for k, v in sorted(counts.items()) if not k.startswith(('probe:', 'op:'))),
            'probes': dict((k, v) for k, v in sorted(counts.items()) if k.startswith(('probe:', 'op:'))),
            'instrumented_files': [f for f in files if '/test' not in f],
            'sim_points_in_code': locs,
            'real_code': scn['real'], 'stubs': scn['stub'],
            'executions_repeated_in_another_process': len(rech),
            'repeated_with_identical_digest': same,
        }, **extra),
        'assumptions': [
            'Jython 2.7.3 runs the Python 2 sources; one Python statement (and the step between evaluating and '
            'storing an augmented or subscripted assignment, or a return value) is the unit of interleaving and '
            'interruption',
            'the reference implementations in sim/refs.py and the Java runtime\'s AES, HMAC-SHA1 and big integers '
            'are right',
            'a clean batch is evidence over the sampled executions, not proof'],
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, sort_keys=True)
    return ev, differ, agg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seeds', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--cap', type=float)
    a = ap.parse_args()
    prop = a.prop
    vseed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(EVID, exist_ok=True)
    d = tempfile.mkdtemp(prefix='dst-%s-' % prop)
    t0 = time.time()
    try:
        if a.replay:
            return do_replay(prop, a.replay, d)
        tier = 'thorough' if a.tier == 'thorough' else 'quick'
        global JIT
        JIT = 1 if tier == 'quick' else 4
        n = a.seeds or (QUICK[prop] * (1 if tier == 'quick' else 25))
        cap = a.cap or (300 if tier == 'quick' else 560)
        print('%s: %s, VERIF_SEED=%d, %d seeds, %d workers' % (prop, tier, vseed, n, a.workers))
        sys.stdout.flush()
        ws, viol, hang, known, wall = search(prop, tier, vseed, n, cap, d, a.workers)
        extra = {}
        path = None
        if viol is None and hang is not None and hang[0] is not None:
            at, job = hang
            spec = {'seed_only': seed_of(vseed, prop, at['i']), 'index': at['i'], 'variant': at['v']}
            recs, w = one(d, 'hang', dict(spec, mode='replay', prop=prop, known=list(known)), HANG_S)
            if recs is None:
                path = os.path.join(EVID, 'replay-%s.json' % prop)
                json.dump({'property': prop, 'seed': spec['seed_only'], 'index': at['i'], 'vseed': vseed, 'hang': spec,
                           'violation': {'kind': 'hang', 'key': 'hang', 'detail': 'no progress in %d s' % HANG_S},
                           'digest': None}, open(path, 'w'), indent=1)
                print('hang: seed %d, variant %d makes no progress' % (spec['seed_only'], at['v']))
            else:
                r = [x for x in recs if x['t'] == 'replay'][0]
                if r['viol']:
                    viol = {'viol': r['viol'], 'plan': r['plan'], 'seed': spec['seed_only'], 'i': at['i']}
                else:
                    raise NoAnswer('worker stalled at %s but the run ends when repeated' % (at,))
        elif hang is not None and viol is None:
            raise NoAnswer('worker stalled before its first run')
        if viol is not None:
            path, a0, exact, mini = handle_violation(prop, viol, known, d, vseed)
            print('%s (%s): %s' % (a0['viol']['kind'], a0['viol']['key'], a0['viol']['detail']))
            print('seed %d (index %d); %d of %d operations left after minimisation; replayed exactly: %s'
                  % (viol['seed'], viol['i'], len(mini['ops']), len(viol['plan']['ops']), exact))
            for l in a0['log'][-25:]:
                print('  ' + l[:300])
        ev, differ, agg = evidence(prop, tier, vseed, ws, time.time() - t0, 'exploration', 1 if path else 0, extra)
        for k, what in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        if differ:
            print('WARNING: executions %s differed when repeated in another process' % differ)
        if path:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if not agg['runs'] or not ev['coverage']['distinct_nontrivial']:
            raise NoAnswer('nothing was explored')
        print('%s held: %d seeds, %d runs, %d distinct disturbed executions, %.0f simulated s, %.1f s'
              % (prop, agg['seeds'], agg['runs'], ev['coverage']['distinct_nontrivial'], agg['sim'], time.time() - t0))
        return 0
    except NoAnswer as e:
        print('NO ANSWER: %s' % e)
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
