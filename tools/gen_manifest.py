#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {
    'C01': 'linear reference: RFC 7539 ChaCha20 written anew in sim/refs.py',
    'C02': 'history oracle: position interval of the stream after every aborted call, reuse of any block is a violation',
    'C03': 'history oracle: octets drawn from the simulated entropy device per creation',
    'C04': 'reference RFC 7539 AEAD; receivers over a lossy, duplicating, reordering network',
    'C05': 'reference decides for every altered packet whether it must be refused',
    'C06': 'reference RFC 5297 on the Java runtime\'s AES; failures of the block-cipher device',
    'C07': 'reference decides for every altered packet whether it must be refused',
    'C08': 'reference RFC 4493 on the Java runtime\'s AES',
    'C09': 'reference group arithmetic; liveness: the attempt after the last fault completes within the step budget',
    'C10': 'reference curve equation decides acceptance of every delivered pair',
    'C11': 'reference group law; replicas converge',
    'C12': 'history oracle over keys and entropy draws',
    'C13': 'reference curve equation',
    'C14': 'reference two-phase mix; candidate sets after aborted key changes',
    'C15': 'reference Michael',
    'C16': 'reference RFC 2104; state unknown after aborts until the documented recovery call',
    'C17': 'reference RFC 2898 and 802.11 PRF (Java HMAC-SHA1); handshake nodes',
    'C18': 'reference number theory (Java BigInteger for primality)',
    'C19': 'reference modular arithmetic',
    'C20': 'reference base-N arithmetic',
    'C21': 'table of parameters (sim/curvetable.json), compared after every operation on the curves',
    'C22': 'reference RFC 7539 Poly1305; messages solved for accumulators and tags next to the carries',
    'C23': 'digits computed by another formula',
    'C24': 'references by other algorithms (butterfly transform); callers scribble over results',
}
checks = []
for i in range(1, 100):
    p = 'C%02d' % i
    if p not in NOTE:
        continue
    checks.append({
        'property': p,
        'quick_cmd': './run_check.py %s --tier quick' % p,
        'thorough_cmd': './run_check.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection (seeded schedules and faults, replayable, minimised)',
        'level': 'exploration',
        'level_note': 'Seeded search over executions of the real code under a scheduler that controls thread switches at '
                      'statement granularity, asynchronous exceptions, the network, entropy, clock, device and crashes '
                      'as far as the property meets them; ' + NOTE[p] + '. Trusts Jython 2.7.3 as the Python 2 '
                      'interpreter and the references; samples, does not prove.',
    })
m = {
    'version': 1,
    'setup_cmd': 'java -version && python3 -m py_compile run_check.py && test -f /usr/share/java/jython.jar',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
    'notes': 'No hooks in /repo: the simulator instruments the sources in memory while importing them. '
             './run_check.py <id> --replay <file> replays a recorded violation.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
