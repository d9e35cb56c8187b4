#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl that run.py decides."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
TECH = {
    'builder': ('TLA+/TLC: builder and wire specification; programs generated by TLC replayed on the real Builder, its bytes decoded and judged by TLC',
                'Every recorded execution is judged by the specification, which decodes the bytes itself. Exhaustive for short programs and systematic boundary values (see evidence), sampled beyond. Trusts TLC and the driver.'),
    'twin': ('TLA+/TLC: the builder specification, which has no state outside one unit of work, judges every one of several units of work built side by side; units and pairings generated by TLC, run on the real code under a cooperative scheduler (every single preemption between statements, random and free schedules)',
             'Every recorded unit is judged by the specification on its own. Exhaustive for one preemption at statement granularity for the small pairs, sampled beyond. Trusts TLC, the scheduler and the recorder.'),
    'codec': ('TLA+/TLC: contract of the encoders on a growing buffer; sequences of encoder calls generated by TLC, replayed on the real encoders, their bytes decoded and judged by TLC',
              'Systematic in lengths, capacities, tags and faults within the bounds in the evidence, sampled beyond. Trusts TLC and the driver.'),
    'conn': ('TLA+/TLC: connection specification; TLC enumerates server streams and faults, replayed through a scripted net.Conn; TLC judges results',
             'Exhaustive for all server streams within the bounds in the evidence, plus a fault at every byte; virtual time. Trusts TLC and the fake network.'),
    'pool': ('TLA+/TLC: pool contract and channel-and-lock design checked by TLC; programs from TLC run on the real pool under a cooperative scheduler (all interleavings of its statements with a bounded number of preemptions, random and free schedules); TLC accepts or rejects the recorded histories',
             'Design model checked for small numbers of clients; every recorded history of the real code is judged by the contract. Preemption-bounded exhaustive at statement granularity within the bounds in the evidence, sampled beyond. Trusts TLC, the scheduler and the recorder.'),
    'connector': ('TLA+/TLC: connector specification; TLC enumerates server behaviours and configurations, replayed against a scripted TCP/Unix/TLS server; TLC judges what the server saw',
                  'Exhaustive for all server behaviours within the bounds in the evidence. Trusts TLC, crypto/tls and the scripted server.'),
    'system': ('TLA+/TLC: units of work, pool and transactional server model; TLC checks atomicity and enumerates fault histories replayed on the real builder, pool and connections under a cooperative scheduler; TLC computes what the server committed and judges it',
               'The server is a model of MySQL sessions, expectation blocks and transactions. Exhaustive within the bounds in the evidence.'),
    'names': ('TLA+/TLC: table of MySQL collation numbers and error codes with its rules; TLC generates every constant and number to ask about, and judges the answers of the real code',
              'Every constant; numbers up to the bound in the evidence. The table itself is trusted (it was written down from MySQL 8.0, not read off a server). Trusts TLC and the driver.'),
    'data': ('TLA+/TLC: denotational specification; systematic inputs generated by TLC, results of the real code judged by TLC',
             'Systematic and boundary inputs only; hash functions are uninterpreted. Trusts TLC and the driver.'),
}
KIND = dict(C01='builder', C02='builder', C03='builder', C04='builder', C05='builder', C06='builder', C07='system', C08='conn', C09='conn',
            C10='pool', C11='pool', C12='pool', C13='connector', C14='connector', C15='data', C16='data', C17='twin', C18='codec', C19='names')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in run.CHECKS:
        t, n = TECH[KIND[i]]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
