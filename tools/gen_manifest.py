'''Writes /verif/MANIFEST.json.'''
import json
import os

DST = 'deterministic simulation with fault injection: '
CLAIMED = [
    ('C01', 'seeded histories of hostile writes, failing and interrupted '
            'calls on shared objects, judged against the record they were '
            'built from',
     'Every object graph is read completely before and after each step and '
     'compared with an independent model of its bytes, ids and digests. '
     'Writes through object.__setattr__ or private attributes are outside '
     'the property.'),
    ('C02', 'seeded sessions of calls, failures, network switches and clock '
            'jumps, each call compared with a fresh process',
     'The oracle for a call is the same call in a process that has done '
     'nothing else. A wrong answer that is the same in every process is not '
     'this property (C06, C08 and C10 have models).'),
    ('C03', 'seeded thread scheduler that pre-empts at every line or opcode '
            'of library code, results compared with the calls run alone',
     'Threads are real Python threads held to one runnable at a time; '
     'pre-emption is between lines or bytecodes of library code, not inside '
     'C functions (hashlib), as under the real interpreter lock.'),
    ('C04', 'asynchronous exceptions injected at a seeded step of library '
            'code, state and later calls compared with a session without '
            'the call',
     'Injection points are lines and bytecodes of library code, except '
     'inside critical sections a caller could not interrupt (finally blocks '
     'that restore state).'),
    ('C05', 'failing allocations and hash backend injected at a seeded '
            'step, result compared with the same call without the failure',
     'Allocation failures are MemoryErrors raised at steps of library code '
     'and in the hash backend; failures inside the C allocator itself are '
     'not produced.'),
    ('C06', 'seeded store/crash/restart/send histories over a simulated '
            'disk and forked nodes, judged against a model of the formats',
     'The model of the wire formats was written from the protocol '
     'documents and shares no code with riemann.'),
    ('C07', 'seeded short reads, torn writes and closed connections; every '
            'cut point of the transferred bytes is tried',
     'Within a run all cut points are tried; transactions are sampled.'),
    ('C08', 'seeded corruption and misrouting of addresses between nodes, '
            'judged against an independent decoder of every address form',
     'Corruptions are sampled; an accepted corruption is judged by an '
     'independent decoder, so checksum collisions are no alarm.'),
    ('C09', 'seeded wire corruption (flip, drop, insert, reorder, repeat, '
            'counts) judged against an independent parser',
     'Corruptions are sampled; allowances for the documented decoder limits '
     '(output scripts of 252 bytes or more) are in sim/checks/c09.py.'),
    ('C10', 'seeded signing parties over a lossy network with crashes and '
            'edits, every digest compared with a model of the digest rules',
     'The model of the digest rules was written from the protocol documents '
     '(legacy, BIP143, fork-id, ZIP 143/243, Decred). One known finding is '
     'listed in known_findings.json.'),
    ('C11', 'seeded interleaving and chunking of several hashers, with '
            'failing and pre-empted calls, against a specification model',
     'The model computes its constants from their definition and is checked '
     'against the published vectors at start.'),
    ('C12', 'seeded replicas exchanging edits over a lossy network with '
            'crashes inside edits; convergence and a record model',
     'Edits that do not conflict are those of different fields.'),
    ('C13', 'seeded sessions switching networks (also unknown ones and with '
            'the switch interrupted) while building, decoding and copying',
     'What is allowed is decided by the network the library itself reports '
     'as selected.'),
    ('C14', 'seeded wallets, nodes, message faults and crashes; every '
            'ledger compared with a reference ledger',
     'Signatures are stand-ins (a hash of the digest and the key), so '
     'verification depends on the digest and the key only; scripts are not '
     'executed.'),
    ('C15', 'seeded multi-hop exchange of scripts as text, hex and bytes '
            'over a damaging link, with wrong networks and interrupted '
            'calls, against an independent opcode table and parser',
     'Damages are sampled; a damaged script that reads as another '
     'well-formed script is judged as that script.'),
    ('C16', 'seeded multi-hop conversion of output scripts and addresses '
            'with damaged scripts, wrong networks and interrupted calls, '
            'against independent address codecs',
     'Damages and hashes are sampled; damaged addresses are C08.'),
    ('C17', 'seeded exchange of digests between parties on several networks '
            'or in preempted threads, over a damaging link, with failing '
            'hash backends, interrupted calls and reused buffers, against '
            'independent digests',
     'Data and schedules are sampled. hashlib stands behind a seam and is '
     'also the reference for SHA-2, RIPEMD and BLAKE2; BLAKE-256 has its '
     'own model.'),
    ('C18', 'seeded damage, loss and repetition of build requests, '
            'interrupted builds, against a strict reading of the request',
     'Where neither the format nor the documentation decides, the request '
     'is open and not judged (the class Open in sim/checks/c18.py).'),
    ('C19', 'seeded relay network of nodes applying the policy to hostile and '
            'damaged transactions, with losses, repetition, crashes and '
            'interrupted calls, against the policy over an independent '
            'script parser',
     'Transactions near the limits are sampled; what the documentation '
     'leaves open is not judged.'),
    ('C20', 'seeded chain heights, reorganizations and faulty clocks of '
            'several nodes, crashes and interrupted calls, against the rule',
     'The library reads no clock itself; heights and times reach it as '
     'arguments, from the simulated nodes.'),
    ('C22', 'seeded streams of numbers cut into fragments, damaged, lost and '
            'resumed, receivers that crash and change networks, interrupted '
            'calls, against arithmetic',
     'Numbers, cuts and faults are sampled, values near every power of 256 '
     'and every limit more often.'),
]
NA = {
    'C21': 'A table of constants; nothing executes.',
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = {f[:-3].upper() for f in os.listdir(here + '/sim/checks')}
m = dict(
    version=1,
    setup_cmd='python3 tools/selftest.py',
    checks=[dict(property=i,
                 quick_cmd=f'python3 check.py {i} --tier quick',
                 thorough_cmd=f'python3 check.py {i} --tier thorough',
                 evidence_file=f'evidence/{i}.json',
                 technique=DST + t, level='exploration', level_note=n)
            for i, t, n in CLAIMED if i in done],
    not_applicable=[dict(property=i, reason=r) for i, r in NA.items()]
    + [dict(property=i, reason='check under construction')
       for i, _, _ in CLAIMED if i not in done])
with open(here + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
