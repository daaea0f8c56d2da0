#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {
 'C19': 'Timing of comparisons is a property of machine code and hardware; in a simulator the clock is virtual and advances only when the simulator says so, so no simulated execution can observe it.',
 'C20': 'Which memory an unsafe read touches, and whether it relies on unspecified layout, is decided by the compiler and the memory model (Miri, proof), not by schedules, faults or time; a simulated run that returns the right number (checked under C16) does not settle it.',
}
BASE = ('Seeded search: every run is one exactly repeatable history of one to three issuance sessions over one or two issuers with replicas, wallets, resolver, store, clock and an attacker, '
        'and every call into the real library is judged by an independent reference model; no violation in the runs explored, not a proof. '
        'Trusted: the reference model (sim/src/model.rs, oracle.rs), the seams (clock and random bytes intercepted at libc), and the toy signature scheme of the simulated wallets. ')
NOTE = {
 'C01': 'Evaluation instants are placed on, one nanosecond before and after creation+lifetime, and the clock also moves during calls.',
 'C02': 'Arrival instants are placed on and one nanosecond around nbf and exp, for the stand-alone verification and for the evaluation.',
 'C03': 'Near-miss nonces, rotations, replays and misdelivery between sessions; accepted histories are also traced back to the wallet that signed.',
 'C04': 'Issuers and clients with near-identical identifiers, relayed proofs, every grant/client combination.',
 'C05': 'Near-miss codes, PIN length boundary, misdelivered token requests, lost offers and PIN records.',
 'C06': 'Resolver answers with missing, stale, swapped, decoy and damaged documents in all verification relations and key encodings that the model can judge.',
 'C07': 'Known findings KF-1 and KF-2 are recognised by their exact form; anything else is reported.',
 'C08': 'Every registered alg spelling, typ, proof_type and key header is tried.',
 'C09': 'Every record can be lost, torn or withheld at each evaluation.',
 'C10': 'Corrupted, truncated, spliced, deeply nested and extreme messages, documents, records and clocks; process death and endless loops are detected by the parent process.',
 'C11': 'Every record written is read back and compared, and decisions are taken again with the reloaded copies. Known finding KF-5 is recognised by its exact form.',
 'C12': 'After the last fault every honest session must finish within a fixed number of exchanges.',
 'C13': 'The bytes on the wire are decoded by an independent reader and compared with what the issuer supplied.',
 'C14': 'Recorded calls are executed again in another order, on other threads, interrupted at allocations by other calls, and in processes that never did anything else.',
 'C15': 'Offer creation during metadata roll-out, link decoded by an independent URL reader. Known finding KF-3 is recognised by its exact form.',
 'C16': 'Each refusal is checked against the set of reasons that apply according to the model, and its exported form against the documented table.',
 'C17': 'Known finding KF-4 is recognised by its exact form.',
 'C18': 'Returned times must lie between the first and last instant the clock showed during the call, and equal a value read.',
}
m = {
 'version': 1,
 'setup_cmd': 'bash tools/check.sh build',
 'hooks': {'guard': 'none', 'enable': 'no change to /repo is needed: the clock and the random bytes are intercepted at the libc symbols clock_gettime, time, gettimeofday and getrandom of the simulator binary; everything else already is an argument of the public API', 'source_commits': []},
 'checks': [], 'not_applicable': [],
 'notes': 'tools/check.sh builds sim/ against /repo\'s working tree and runs the check. Replay: sim/target/debug/dst replay <file>. Known and fixed findings: known-findings.txt.',
}
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': f'bash tools/check.sh {i}',
        'thorough_cmd': f'bash tools/check.sh {i} thorough',
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': BASE + NOTE[i],
    })
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
