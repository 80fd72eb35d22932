"""Regenerate MANIFEST.json from the list of finished checks (development helper)."""
import json
T = {
 'C01': 'deterministic simulation: one chain in many simulated worlds (task schedules, worker serialization, ambient randomness, consumer pacing), byte-equal histories',
 'C02': 'deterministic simulation with crash and restart: only a serialized checkpoint survives, history must equal the uninterrupted one',
 'C03': 'deterministic simulation: seeded query, branch and extreme-draw histories against a dictionary model and structural invariants',
 'C04': 'deterministic simulation: seeded query histories, two-stage Monte Carlo test of the revealed law against the Brownian bridge',
 'C05': 'deterministic simulation: seeded consumer pacing and early stops, invariants and two-stage Monte Carlo test against the Poisson process',
 'C06': 'deterministic simulation: scripted stateful coins with injected failures, protocol log and exact odds',
 'C07': 'deterministic simulation: seeded cut, paste, redraw and crash histories against a step-function model',
 'C08': 'deterministic simulation: chains on adversarial data sets under simulated schedules, invariants after every update',
 'C09': 'deterministic simulation: updates started from the exact joint law under seeded schedules and settings, two-stage Monte Carlo test of stationarity',
 'C10': 'deterministic simulation: updates started from the exact joint law under seeded schedules and settings, two-stage Monte Carlo test of stationarity',
 'C11': 'deterministic simulation: seeded accept/reject histories against a reference recursion',
 'C12': 'deterministic simulation: EM runs behind recording and faulty model callbacks, checks over the recorded history',
 'C13': 'deterministic simulation with fault injection: rejecting and failing callbacks, extreme draws, draw budgets',
 'C14': 'deterministic simulation: interleaved path streams under seeded consumer schedules, two-stage Monte Carlo test against the exact transition law',
 'C15': 'deterministic simulation: seeded sampling and redraw histories, two-stage Monte Carlo test against matrix exponentials',
 'C16': 'deterministic simulation: interleaved samplers under seeded consumer schedules, two-stage Monte Carlo test against the exact distribution',
}
NOTE = {}
NA = {
 'C17': 'Model functions are pure functions of their arguments: no schedule, clock, I/O, randomness, fault or history can change their value, so a simulator has nothing to schedule or inject; deciding it needs algebra or input search, which is another technique.',
 'C18': 'Transforms and distribution functions are pure functions of their arguments: no schedule, clock, I/O, randomness, fault or history can change their value, so a simulator has nothing to schedule or inject.',
}
import sys, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
done = [i for i in sorted(T) if os.path.exists('dst/checks/%s.py' % i.lower())]
checks = [{'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
           'evidence_file': 'evidence/%s.json' % i, 'technique': T[i], 'level': 'exploration',
           'level_note': NOTE.get(i, 'Seeded search over simulated executions: evidence over the runs explored, not a proof. See DESIGN.md, %s.' % i)} for i in done]
na = [{'property': i, 'reason': r} for i, r in NA.items()]
na += [{'property': i, 'reason': 'check not built yet'} for i in sorted(T) if i not in done]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
