#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = {
 'C01': ('probed rule evaluation checked online against a reference evaluator', 'exploration'),
 'C02': ('probed chain evaluation checked online against a reference evaluator', 'exploration'),
 'C03': ('recorded evaluation trace checked online against a specification automaton', 'exploration'),
 'C04': ('recorded evaluation trace checked online against a specification automaton', 'exploration'),
 'C05': ('recorded results and actions checked online against a specification automaton', 'exploration'),
 'C06': ('recorded evaluation trace checked online against a specification automaton', 'exploration'),
 'C07': ('Go race detector and a per-transaction recorder, concurrent runs compared with solo runs', 'exploration'),
 'C08': ('byte-for-byte monitor of body histories', 'exploration'),
 'C09': ('limit monitor of body histories and of inspected transactions', 'exploration'),
 'C10': ('storage faults injected at random points (rlimits, missing and full directories), monitored body histories', 'fault_enumeration'),
 'C11': ('probed argument variables checked against generated ground truth', 'exploration'),
 'C12': ('probed selectors checked against a reference selection', 'exploration'),
 'C13': ('probed variables checked against the announced traffic', 'exploration'),
 'C14': ('mutated and hostile rule texts under panic, memory and hang monitors', 'exploration'),
 'C15': ('loaded rules compared with the generated rules that the text lays out', 'exploration'),
 'C16': ('invalid directives and read faults injected at every position, configuration observed before and after', 'fault_enumeration'),
 'C17': ('exhaustive short and random long inputs checked against a reference decoder', 'exploration'),
 'C18': ('exhaustive short and random long inputs checked against reference transformations', 'exploration'),
 'C19': ('operators checked against arbitrary-precision and leftmost-match references', 'exploration'),
 'C20': ('hostile call histories under panic, memory and hang monitors', 'exploration'),
 'C21': ('snapshots of the traffic, repeated looks and metamorphic rule sets', 'exploration'),
 'C22': ('every documented feature driven through rule text and live traffic', 'exploration'),
 'C23': ('recorded evaluation trace checked online against a specification automaton', 'exploration'),
 'C24': ('heap, goroutine and descriptor monitor over long runs of transactions and loads', 'exploration'),
 'C25': ('processor time and allocation monitor over inputs of growing size', 'exploration'),
 'C26': ('recorded evaluations of built and loaded rule sets compared on the same traffic', 'exploration'),
 'C28': ('registered directives recorded as they take effect, with the engine as it is then; injected refusals and failures', 'fault_enumeration'),
 'C30': ('sequences of elements written from their meaning, read one by one from streams in pieces by scanners in turn, compared with the meaning at once and at the end', 'exploration'),
 'C31': ('interceptions put together field by field by actions and callers, compared with a record when collected and again at the end', 'exploration'),
 'C29': ('callbacks of user-supplied rule parts checked against a position model, transactions interleaved', 'exploration'),
 'C27': ('recorded events matched one to one with the delivered log entries', 'exploration'),
}
NOTE = {
 'C07': 'Every execution is run by the real code under the race detector; a race is seen only when its two accesses occur in some run, and a wrong outcome only when the generated transactions expose it.',
 'C10': 'Faults are injected into the real file system calls at random and at systematically chosen sizes; the kinds are those an unprivileged process can meet (no directory, unwritable directory, file size limit, full open-file table).',
 'C24': 'Counts what the Go runtime and the kernel report after forced collections; growth must continue over several doublings before it is believed, so a bounded cache raises no alarm.',
 'C25': 'Thread processor time and allocated bytes at sizes four times apart; an alarm needs more than five times the linear growth over a sixteenfold size, measured again several times.',
 'C16': 'Every directive position and read position of the generated texts is a candidate for the fault; the texts themselves are sampled.',
}
checks = []
for p in props:
    i = p['id']
    tech, lvl = T[i]
    checks.append({'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}',
        'technique': 'runtime monitoring: ' + tech, 'level': lvl,
        'level_note': NOTE.get(i, 'Observes the real code on generated executions; nothing is proved about executions not generated.') + ' Trusted: the Go toolchain and the reference model in /verif/harness.'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': [],
  'notes': 'No hooks in /repo: the public interfaces of the code (Variable, Trans, Operator, Action) are where the probes sit. bin/check ID builds the harness against /repo (replace directive) and runs it in worker processes.'},
  open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
