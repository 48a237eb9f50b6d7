#!/usr/bin/env python3
import json
T = {
 'C01': ('online monitor at the API boundary, token-count oracle', ''),
 'C02': ('online monitor: recount of every size after every operation', ''),
 'C03': ('online monitor at the API boundary, token-range oracle', ''),
 'C04': ('online monitor: token-splice oracle over random and all-range replacements', ''),
 'C05': ('online monitor: acceptance and error-kind oracle (content-expression derivatives)', ''),
 'C06': ('online monitor: replace/undo history checker', ''),
 'C07': ('online monitor: replace-around oracle over token lists', ''),
 'C08': ('online monitor: differential runs of marked and unmarked steps, token oracle', ''),
 'C09': ('online monitor: per-token mark oracle', ''),
 'C10': ('online monitor: per-token mark oracle', ''),
 'C11': ('online monitor: operation histories against a sorted-map model', ''),
 'C12': ('online monitor: round trips and an independent reference JSON writer', ''),
 'C13': ('online monitor: round trips and an independent reference JSON writer', ''),
 'C14': ('crash/hang/overflow monitor (checked build, supervised child process) under hostile steps', ''),
 'C15': ('online monitor: recorded visit log against the token list', ''),
 'C16': ('online monitor: reference conversion of the parser event log', ''),
 'C17': ('online monitor: write/read round trip, crash monitor', ''),
 'C18': ('online monitor: regular-expression-derivative oracle, exhaustive up to length 3', ''),
 'C19': ('concurrent vs sequential vs fresh-process comparison; Miri data-race/UB interpreter', ' The Miri part covers a small workload; if Miri cannot run, that is noted in the evidence and only the native part decides.'),
 'C20': ('history monitor: authority, JSON replica, snapshot joiner, replay against the oracle', ''),
 'C21': ('online monitor at the API boundary, child-list oracle', ''),
 'C22': ('online monitor: UTF-16 oracle over astral text', ''),
 'C23': ('online monitor: accessors and equality against the tree the node was built from', ''),
 'C24': ('online monitor: every refusal against the list of conditions that fail, by the oracles of C01, C03, C05, C07, C08 and C16', ''),
 'C25': ('counting allocator around every call of long sessions: balance, peak, held memory', ' Memory is what is allocated on the calling thread.'),
}
checks = []
for k, (t, extra) in T.items():
    checks.append(dict(property=k, quick_cmd=f'./check.sh {k}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {k}',
        evidence_file=f'evidence/{k}.json', technique='runtime monitoring: ' + t, level='exploration',
        level_note='Held on every execution observed (counts and events in the evidence file); nothing is claimed of inputs not generated. Trusts the oracle in harness/src (which shares no code with the crate), rustc, and that the overflow-checked build behaves like the shipped one where it does not trap (the thorough tier also runs the shipped profile).' + extra))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=[],
  notes='No hooks in /repo: everything is observed through the public API. known_findings.txt lists the defects found (all repaired).')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
