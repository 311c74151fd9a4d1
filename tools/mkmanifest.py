#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those the simulator has."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
src = open(here + '/sim/src/props/mod.rs').read()
have = re.findall(r'^        "(C\d\d)" => Info', src, re.M)
NA = {
 'C14': "decided entirely while rustc expands the macro: one deterministic pure function of the source, with no run, schedule, clock, I/O or fault for a simulator to control; it calls for compile-fail tests",
}
NOTE = {
 'C01': "Seeded search: the real parser loads files produced by a simulated editor and a simulated faulty disk inside a step and memory budget enforced by the allocator. Evidence of absence only for the histories explored; nesting is bounded because the recursive parser uses stack in proportion to it.",
 'C02': "Seeded search: every load is compared with an independent reference reader and every clean save with the editor's model. Trusts the reference reader of KDL 1.0 in sim/src/refkdl.rs.",
 'C03': "Seeded search: every position in every accepted load is compared with the reference in byte and line/column modes. Trusts refkdl.rs and unicode-width for display columns.",
 'C04': "Seeded search over damage: source attachment, bounds, locality and openers of unclosed constructs are checked on every rejected load. The point of damage comes from the reference reader.",
 'C05': "Seeded search over fault scripts injected into every decoder callback; a ledger of raised errors is compared with the report.",
 'C06': "Seeded search: catalogue and generated derive types against an interpreter of the annotations that shares no code with the derive macro.",
 'C07': "Seeded search over failure patterns of top-level nodes; oracle is each node decoded alone.",
 'C08': "Seeded search over histories of context operations against a map model, with nested and failing decodes.",
 'C09': "Seeded scheduler over real threads: exactly one runs at a time and hands over at allocation points and decoder calls chosen by the seed; oracle is the same load run alone.",
 'C10': "Seeded search over documents and save/restore chains; the format is pinned by a hand-written reference encoder and decoder.",
 'C11': "Seeded search over sink failures, cuts and corruptions of snapshots; oracle is the full encoding and the reference decoder.",
 'C12': "Seeded search over chains of copies; oracle is the original document and the original decode.",
 'C15': "Seeded search over the inputs, faults and histories that a fleet of sixteen differently built programs shares: all sets of features are built (a set that does not build is a violation), everything members see is compared, base64 values against a model. The sets themselves are enumerated in full; what they are given is sampled.",
 'C16': "Seeded search over reload histories: comparisons, sorted and hashed collections and lookups of spanned values of all loads; oracle is the same done with the plain values.",
 'C13': "Seeded search over sink failure points for every error of the simulated loads; oracle is the complete message.",
}
m = {
 'version': 1,
 'setup_cmd': 'bash build.sh',
 'checks': [{
   'property': p, 'quick_cmd': f'bash check.sh {p}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {p}',
   'technique': 'deterministic simulation with fault injection (seeded schedules, faults and histories; replayable choice trace)',
   'level': 'exploration', 'level_note': NOTE[p]} for p in have],
 'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'not built yet')} for p in props if p['id'] not in have],
 'notes': 'No hooks in /repo were needed: the seams are the global allocator, the decoder traits, fmt::Write, minicbor::encode::Write and the text and byte buffers the library is given.',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
