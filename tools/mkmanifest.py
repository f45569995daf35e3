#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; claimed = the properties a check exists for."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
AST = 'property-based testing: random combinator trees and inputs against a reference interpreter, shrunk on failure'
CLAIM = {
 'C01': (AST + ' (span invariant)', None),
 'C02': ('property-based testing: random combinator trees with failing conversions and handlers, position invariant after every failure', None),
 'C03': ('property-based testing: differential check of matching against construction over random trees', None),
 'C04': ('property-based testing: element tests against independently written sets over every char and byte and generated operands', None),
 'C05': (AST + ' (element repetition, stateful and conditional units)', None),
 'C13': ('property-based testing / fuzzing: conversions of generated text and bytes against the standard library', None),
 'C18': ('property-based testing, stateful: operation sequences on span stores against a reference list', None),
 'C19': ('property-based testing, stateful: operation sequences on a context against a reference cursor', None),
 'C23': ('property-based testing: histories of uses against freshly built patterns, copies against a reference interpreter, and several threads against one', None),
 'C16': ('property-based testing: a pattern behind generated stacks of wrappers against the bare pattern, and against a reference interpreter', None),
 'C17': ('property-based testing: generated documents and random self-referring grammars against reference recursive-descent parsers', None),
 'C06': (AST, None), 'C07': (AST, None), 'C08': (AST, None), 'C09': (AST, None), 'C10': (AST, None), 'C11': (AST, None),
 'C12': ('property-based testing: extracted values against slices of the input at the spans of a reference interpreter', None),
 'C14': ('property-based testing: scanning against a reference scanner built on a reference interpreter', None),
 'C15': ('property-based testing: reference interpreter on skipping contexts, and a metamorphic blank-insertion relation', None),
 'C20': ('property-based testing: macro patterns against the regex crate on generated text and bytes', None),
 'C21': ('property-based testing: metamorphic relations (moved start, other tail, text against bytes)', None),
 'C22': ('property-based testing: differential check of six builds of the same crate on the same generated cases', None),
 'C24': (AST + ' (patterns built while parsing)', None),
 'C26': ('property-based testing: patterns whose parts were exchanged and put back through setters and accessors against a reference interpreter', None),
 'C27': (AST + ' (which error is reported; runs that user errors decide)', None),
 'C25': ('property-based testing / fuzzing: every entry point on hostile inputs and positions, only a panic or a runaway fails', None),
}
NOTE = ('Searches generated cases only: agreement on everything generated, no proof. Trusts the reference model in /verif/harness '
        'and rustc; the fixed seed makes a run repeatable.')
m = {
 'version': 1,
 'setup_cmd': 'true',
 'checks': [{
   'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick", 'thorough_cmd': f"./check.sh {p['id']} thorough",
   'technique': CLAIM[p['id']][0], 'level': 'exploration', 'level_note': (CLAIM[p['id']][1] or '') + NOTE,
 } for p in props if p['id'] in CLAIM],
 'not_applicable': [{'property': p['id'], 'reason': 'the check for this property is not built yet'} for p in props if p['id'] not in CLAIM],
 'notes': 'Each check builds its harness crate against /repo (path dependency) from scratch; no hooks in /repo are needed.',
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not claimed')
