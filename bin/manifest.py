#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.path.insert(0, V + '/gen')
sys.dont_write_bytecode = True
import checks
NOTE = 'Held on the executions observed (counts in the evidence file); says nothing about declarations and inputs the workload did not reach. Trusts rustc and the reference model in rt/src/model.rs.'
TECH = {
 'C01': 'runtime monitoring: round-trip monitors over generated declarations and values',
 'C02': 'runtime monitoring: bit-exact reference model observing pack and unpack over generated layouts, walking every bit',
 'C03': 'runtime monitoring: reference model of byte orders over width x offset x order x sign',
 'C04': 'runtime monitoring: arithmetic oracle over native values of all 128 integer types',
 'C05': 'runtime monitoring: decoding hostile bytes against a reference decoder; canonical re-pack monitor',
 'C06': 'runtime monitoring: reserved bits observed in packed bytes after unpacking dirty input',
 'C07': 'runtime monitoring: differential monitor slice against array interface, all wrong lengths',
 'C08': 'runtime monitoring: reference splitter over generated tuple types, buffers of every length',
 'C09': 'runtime monitoring: reference model of vectors, every remainder and invalid items',
 'C10': 'runtime monitoring: flattened reference model of arrays and nested types',
 'C11': 'runtime monitoring: enum oracle generated apart from the derive, exhaustive for small types',
 'C12': 'runtime monitoring: catch-all oracle over numbers and packed fields',
 'C13': 'runtime monitoring: reference renderer checking every line of the visualisation',
 'C14': 'runtime monitoring of the derive: offline checker over the documentation recorded by rustdoc, against the observed layout',
 'C15': 'runtime monitoring of the derive: accept/reject oracle over compiler runs on paired valid and invalid declarations',
 'C16': 'runtime monitoring: one recorded workload replayed under every feature set, profile and (interpreted) target',
 'C17': 'runtime monitoring: serde round-trip monitors through JSON, bincode, CBOR and a recording serializer',
 'C18': 'sanitizers: AddressSanitizer, Miri and overflow checks under hostile workloads with result monitors',
 'C19': 'runtime monitoring: size oracle over declarations, integer types and all width types',
 'C20': 'runtime monitoring: string table oracle over names and near misses',
 'C21': 'runtime monitoring: observed backing type against the smallest that holds all numbers',
 'C22': 'runtime monitoring: history checker over interleaved and multithreaded operations, Miri race detector',
 'C23': 'runtime monitoring with fault injection: programmed failures at every element position',
}
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=[], not_applicable=[])
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if hasattr(checks, p):
        m['checks'].append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 bin/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + p,
                                technique=TECH[p], level='exploration', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=p, reason='check under construction'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
