#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the technique table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUZZ = ' plus coverage-guided fuzzing (libFuzzer) of the same property'
TECH = {
    'C01': 'stateful property-based testing: prefix/bounds invariant over insertion histories in guarded memory' + FUZZ,
    'C02': 'stateful property-based testing against a reference model of padding and refusal' + FUZZ,
    'C03': 'property-based testing with a validity predicate on the decimal text (error bound, digits, room)' + FUZZ,
    'C04': 'property-based testing against a reference model (text cut at the room, hex dump round-trip)' + FUZZ,
    'C05': 'stateful property-based testing against a reference model of views, size and clear' + FUZZ,
    'C06': 'model-based stateful testing against a map of values per name and size' + FUZZ,
    'C07': 'differential stateful testing: a storage re-attached at generated points against one never re-attached, and a map model' + FUZZ,
    'C08': 'stateful property-based testing of fit, refusal and footprint against a reference model with region snapshots' + FUZZ,
    'C09': 'fault injection (torn stores with generated byte subsets) and fuzzing of arbitrary attached memory, with bounds, termination and survival oracles' + FUZZ,
    'C10': 'property-based testing against a reference slice model, counts up to SIZE_MAX',
    'C11': 'property-based testing against element-wise copies, exact-size guarded memory',
    'C12': 'property-based testing (involution, reference byte reversal); 16-bit values exhaustively enumerated',
    'C23': 'property-based testing of algebraic laws and reference formulas over three coordinate types',
    'C29': 'model-based stateful testing over a simulated UART with generated arrivals and device errors',
    'C30': 'property-based testing of schedules over a virtual clock (wraps, noise, preemption)',
    'C31': 'differential stateful testing: transmitted bytes against formatted messages',
    'C32': 'property-based testing over a simulated SPI driver with failure at generated transactions',
    'C33': 'model-based stateful testing over a simulated I2C bus with generated NACKs and short transfers',
    'C34': 'stateful property-based testing over simulated pin and peripheral drivers with failures',
    'C35': 'stateful fault-injection testing of driver allocation histories over simulated SPI and ADC drivers',
    'C36': 'property-based testing over a virtual clock (uptimes, preemption, failing and early sleeps)',
    'C37': 'property-based testing of call histories with allocation hooks as the oracle',
}
TECH.update({
    'C13': 'property-based testing against a reference pixel store, all depths and exact-size guarded memory',
    'C14': 'model-based stateful testing: drawing histories against a reference model of the colour state',
    'C15': 'metamorphic stateful testing: the picture is the crop of the same picture on a larger surface, in guarded memory',
    'C16': 'metamorphic property-based testing: each rotation against the transformed unrotated picture',
    'C17': 'property-based testing of lines with a geometric validity predicate in exact integer arithmetic',
    'C18': 'property-based testing against a reference set of border and area pixels',
    'C19': 'property-based testing of circles with a geometric validity predicate (outlines of all radii up to a bound enumerated)',
    'C20': 'property-based testing against a reference rasterisation of generated fonts',
    'C21': 'property-based testing of glyph lookup over generated fonts, all 256 codes enumerated per font',
    'C22': 'property-based testing of text bounds against the pixels of the drawn text',
    'C24': 'model-based stateful testing of bit packing against a reference bit list',
    'C25': 'differential property-based testing: converted fonts parsed and compared with an independent rasterisation',
    'C26': 'differential property-based testing: generated headers compiled or parsed and compared with the binary output',
    'C27': 'fuzzing of command lines, font files and injected I/O failures with a loud-failure oracle',
    'C28': 'metamorphic and differential property-based testing of byte histories against an independent conversion',
    'C38': 'metamorphic property-based testing: histories of several objects alone, interleaved and on threads (ThreadSanitizer as race oracle)',
})
NOTE = ('Generated-input search with an explicit oracle over the code built from the current tree with AddressSanitizer and UBSan; the case counts, non-trivial counts, class '
        'distribution and samples are in the evidence file. It shows the presence of violations, not their absence, outside what was generated.')
HW = ' The platform drivers are simulated (mocks/), so the claim is about the library code above the driver interface.'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    for p in props:
        n = int(p['id'][1:])
        checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': TECH[p['id']], 'level': 'exploration', 'level_note': NOTE + (HW if n >= 29 else '')})
    m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check tools/checks.py && g++ --version >/dev/null && clang++ --version >/dev/null',
         'hooks': {'guard': 'NONE', 'enable': 'no hooks were needed: the checks build the unchanged sources', 'source_commits': []}, 'checks': checks, 'not_applicable': [],
         'notes': 'Every check builds its own harness from /repo in a scratch directory below /tmp and removes it. ./check Cxx --replay FILE re-runs a saved failure.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
