#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (oracle below, bounds from the harness
headers, cost from the last evidence files) + design_tail.md"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 'A01': 'an array of 16-bit frames kept by the stand-in for the WAV library, compared with rounding and clipping written out in the harness (bit-precise floating point).',
 'B01': 'field-by-field comparison of the experience before and after a write and a read through a symbolic file.',
 'B02': 'as B01 for bands and effects, with keyframe defaults where the format has no presence bit.',
 'B03': 'as B01 for the effect library.',
 'B04': 'the bit string written down in the harness; all start offsets inside a byte.',
 'B05': 'half a quantisation step, monotonicity and idempotence, in bit-precise floats for 8-bit fields and exact reals for wider ones.',
 'B06': 'no out-of-bounds access, no undefined arithmetic, no exception, no unbounded loop or allocation on any content; cut files are refused or leave a usable experience that is walked afterwards.',
 'C01': 'reference tables in harness/ref_tables.h: each code and name maps to its partner, every other one to nothing.',
 'E01': 'the start, end and control-point levels of each curve by their definition (linear; half slope for chirps), computed in the harness from the event and the curve.',
 'E02': 'arrival times of every round by interval arithmetic over the repeat structure (no simulation), the envelope by its four defining points.',
 'E03': 'the definition of a local extremum applied to each inner sample; nearest ticks; last point of a tick wins.',
 'I01': 'interpolation passes through its points, is monotone where it has to be, one value per time, finite everywhere.',
 'J01': 'the experience before writing the JSON tree compared with the one read back from the tree.',
 'J02': 'inverse functions in both directions plus the bit values of each base64 symbol.',
 'J03': 'an independent predicate for each conformance rule; the verdict of the code must be exactly the conjunction.',
 'O01': 'field-by-field comparison through a symbolic file; fixed field sizes; cut files.',
 'S01': 'the experience before streaming its metadata compared with the one the reader has built; repetition changes nothing.',
 'S02': 'effects reassembled from data packets compared with the source by position, keyframes and type; every effect exactly once.',
 'S03': 'a second, simple parser of unit and packet headers in the harness, which must visit whole packets and end at the end of the unit.',
 'S04': 'polynomial division bit by bit; every burst of errors no longer than the checksum changes it.',
 'S05': 'as B06 for packets, units and stream files; decoding succeeds exactly when the packet is complete and refers to what exists.',
 'T01': 'the multiset of keyframes after each operation and their order.',
 'T02': 'order by position, index semantics, overlap of half-open spans, first band with room.',
 'T03': 'what every band plays after expanding references, before and after factoring; ids distinct.',
 'T04': 'the value of each effect, band and channel at a time by definition; rendered samples are those values at their time, clipped.',
 'T05': 'the latest end of anything positioned; longest channel of the experience.',
 'T06': 'after an update each metadata field is that of the new entity and each contained list that of the old one.',
 'U01': 'the definition over all argument lists.',
 'W01': 'decode(encode(block)) is the block, for coefficients, scales, sign and depth.',
 'W02': 'decode(encode(bits)) is the bits in order, in any adaptive state, and both sides end in the same state.',
 'W03': 'inverse(transform(x)) = x, in exact reals; linearity.',
 'W04': 'each quantised coefficient is within half a step and of magnitude below 2^depth; the scale covers the block and is what its eight bits say.',
 'W05': 'the samples of a decoded band computed from the coefficients the harness put in, at the position of their block.',
 'W06': 'none beyond the limits the harness states (symbol count, block length, magnitude, interval invariants) and a fresh decoder.',
}
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
tail = open(os.path.join(V, 'tools', 'design_tail.md')).read()
out = [head.rstrip(), '', '## Properties', '']
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    hs = sorted(glob.glob(os.path.join(V, 'harness', i + '*.cpp')))
    if not hs:
        out += ['Not checked.', '']
        continue
    src = []
    ent, ass = [], []
    for h in hs:
        for l in open(h):
            m = re.match(r'// SOURCES (.*)', l)
            if m: src += m.group(1).split()
            m = re.match(r'// ENTRY (\S+)(.*?)bound="([^"]*)"', l)
            if m: ent.append('  - `%s`%s%s: %s' % (m.group(1), ' (thorough only)' if 'tier=thorough' in m.group(2) else '', ' [real arithmetic]' if '--real' in l else '', m.group(3)))
            m = re.match(r'// ASSUME (.*)', l)
            if m: ass.append(m.group(1))
    out += ['- Code encoded: %s (functions actually entered are listed in the evidence).' % ', '.join(dict.fromkeys(src)),
            '- Oracle: ' + ORACLE[i], '- Bounds:'] + ent
    if ass: out.append('- Outside the bounds or assumed: ' + '; '.join(ass) + '.')
    out.append('- Why tests do not settle it: ' + p['why_tests_cant'])
    e = os.path.join(V, 'evidence', i + '.json')
    if os.path.exists(e):
        d = json.load(open(e))
        c = d['coverage']
        if d['tier'] == 'quick':
            out.append('- Cost of the quick check: %d s, %d solver queries (%d s of solver time), %d states, %d functions.' % (d['wall_s'], c['queries'], c['solver_seconds'], c['states'], len(c['functions_encoded'])))
    out.append('')
out += [tail.rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
