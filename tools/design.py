#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: bounds of each property, fixes, known findings, planted bugs."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS     # noqa: E402

ORACLE = {
    'C01': 'value of the digit string computed from the symbolic digits; fits-in-field predicate',
    'C02': 'arithmetic on the symbolic origins: address, range, alignment, filter, placement',
    'C03': 'the same with label minus reference point',
    'C04': 'left-to-right evaluation on unbounded integers, byte selection of the first term',
    'C05': 'assembly must fail; the list of characters of a label',
    'C06': 'a model of a region list: (start, bytes, declared end), padded output',
    'C07': 'closed formulas for the number and value of emitted bytes',
    'C08': 'concatenation of little/big-endian fields and of the characters of strings',
    'C09': 'two-counter model (address, position in output) of each statement; labels and $-references observe it',
    'C10': 'differential: the same program with the body written out, through the same code',
    'C11': 'differential: the same program with the value written in place; whole-name rule',
    'C12': 'a second tokenizer written from the lexical rules over whole lines (harness/tokens.py)',
    'C13': 'differential: text in place; bytes of the file; numbers of the cells',
    'C14': 'each assembler alone; one call instead of two',
    'C15': 'a small ELF reader written from the format description',
    'C16': 'value mod 2**bits, shifts and masks',
    'C17': 'the line counted over the text before the statement; the tokens as written; name and value of the reference',
    'M02': 'the bytes each statement emits and their position, from the operands; the same program without .log',
    'M01': 'the sources concatenated; content of the destination afterwards',
    'P01': 'header layout and the two checksum formulas of the Game Boy; 2 bit planes per row',
    'P02': 'iNES header, 16 byte tiles of 2 planes, symbol lines',
    'P03': '4 bit planes per row',
    'P04': 'complement of the GBA header; sum of words of a Genesis image',
    'P05': 'PS-X EXE header fields',
    'I01': 'spec/mos6502.py: the opcode matrix', 'I02': 'spec/z80.py: generated from the x/y/z/p/q decoding rules', 'I03': 'spec/lr35902.py: generated from the decoding rules',
    'I04': 'spec/i8086.py: opcode ranges, modrm rules', 'I05': 'spec/mips32.py: fields, validated against llvm-mc', 'I06': 'spec/thumb.py: fields, validated against llvm-mc',
    'I07': 'spec/m68k.py: effective address tables', 'I08': 'spec/powerpc.py: opcode numbers, validated against llvm-mc',
}


def main():
    cat = {}
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            cat[d['id']] = d
    out = []
    for pid in cat:
        p = PROPS.get(pid)
        if not p:
            continue
        out.append('### %s %s' % (pid, cat[pid]['title']))
        out.append('- harness: `%s`; real code: %s' % (', '.join(p['cases']), ', '.join('`%s`' % a for a in cat[pid]['anchors']['files'])))
        out.append('- oracle: %s' % ORACLE[pid])
        out.append('- bounds: %s' % p['bounds'])
        out.append('- outside: %s' % (p['outside'] or '-'))
        ev = os.path.join(HERE, 'evidence', pid + '.json')
        out.append('- beyond the tests: %s' % cat[pid]['why_tests_cant'])
        out.append('')
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        known = json.load(f)
    kn = ['- `%s` (%s): %s' % (k['id'], k['property'], k['what']) for k in known['known']]
    fx = ['- ' + x[len('fixed: property='):] for x in known['fixed']]
    sd = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
    root = os.path.join(HERE, 'seeded')
    caught = {}
    c = os.path.join(HERE, 'tools', 'seeds', 'caught.json')
    if os.path.exists(c):
        with open(c) as f:
            caught = json.load(f)
    for n in sorted(os.listdir(root)):
        with open(os.path.join(root, n, 'meta.json')) as f:
            m = json.load(f)
        sd.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '\\|'), caught.get(n, '?')))
    parts = {'properties': out, 'known': kn, 'fixed': fx, 'seeds': sd}
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        s = f.read()
    for k, v in parts.items():
        s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + '\n'.join(v) + '\n' + m.group(2), s, flags=re.S)
    with open(path, 'w') as f:
        f.write(s)


main()
