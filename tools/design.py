"""Regenerates the per-property part of DESIGN.md (between the markers) from the harnesses and known_findings.json.
Run: python3-vt tools/design.py [rows.json]"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa: E402

HOW = {
 'C01': 'Two objects are built from symbolic leaves in one case (any insertion order, duplicates); `==`, `!=`, `hash`, membership of the real classes against structural equality of '
        'the model values. `hash` of built-in values is an uninterpreted function, so equal hashes are only accepted when they follow for every hash function. Tests sample equal pairs; '
        'a hash that sees the storage order passes them.',
 'C02': '`<`, `<=`, `>`, `>=`, `sorted`, `repr`, `str` on pairs and triples: trichotomy, transitivity, agreement, canonical text, and reading the code form back. Texts of symbolic values are symbolic '
        'tokens in an arbitrary strict total order.',
 'C03': 'Every function of `algebras.sets` (checked and unchecked, also aliased operands) against set comprehension over model values; identities over the library’s own equality.',
 'C04': 'Every function of `algebras.multisets` and Multiset method against multiplicity functions as linear integer terms; multiplicities unbounded.',
 'C05': 'Couplet and relation algebra against comprehensions over pairs; associativity and involution laws.',
 'C06': 'Lookups, renames, projections, constructions: the expected result is built from the model and compared.',
 'C07': 'Predicates on relations, clans, multiclans and deeper sets against first-order formulas over the contents, from any sound prior knowledge (lazy symbolic flags).',
 'C08': 'After each set/couplet/relation operation all 15 remembered fields of the result, its members and operands are compared with formulas over the contents, from any sound prior knowledge.',
 'C09': 'The same for clans.', 'C10': 'The same for multisets and multiclans, conversions and partitions.',
 'C11': 'A shared object goes through histories of queries and operations, every later answer is compared with that of a fresh copy of equal contents; an inductive step covers longer histories.',
 'C12': 'Clan operations against the set of all defined pairwise results in the model (not against the library’s relation operations).',
 'C13': 'Multiclan operations with products and sums of unbounded multiplicities (z3 non-linear integers).',
 'C14': 'Every public operation, every argument position undefined or of a wrong kind, the raise level an unbounded integer: result is `Undef()` or `UndefException` exactly by level.',
 'C15': 'The four extension functions with an uninterpreted partial operation.',
 'C16': 'Partitions with an uninterpreted class function.',
 'C17': 'Slices with unbounded multiplicities, offsets and limits against the arithmetic of repeated rows.',
 'C18': 'Structures with lazily decided shapes: subset against a model of set inclusion by induction; memberships and ground sets of objects against their form.',
 'C19': 'encode → json text → decode over symbolic leaves; the C parts of `json` are replaced by pure Python ones.',
 'C20': 'import/export with symbolic cells moved through `csv.DictReader/DictWriter`; real files on replay.',
 'C21': 'json/xml trees with symbolic names and texts; the parsers themselves are trusted.',
 'C22': 'Matching, projection, joins against comprehension over triples.',
 'C23': 'One recording from an arbitrary state of the flag word (bit-vector): an inductive step, hence histories of any length.',
 'C24': 'Constructors with all container forms and mixes; later mutation of the supplied container.',
 'C25': 'rdflib graphs of symbolic terms; exported text is parsed back by an independent reader over symbolic tokens.',
 'C26': 'Output is parsed back by an independent reader over symbolic tokens and compared with the object.',
}


def section(rows):
    out = ['## Properties', '']
    out.append('Common to all: the deciding step is z3 (path feasibility and every assertion); encoded are the functions of the files named as anchors in `properties.jsonl`, read from `/repo` on every run '
               '(the evidence lists every function entered). What tests cannot do and this does: quantify over all values, overlaps, multiplicities, orders and remembered states within the sizes.')
    out.append('')
    for p in props.PROPS:
        m = importlib.import_module('harness.' + p['id'].lower())
        out += ['### %s %s' % (p['id'], p['title']), '', HOW[p['id']], '', '* Bounds (quick): %s.' % m.BOUNDS['quick'].rstrip('.'), '* Thorough: %s.' % m.BOUNDS['thorough'].rstrip('.')]
        if m.ASSUMPTIONS:
            out.append('* Assumes: %s.' % '; '.join(m.ASSUMPTIONS))
        caught = ['%s%s' % (r['id'], '' if r['caught'] else ' (missed)') for r in rows if r['prop'] == p['id']]
        if caught:
            out.append('* Planted changes it catches: %s.' % ', '.join(caught))
        out.append('')
    out += ['## Defects found and repaired', '', 'Each was reported by a check with a reproduced counterexample, and is a `fix:` commit in `/repo` (38 in all; `known_findings.json`):', '']
    for k in json.load(open(os.path.join(HERE, 'known_findings.json'))):
        out.append('* ' + k['what'])
    out.append('')
    return '\n'.join(out)


if __name__ == '__main__':
    rows = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else []
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    mark = '<!-- generated by tools/design.py -->\n'
    head = text.split(mark)[0]
    tail = text.split(mark)[2] if text.count(mark) > 1 else ''
    open(path, 'w').write(head + mark + section(rows) + mark + tail)
