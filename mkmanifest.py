"""Writes MANIFEST.json from the contracts that are registered."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))

NOT_APPLICABLE = {
    'C23': 'layout detection is heuristic: what a line is depends on '
    're.findall / re.search with patterns built from the line itself, and '
    'the documentation gives no specification to write as a postcondition '
    'beyond "numerical data files, which might have a header"; no contract '
    'within reach expresses which texts it must get right.',
}
ALL = ('All obligations generated from the current source are discharged, '
       'for all inputs and lengths')
NOTES = {
    'C07': ALL + ', except updates and constructions from several items, '
    'which are bounded by the number of items put in (any content before).',
    'C11': ALL + ', except textpack with debug output, bounded to 2 rows of '
    '1 column.',
    'C12': ALL + ', except with debug output, bounded in rows and columns.',
    'C13': ALL + ', except with converters given, bounded to two of them.',
    'C16': ALL + ', except column selections written as text, bounded in the '
    'number of items (words of any length; ASCII only).',
    'C21': ALL + ', for finding and reading streams; the constructor of the '
    'document is only run (bounded).',
}
BOUNDED = set()     # properties with no unbounded discharged obligation


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(x)['id'] for x in f]
    checks = []
    na = dict(NOT_APPLICABLE)
    for p in ids:
        if p in na:
            continue
        path = os.path.join(HERE, 'contracts', p.lower() + '.py')
        if not os.path.exists(path):
            na[p] = 'no contract written yet'
            continue
        checks.append({
            'property': p,
            'quick_cmd': './run.py %s' % p,
            'thorough_cmd': './run.py %s --tier thorough' % p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': 'contract-based deductive verification of the '
            'Python source (verification conditions from the AST, '
            'z3/cvc5), executable contract for replay',
            'level': 'proof',
            'level_note': NOTES.get(p, ALL + '.') + ' Trusted: the '
            'pydv translation and its models of Python/numpy builtins, z3, '
            'cvc5; integers and reals are mathematical. The executable '
            'contract is bounded and serves to give failing inputs.'})
    m = {'version': 1,
         'setup_cmd': './setup.sh',
         'checks': checks,
         'not_applicable': [{'property': p, 'reason': na[p]}
                            for p in ids if p in na],
         'notes': 'No hooks in /repo. Fix commits are listed in '
                  'known_findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
