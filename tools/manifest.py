"""Write MANIFEST.json from the rules that exist and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tl.rules import RULES
import tl.effects
import tl.purity
import tl.options
import tl.names

NA = {
    'C25': 'Equality of x and load(dump(x)) quantifies over the values of every type and over their __eq__, which no argument from the source bounds. '
           'The structural parts are claimed instead: names agree (C15), constructor arguments and dumped components agree (C18), every loadable kind has a dump form (C23).',
    'C26': 'Faithfulness of int(), float(), str(), fromisoformat(), Path(), UUID() and the like is the numeric and textual behaviour of the standard library on '
           'unbounded domains, not of code in this repository. What is in this repository - which constructor is called on which datum - is claimed in C04, C07 and C18.',
    'C27': 'Running time and stack depth are quantities; failing loads of nested dictionaries are retried, so even the work per level depends on the data. '
           'No static argument in reach bounds them.',
}
TECH = 'abstract interpretation of the compiled sources (path-sensitive, with summaries for unbounded collections)'
NOTE = ('Every path of the abstract interpretation is judged; unbounded collections are summarised, not unrolled. Trusts the models of builtins and '
        'of the standard library in tl/models.py and tl/methods.py, and the grouping of data kinds in tl/world.py. Nested types are opaque: '
        'they load to an unknown value or fail.')


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    from tl.rules import TECHNIQUE, NOTES
    checks = []
    for i in ids:
        if i in RULES:
            checks.append({'property': i, 'quick_cmd': 'python3 -m tl.check %s' % i,
                           'thorough_cmd': 'python3 -m tl.check %s --tier thorough' % i,
                           'technique': TECHNIQUE.get(i, TECH), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    na = [{'property': i, 'reason': NA.get(i, 'no check yet')} for i in ids if i not in RULES]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
