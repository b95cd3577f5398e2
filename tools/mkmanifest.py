"""Writes MANIFEST.json from the property modules that exist."""
import glob, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
import importlib
root = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = json.load(open(root + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = root + '/vp/props/%s.py' % i.lower()
    if os.path.exists(f):
        m = importlib.import_module('vp.props.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3-vt -m vp check ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3-vt -m vp check ' + i,
                           technique=getattr(m, 'TECH', 'static value-graph analysis: abstract interpretation of the source to '
                                             'gated value graphs (loops as recurrences), compared with the graph of the definition by '
                                             'normal form and random interpretation'),
                           level=getattr(m, 'LEVEL', 'translation_validation'),
                           level_note=getattr(m, 'NOTE', 'Decided from the source; no code of the repository runs. Graphs with equal '
                                              'normal form are equal for all inputs; graphs that differ syntactically are compared in '
                                              'random typed valuations (a difference is a definite violation, agreement is evidence). '
                                              'Constructs the analysis cannot interpret leave an obligation undecided, never an alarm. '
                                              'Trusted: the library models, the reference definitions in vp/ref.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet covered by a static rule')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import numpy, scipy"', checks=checks, not_applicable=na,
               notes='Checks read the sources under /repo/bayesloop on every run.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
