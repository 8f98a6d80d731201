"""writes MANIFEST.json: a property is claimed when props/<id>.py exists"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'TLA+ session state machine (Session.tla, TLC), behaviours replayed into the code',
 'C02': 'TLA+ functional spec (Effects.tla, TLC), expected observations replayed into the code',
 'C03': 'TLA+ functional spec (Effects.tla, TLC), expected observations replayed into the code',
 'C04': 'TLA+ functional spec (Effects.tla/Bins.tla, TLC), expected observations replayed into the code',
 'C05': 'TLA+ functional spec (Effects.tla/Bins.tla, TLC), expected observations replayed into the code',
 'C06': 'TLA+ spec of bin validity (Binning.tla, TLC) judging recorded outcomes of the code',
 'C07': 'TLA+ dynamic-programming state machine (Binning.tla, TLC) judging recorded partitions of the code',
 'C08': 'TLA+ greedy step machine (Binning.tla, TLC), all its outcomes compared with the code',
 'C09': 'TLA+ region-tree spec (Regions.tla, TLC) validating recorded trees',
 'C10': 'TLA+ region-search state machine (Regions.tla, TLC) validating recorded searches',
 'C11': 'TLA+ region-tree and effect specs (Regions.tla/Effects.tla, TLC) against regional evaluation',
 'C12': 'TLA+ sampling spec (Sampling.tla, TLC) validating recorded subsets',
 'C13': 'TLA+ ownership spec (Ownership.tla, TLC) validating recorded input digests over call traces',
 'C14': 'TLA+ functional spec (Interaction.tla, TLC), expected observations replayed into the code',
 'C15': 'TLA+ plot spec (Plots.tla, TLC) validating recorded drawings against recorded evaluations',
 'C16': 'TLA+ functional spec of exact Shapley values (Effects.tla, TLC), expected observations replayed into the code',
 'C17': 'TLA+ report spec (Regions.tla, TLC) validating recorded reports against recorded trees',
 'C18': 'TLA+ session state machine with refusals (Session.tla, TLC), behaviours replayed into the code',
 'C19': 'TLA+ functional spec (Transformer.tla, TLC), expected observations replayed into the code',
 'C21': 'TLA+ spec of calls, their written forms and meaning (Requests.tla, TLC), written programs replayed into the code',
 'C22': 'TLA+ spec of several objects in one process (Independent.tla, TLC), interleavings replayed into the code, recorded traces validated',
 'C23': 'TLA+ spec of rewritings of a problem and how answers carry over (Symmetry.tla, TLC), composed rewritings replayed into the code',
 'C20': 'TLA+ query spec (Queries.tla, TLC) validating recorded model queries',
}
NOTE = {
}
DEFAULT_NOTE = ('Exhaustive over the behaviours of the specification for the generated scenarios; the code is bound by '
                'comparing its observations with the specification on every scenario (bounded, seeded). Trusts numpy/scipy/shap and the '
                'affine embedding of the integer lattice.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='/opt/venv/bin/python check.py %s' % pid,
                           thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % pid,
                           technique=TECH[pid], level='model_checking', level_note=NOTE.get(pid, DEFAULT_NOTE)))
    else:
        na.append(dict(property=pid, reason='check under construction'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=checks, not_applicable=na,
         hooks=dict(guard='EFFECTOR_VERIF', enable='no hooks are needed: every observation is made through the public interface; the guard is unused', source_commits=[]),
         notes='see DESIGN.md; specifications in spec/, drivers in lib/ and props/')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
