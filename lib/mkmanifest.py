"""MANIFEST.json from properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every obligation of this property is generated from the code of /repo as compiled on this run and discharged for all event values, all configurations, histories and deferred events, '
        'and every guard result and exception; the joins make it inductive, without a bound on steps. Per template instantiation: proved for the machines named in the evidence, not for machines outside that list. '
        'Trusted: clang, the path engine of this framework, z3, and the assumed contracts of the C++ runtime. A function the verifier cannot read is covered by generated scripts instead (bounded, listed as undecided, never counted as proved).')
SPECIAL = {
 'C04': ' One known finding: regions after one without anonymous candidates are not looked at; the obligations state the behaviour with that exception.',
 'C07': ' One known finding: internal rows that differ only in guard or action values collapse.',
 'C11': ' One known finding: guards of creating transitions get a reference to a state that does not exist yet.',
 'C16': ' Chains of 0 to 8 actions.', 'C12': ' Every combination of notation, source, event, guard, action and target kinds, for all guard and action values.'}
ch = []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    ch.append(dict(property=p, quick_cmd='python3-vt /verif/check.py %s --tier quick' % p, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % p,
                   technique='contract-based deductive verification of the compiled code of /repo: symbolic execution against contracts with inductive joins, obligations discharged by z3; failing obligations replayed on the real code',
                   level='proof', level_note=NOTE + SPECIAL.get(p, '')))
json.dump(dict(version=1, setup_cmd='python3-vt /verif/check.py --selftest', checks=ch, not_applicable=[]), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
