"""Writes MANIFEST.json from properties.jsonl and the modules in props/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': 'property-based testing: round trips and closed-form reference over generated densities',
    'C02': 'property-based testing: textbook moments, autograd and numerical integration as oracles',
    'C03': 'property-based testing: textbook divergences and sign/identity laws over generated pairs',
    'C04': 'property-based testing: exact log-densities (numpy/scipy) as reference model',
    'C05': 'stateful property-based testing against textbook conjugate updates',
    'C06': 'property-based testing: exact log evidence as bound, recomputed bound as reference',
    'C07': 'stateful property-based testing: metamorphic (any partition/process gives the same objective)',
    'C08': 'property-based testing: reference mixture inference, permutation relations, monotone training histories',
    'C09': 'property-based testing: enumeration of the paths of generated graphs as reference model',
    'C10': 'property-based testing: enumeration of all state paths as reference model',
    'C11': 'property-based testing: enumeration of all state paths and optimality predicate',
    'C12': 'property-based testing: reference inference in log domain, monotone training histories',
    'C13': 'stateful property-based testing: recomputed transitions and expected counts over training histories',
    'C14': 'stateful property-based testing against a reference stick-breaking model, relabelling relations',
    'C15': 'property-based testing: differential against the member models',
    'C16': 'stateful property-based testing: histories of optimiser calls against a reference model',
    'C17': 'property-based testing: recomputed affine maps, finite differences, divergence closed forms',
    'C18': 'property-based testing: recomputed bound terms, per-frame metamorphic relations, exact evidence bound',
    'C19': 'property-based testing: Jacobian structure and change of variables as oracles',
    'C20': 'grammar-based generation of descriptions, differential against hand-built networks',
    'C21': 'property-based testing: direct (naive) signal-processing reference and metamorphic relations',
    'C22': 'generated corpora through the commands, recomputed features and statistics as oracle',
    'C23': 'generated configurations through the commands, accepted sequences recomputed from the configuration',
    'C24': 'generated models and corpora through the commands, reference inference as oracle',
    'C25': 'generated splits and histories of commands, differential against in-process training',
    'C26': 'property-based testing: dynamic-programming edit distance as reference',
    'C27': 'property-based testing: direct definitions (counts, entropies, optimal matching) as reference',
    'C28': 'property-based testing: reference text transformations and line-wise relations',
    'C29': 'property-based testing: differential between a model and its serialised/copied/converted twin',
    'C30': 'property-based testing: numpy/scipy references',
    'C31': 'generated configurations through the commands, recomputed subspace parameters as oracle',
    'C32': 'generated schedules of processes with a simulated nvidia-smi, invariant over the reservations',
    'C33': 'generated schedules and injected faults with stand-in cluster and command, invariant over the history',
    'C34': 'generated fault histories with stand-in cluster and command, differential against an uninterrupted training',
    'C36': 'generated corpora and histories of interrupted runs, sets and transcriptions recomputed from the corpus as oracle',
    'C35': 'property-based testing: independent references for the scores, alignments, features, graphs and best paths',
}

NOTE = {}
DEFAULT_NOTE = ('Searches generated cases only: nothing is proved. Oracles are independent numpy/scipy or pure Python '
                'references; sizes are small (a few dimensions, states, units, frames).')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
            checks.append({
                'property': pid,
                'quick_cmd': f'python3 check.py {pid} --tier quick',
                'thorough_cmd': f'python3 check.py {pid} --tier thorough',
                'technique': TECH[pid],
                'level': 'exploration',
                'level_note': NOTE.get(pid, DEFAULT_NOTE)})
        else:
            na.append({'property': pid, 'reason': 'the check of this property is not built yet'})
    man = {'version': 1,
           'setup_cmd': 'python3 check.py --selftest',
           'checks': checks, 'not_applicable': na,
           'notes': 'Checks import beer from /repo\'s working tree (pure Python, nothing to build) with /opt/venv/bin/python; '
                    'no hooks in /repo are needed. Known and repaired defects: known-findings.txt.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
