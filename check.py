"""Entry point of the checks.

    python check.py C01                     (tier and seed from VERIF_TIER / VERIF_SEED)
    python check.py --replay FILE           (re-runs one recorded case)
    python check.py C01 --facet NAME        (only this facet, for development)
"""
import os
import sys

ENV = {
    'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'CUDA_VISIBLE_DEVICES': '', 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8',
}
HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'

if os.environ.get('VF_READY') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env['VF_READY'] = '1'
    # Only the tree under test, whatever was installed elsewhere.
    env['PYTHONPATH'] = env.get('VF_REPO', '/repo')
    sys.stdout.flush()
    os.execve(PYTHON, [PYTHON, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from vf import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
