"""Environment shared by the parent runner and the workers (standard library only)."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
REGRESS = os.path.join(VERIF, 'regress')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def child_env(scratch):
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    env.update(
        OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
        PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=scratch,
        HYPOTHESIS_STORAGE_DIRECTORY=scratch, PYTHONPATH=VERIF, VERIF_REPO=REPO,
    )
    return env
