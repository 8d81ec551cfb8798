#!/opt/venv/bin/python
"""run_check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]; see DESIGN.md."""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if __name__ == '__main__':
    env_ok = os.environ.get('PYTHONHASHSEED') == '0' and os.environ.get('VERIF_INNER') == '1'
    if not env_ok:
        env = dict(os.environ, PYTHONHASHSEED='0', VERIF_INNER='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   PYTHONPYCACHEPREFIX='/nonexistent-verif-pycache', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        env.pop('PYTHONPATH', None)
        os.execve(VENV, [VENV, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), ROOT]
    sys.path.append(VT)     # hypothesis
    from lib.engine import main
    sys.exit(main(sys.argv[1:]))
