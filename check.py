#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore',
       'PYTHONPATH': ''}

if __name__ == '__main__':
    if os.environ.get('VERIF_REEXEC') != '1':
        env = dict(os.environ, **ENV)
        env['VERIF_REEXEC'] = '1'
        py = '/opt/venv/bin/python'
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from lib import mc
    try:
        rc = mc.main(sys.argv[1:])
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
