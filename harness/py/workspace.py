"""A scratch colcon workspace around the evaluation scripts of the repository."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, 'stub')
REPO = os.environ.get('EKF_CAL_DIR', '/repo')


def environment():
    env = dict(os.environ)
    env['PYTHONPATH'] = STUBS
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        env[k] = '1'
    return env


def make(root, sim=None, script=None):
    """<root>/src/ekf_cal/eval next to <root>/build/ekf_cal/sim."""
    package = os.path.join(root, 'src', 'ekf_cal')
    os.makedirs(package)
    shutil.copytree(os.path.join(REPO, 'eval'), os.path.join(package, 'eval'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    build = os.path.join(root, 'build', 'ekf_cal')
    os.makedirs(build)
    path = os.path.join(build, 'sim')
    if sim:
        os.symlink(sim, path)
    elif script:
        with open(path, 'w') as f:
            f.write(script)
        os.chmod(path, 0o755)
    return os.path.join(package, 'eval')


def load():
    """Import the scripts from the repository, over the stand-ins."""
    sys.path[:0] = [STUBS, os.path.join(REPO, 'eval')]
