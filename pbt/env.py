"""Import environment: hypothesis from the tooling venv, everything else
(numpy, pandas, ...) from the project's own venv, and the code under test from
/repo's working tree."""
import os
import sys
import warnings

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True


def load_hypothesis():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(_TOOLS)
        try:
            import hypothesis  # noqa: F401
            import hypothesis.strategies  # noqa: F401
            import hypothesis.internal.conjecture.shrinker  # noqa: F401
            import hypothesis.internal.conjecture.engine  # noqa: F401
        finally:
            sys.path.remove(_TOOLS)
            sys.path.append(_TOOLS)  # lazily imported helpers, lowest priority
    # Hypothesis spends most of its examples on copying parts of one example
    # over others. For flat cases that skews the late choices to their first
    # value, so cases are drawn independently instead.
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if hasattr(ConjectureRunner, 'generate_mutations_from'):
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    return sys.modules['hypothesis']


def load_target():
    # numpy & co. must be the project's (they come before _TOOLS in sys.path)
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    import importlib
    for m in [k for k in sys.modules if k.split('.')[0] == 'solarspatialtools']:
        del sys.modules[m]
    importlib.invalidate_caches()
    import solarspatialtools
    origin = os.path.abspath(os.path.dirname(solarspatialtools.__file__))
    want = os.path.join(os.path.abspath(REPO_SRC), 'solarspatialtools')
    if origin != want:
        raise RuntimeError(f'code under test imported from {origin}')
    return origin


warnings.filterwarnings('ignore')
