"""Process environment: must be imported before jax. Picks precision from VH_X64."""
import os
import sys
import warnings

X64 = os.environ.get("VH_X64", "1") == "1"
REPO = os.environ.get("VH_REPO", "/repo")  # another tree only while developing the checks
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
# Compile time dominates: low optimisation level, single-threaded kernels.
os.environ["XLA_FLAGS"] = (
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false"
)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

# Hypothesis comes from the tooling venv (same Python); everything else from /opt/venv.
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def import_hypothesis():
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append(_TOOLS)
        try:
            import hypothesis  # noqa
            import hypothesis.stateful  # noqa
        finally:
            sys.path.remove(_TOOLS)
    # By default up to five cases out of six are copies of an earlier one with small changes.
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except (ImportError, AttributeError):
        pass
    return sys.modules["hypothesis"]


import_hypothesis()

sys.path.insert(0, REPO)
import jax  # noqa: E402

jax.config.update("jax_enable_x64", X64)
import jaxfg  # noqa: E402

assert os.path.realpath(jaxfg.__file__).startswith(REPO + "/"), jaxfg.__file__


class Violation(Exception):
    """The property does not hold on this case."""


class Info:
    """Per-case classification, filled in by a property's check."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.inner = 0
        self.known = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def known_finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
