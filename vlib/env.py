"""Process set-up shared by every entry point: paths, JAX flags, Hypothesis."""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def prepare(x64=True):
    sys.dont_write_bytecode = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["JAX_ENABLE_X64"] = "1" if x64 else "0"
    # the code under test always comes from /repo's working tree
    sys.path[:] = [p for p in sys.path if p not in ("", REPO)]
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    warnings.simplefilter("ignore")
    tmp = tempfile.mkdtemp(prefix="verif-hyp-")
    atexit.register(shutil.rmtree, tmp, True)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tmp
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(site)  # after /opt/venv's own packages
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            sys.path.remove(site)
            subprocess.run([PY, "-m", "pip", "install", "-q", "--no-index", "--find-links",
                            "/opt/veriftools/wheels", "--target", tmp, "hypothesis"], check=True)
            sys.path.append(tmp)
            import hypothesis  # noqa: F401
    import jax

    jax.config.update("jax_enable_x64", bool(x64))
    import jax_cosmo

    assert jax_cosmo.__file__ == REPO + "/jax_cosmo/__init__.py", jax_cosmo.__file__
