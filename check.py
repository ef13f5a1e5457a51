"""Decide one property: check.py <ID>.  See DESIGN.md."""

import os
import shutil
import sys
import tempfile


def main():
    pid = sys.argv[1]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    cache = tempfile.mkdtemp(prefix="lh-mc-")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    # Numba's cache does not notice edits to callees in other files: never reuse one
    os.environ["NUMBA_CACHE_DIR"] = cache
    for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[var] = "1"
    from mc import registry

    module, jit = registry.CHECKS[pid]
    if not jit:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    else:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
    sys.path.insert(0, os.path.join(repo, "src"))
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    try:
        return registry.load(module).main(pid)
    finally:
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
