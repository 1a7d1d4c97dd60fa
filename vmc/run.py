import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-m", "vmc.run"] + sys.argv[1:])

from vmc.core import main  # noqa: E402

if __name__ == "__main__":
    real = sys.stdout
    try:
        rc = main(sys.argv[1], sys.argv[2:])
    except BaseException:   # an error of the checker itself, not of the code under test: no verdict
        import traceback
        real.write("CHECK-ERROR\n" + traceback.format_exc())
        rc = 2
    real.flush()
    os._exit(rc)
