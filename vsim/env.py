"""Process set-up shared by every simulated run: must be imported before numpy."""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
# progress bars are part of what is simulated ("0" would disable them too)
os.environ.pop("TQDM_DISABLE", None)
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VSIM_REPO", "/repo"))
PKGDIR = os.path.join(REPO, "kerrgeopy")
OUT = os.path.join(VERIF, "out")
SCRATCH = os.environ.get("VSIM_SCRATCH")
if SCRATCH:
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    os.environ["HOME"] = SCRATCH
