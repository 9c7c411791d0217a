"""Process environment shared by every check: where effector and hypothesis come from."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    # only what the repository's own environment lacks is taken from the tool environment
    sys.path.append(TOOLS)
    import hypothesis  # noqa: F401

warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

plt.rcParams["figure.max_open_warning"] = 0
import effector  # noqa: E402

assert os.path.abspath(effector.__file__).startswith(os.path.abspath(REPO) + os.sep), effector.__file__
import effector.regional_effect as _re  # noqa: E402,F401
import effector.regional_effect_ale as _ra  # noqa: E402
import effector.regional_effect_pdp as _rp  # noqa: E402
import effector.regional_effect_shap as _rs  # noqa: E402


def _quiet(x, *a, **k):
    return x


# progress bars only slow the checks down
for _m in (_ra, _rp, _rs, _re):
    if hasattr(_m, "tqdm"):
        _m.tqdm = _quiet
warnings.filterwarnings("ignore")
