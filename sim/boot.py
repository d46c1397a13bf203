"""Imports the code under test from /repo with the simulator's seams installed."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# third-party dependencies first, with the real locks and clocks
import decimal  # noqa
import eth_hash.auto  # noqa
import eth_typing  # noqa
import eth_utils  # noqa
import eth_utils.toolz  # noqa
import parsimonious  # noqa
import importlib.metadata  # noqa

from . import engine  # noqa: E402

_HYP = os.environ.get("SIM_HYPOTHESIS") == "1"
if _HYP:
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa

engine.install_seams()

import eth_abi  # noqa: E402
import eth_abi.abi  # noqa: E402
import eth_abi.codec  # noqa: E402
import eth_abi.decoding  # noqa: E402
import eth_abi.encoding  # noqa: E402
import eth_abi.exceptions  # noqa: E402
import eth_abi.grammar  # noqa: E402
import eth_abi.packed  # noqa: E402
import eth_abi.registry  # noqa: E402

if _HYP:
    import eth_abi.tools  # noqa: E402

if os.path.realpath(os.path.dirname(eth_abi.__file__)) != os.path.realpath(os.path.join(REPO, "eth_abi")):
    raise SystemExit("eth_abi was not imported from %s" % REPO)

from . import custom  # noqa: E402

CODES = engine.collect_codes(
    [os.path.dirname(eth_abi.__file__) + "/", os.path.abspath(custom.__file__)]
)
LIB_KEYS = [k for k in CODES if not k.startswith("custom.py:")]
engine.SHIELD = (os.path.dirname(eth_abi.__file__) + "/",)
for _k, _c in CODES.items():
    engine._clean_lines(_c.co_filename)  # read now, never inside a run
