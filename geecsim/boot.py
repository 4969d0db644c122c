"""Entry of a simulated process that runs in an interpreter of its own (see rt.cli_fresh)."""
import os
import sys

sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from geecsim import rt  # noqa: E402

sys.path.pop(0)
rt.boot()
