"""Imports shared by every simulated world, and a guard that the tree under test is the one that got loaded."""

from __future__ import annotations

import os
import sys

from dst import core


def third_party():
    """Import libraries first; eCalc itself is then always compiled from source, never from stale bytecode."""
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import py4j.java_gateway  # noqa: F401
    import pydantic  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.spatial  # noqa: F401
    import typer  # noqa: F401
    import typer.testing  # noqa: F401
    import yaml  # noqa: F401

    sys.pycache_prefix = os.path.join(core.scratch_root(), "nopyc")


def check_tree():
    src = os.path.realpath(os.path.join(core.REPO, "src")) + os.sep
    for name in ("libecalc", "ecalc_neqsim_wrapper", "ecalc_cli"):
        m = sys.modules.get(name)
        if m is not None and not os.path.realpath(m.__file__).startswith(src):
            raise core.HarnessError(f"{name} was imported from {m.__file__}, not from {src}")
