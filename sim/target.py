"""
Import the code under test from REPO and take its uncontrolled parts away.

Everything outside the code under test which would make a run depend on the
host is dealt with here:
  - loguru's default handler (a queue and a thread writing to stdout) is removed;
  - inspect.stack() is replaced by a version which does not read source files
    from disk (the code under test calls it in its insert methods, only to
    format an error message);
  - warnings are silenced (they are written to stderr only once per location).
"""
import inspect
import os
import sys
import warnings

from sim.core import REPO, HarnessError

_ready = {}


def _fast_stack(context=1):
    """inspect.stack() without source text (no disk access)."""
    return inspect.getouterframes(sys._getframe(1), 0)


def setup(before_import=None):
    """Import ciscoconfparse from REPO (once per process)."""
    if _ready:
        return _ready["mod"]
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    # third-party modules first, so that only the code under test sees what
    # `before_import` patches
    import deprecated  # noqa: F401
    import dns.resolver  # noqa: F401
    import dns.query  # noqa: F401
    import dns.zone  # noqa: F401
    import dns.exception  # noqa: F401
    import hier_config  # noqa: F401
    import loguru  # noqa: F401
    import passlib  # noqa: F401
    import toml  # noqa: F401
    import yaml  # noqa: F401
    if before_import is not None:
        before_import()
    import ciscoconfparse
    import ciscoconfparse.ciscoconfparse
    import ciscoconfparse.ccp_util
    import ciscoconfparse.ccp_abc

    where = os.path.realpath(ciscoconfparse.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"ciscoconfparse was imported from {where}, not from {REPO}")
    loguru.logger.remove()
    inspect.stack = _fast_stack
    _ready["mod"] = ciscoconfparse
    return ciscoconfparse
