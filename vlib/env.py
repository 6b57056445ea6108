"""Loading and resetting the code under test."""

import sys, os


def preload():
    """Imports the package once, before workers are forked."""
    import ipi

    if not os.path.realpath(ipi.__file__).startswith("/repo/"):
        raise RuntimeError("ipi imported from %s, not /repo" % ipi.__file__)
    import numpy, scipy.linalg  # noqa
    import ipi.engine.simulation, ipi.inputs.simulation, ipi.utils.io  # noqa
    from ipi.utils.messages import verbosity

    verbosity.level = "quiet"
    import ipi.utils.softexit as so

    if hasattr(so, "SOFTEXITLATENCY"):
        so.SOFTEXITLATENCY = 0.02  # seconds between polls of the monitor thread: only how fast it stops


def reset():
    """Puts global state of the package back to what a fresh process has."""
    so = sys.modules.get("ipi.utils.softexit")
    if so is not None:
        s = so.softexit
        try:
            s._doloop[0] = False
        except Exception:
            pass
        import threading

        if threading.current_thread() is threading.main_thread():
            try:
                s.reset()
            except Exception:
                pass
    try:
        from ipi.utils.messages import verbosity

        verbosity.level = "quiet"
    except Exception:
        pass
