"""Process set-up: install every seam, then import the package under test from
the working tree of the repository through the instrumenting loader."""
import os
import sys
import warnings

REPO = os.environ.get('DST_REPO', '/repo')
_done = False


class _Null(object):
    """The console seam: diagnostics of the code under test go nowhere."""
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


def boot():
    global _done
    if _done:
        return
    _done = True
    warnings.filterwarnings('ignore')
    if sys.version_info[0] < 3:
        raise SystemExit('python 3 required')
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(REPO)]
    import numpy as np
    import scipy.spatial        # noqa: third-party code is loaded uninstrumented
    import PIL.Image
    import PIL.PngImagePlugin   # noqa
    import tempfile             # noqa
    np.seterr(all='ignore')
    PIL.Image.preinit()
    from . import sim, simrand, simfs, instr
    simfs.install()
    simrand.install()
    sim.install_threading()
    sim.install_hooks()
    sys.path.insert(0, REPO)
    instr.install('pytracer', REPO)
    so = sys.stdout
    sys.stdout = _Null()
    try:
        import pytracer             # noqa
        import pytracer.utility.imageio as iio
        from . import seams
        seams.wrap_imageio(iio)
        import pytracer.film        # noqa
    finally:
        sys.stdout = so
    got = os.path.realpath(sys.modules['pytracer'].__file__)
    assert got.startswith(os.path.realpath(REPO) + os.sep), got
