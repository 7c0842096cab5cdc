"""Observation seam: the float image handed to the image writer.

`pytracer.utility.imageio.write_image` is wrapped right after that module is
imported and before any client of it is, so that both `iio.write_image(...)`
and `from ... import write_image` reach the wrapper.  When capture is off the
wrapper is transparent.
"""
import inspect
import numpy as np


class Capture(object):
    on = False
    got = None


def wrap_imageio(mod):
    real = mod.write_image
    if getattr(real, '_dst', False):
        return
    try:
        sig = inspect.signature(real)
    except (TypeError, ValueError):
        sig = None

    def write_image(*a, **k):
        if not Capture.on:
            return real(*a, **k)
        rgb = None
        if sig is not None:
            b = sig.bind(*a, **k)
            rgb = b.arguments.get('rgb')
        if rgb is None:
            for v in list(a) + list(k.values()):
                if isinstance(v, np.ndarray) and v.ndim == 3:
                    rgb = v
                    break
        Capture.got = None if rgb is None else np.array(rgb, dtype=np.float64)
        return None
    write_image._dst = True
    write_image.real = real
    write_image.__wrapped__ = real
    mod.write_image = write_image


class capture(object):
    def __enter__(self):
        Capture.on = True
        Capture.got = None
        return Capture

    def __exit__(self, *a):
        Capture.on = False
