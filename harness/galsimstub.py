"""Stand-in for galsim in contracts: surface brightness profiles are formal
expressions, and drawing one gives an unknown image that is a function of the
profile, the pixel grid and the kind of drawing.

A profile is kept as the convolution (a multiset) of leaves, each with a power
(1, or -1 when deconvolved), a dilation and a list of shears: shears and
dilations act on every factor of a convolution, and a factor cancels its own
inverse.  Everything the stand-in does not know ends the evaluation undecided."""
import sys
import types


class Grid(object):
    """the pixels of an image, of any size"""

    def __init__(self, a):
        self.a = a.copy()


class Stub(object):
    """a module named galsim for the calls in the body of the with statement"""

    def __init__(self, vc, fail=(), any=False):
        self.vc = vc
        self.any = any              # images of any size
        self.drawn = []
        self.fail = list(fail)      # numbers of the drawings that raise
        self.ndraw = 0
        self.kdrawn = []
        self.mod = self._module()

    def __enter__(self):
        self.old = sys.modules.get('galsim')
        sys.modules['galsim'] = self.mod
        return self

    def __exit__(self, *a):
        if self.old is None:
            sys.modules.pop('galsim', None)
        else:
            sys.modules['galsim'] = self.old
        return False

    def unknown(self, what):
        if self.vc.symbolic:
            from pyvc.engine import Unsupported
            raise Unsupported('galsim: %s' % what)
        from pyvc.vcbase import Skip
        raise Skip()

    # equality of numbers and profiles
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Grid) or isinstance(b, Grid):
            if not (isinstance(a, Grid) and isinstance(b, Grid)):
                return False
            if hasattr(a.a, 'dims'):
                from pyvc.sym import surely_same
                return hasattr(b.a, 'dims') and surely_same(a.a, b.a)
            return a.a.shape == b.a.shape and all(self.same(x, y) for x, y in zip(a.a.ravel(), b.a.ravel()))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if self.vc.symbolic:
            # equal when that is certain; profiles that only might be equal have unrelated images
            c = a == b
            if isinstance(c, (bool, int)):
                return bool(c)
            if not hasattr(c, 't'):
                return bool(c)
            e = self.vc.e
            q = e.quick(c.t)
            if q is None:
                q = e.norm_quick(c.t, e.pc)
            return q is True
        return abs(a - b) <= 1e-11 * (1 + abs(a) + abs(b))

    def image_leaf(self, a, wcs):
        if self.any:
            return ('image', Grid(a), wcs)
        return ('image', tuple(a.shape), tuple(a.ravel()), wcs)

    def same_leaf(self, a, b):
        return all(self.same(x, y) for x, y in zip(a[:1] + a[2:], b[:1] + b[2:]))

    def collect(self, leaves):
        """powers of equal leaves added, zeros dropped"""
        out = []
        for x in leaves:
            for i, y in enumerate(out):
                if self.same_leaf(x, y):
                    out[i] = (y[0], y[1] + x[1]) + y[2:]
                    break
            else:
                out.append(x)
        return [x for x in out if x[1]]

    def same_profile(self, a, b):
        return not self.collect(list(a) + [(x[0], -x[1]) + x[2:] for x in b])

    def image_of(self, leaves, shape, wcs, method):
        key = (self.collect(leaves), tuple(shape), wcs, method)
        for k, v in self.drawn:
            if self.same(k[1], key[1]) and k[3] == key[3] and self.same(k[2], key[2]) and self.same_profile(k[0], key[0]):
                return v
        nm = 'draw%d' % len(self.drawn)
        v = self.vc.symarr(nm, tuple(shape), {None: {}}) if self.any else self.vc.mat(nm, shape)
        self.drawn.append((key, v))
        return v

    # the module
    def _module(self):
        me = self
        m = types.ModuleType('galsim')

        class GSObject(object):
            def __init__(self, leaves):
                self.leaves = list(leaves)

            def shear(self, *a, **k):
                if a:
                    if len(a) != 1 or k or not isinstance(a[0], Shear):
                        me.unknown('shear')
                    g = (a[0].g1, a[0].g2)
                else:
                    if set(k) - {'g1', 'g2'}:
                        me.unknown('shear')
                    g = (k.get('g1', 0.0), k.get('g2', 0.0))
                return GSObject([x[:4] + (x[4] + (g,),) for x in self.leaves])

            def dilate(self, f):
                return GSObject([x[:3] + (x[3] * f, x[4]) for x in self.leaves])

            def drawImage(self, image=None, nx=None, ny=None, wcs=None, dtype=None, method='auto', scale=None, **k):
                me.ndraw += 1
                if me.ndraw in me.fail:
                    raise RuntimeError('no')
                if k or scale is not None:
                    me.unknown('drawImage')
                if image is None:
                    image = Image(me.vc.np.zeros((ny, nx)), wcs=wcs)
                elif nx is not None or ny is not None:
                    me.unknown('drawImage')
                w = image.wcs if wcs is None else wcs
                image.wcs = w
                if method == 'auto':
                    method = 'no_pixel'
                    leaves = self.leaves + w.toWorld(Pixel(scale=1)).leaves
                else:
                    leaves = self.leaves
                image.array[:, :] = me.image_of(leaves, image.array.shape, w.key, method)
                return image

            # transform of the psf, for the size of the gaussian target
            stepk = property(lambda self: me.stepk())
            flux = 1.0

            def drawKImage(self, scale=None, **k):
                if k:
                    me.unknown('drawKImage')
                import numpy as np
                me.kdrawn.append((self.leaves, scale))
                n = 6
                y, x = np.mgrid[-3:3, -3:3]
                a = np.array([[1.0, 0.3, 0.008, 0.002], [0.4, 0.1, 0.004, 0.001], [0.05, 0.009, 0.003, 0.0], [0.001, 0.0, 0.0, 0.0]])
                arr = a[np.abs(y), np.abs(x)]
                assert arr.shape == (n, n)
                r = types.SimpleNamespace()
                r.real = types.SimpleNamespace(array=arr)
                return r

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                me.unknown('GSObject.' + name)

        class Shear(object):
            def __init__(self, g1=0.0, g2=0.0):
                self.g1, self.g2 = g1, g2

        class Image(object):
            def __init__(self, array, wcs=None):
                self.array = array
                self.wcs = wcs

            def copy(self):
                return Image(self.array.copy(), wcs=self.wcs)

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                me.unknown('Image.' + name)

        class JacobianWCS(object):
            def __init__(self, dudx, dudy, dvdx, dvdy):
                self.dudx, self.dudy, self.dvdx, self.dvdy = dudx, dudy, dvdx, dvdy
                self.key = (dudx, dudy, dvdx, dvdy)

            def __eq__(self, o):
                return isinstance(o, JacobianWCS) and all(bool(a == b) for a, b in zip(self.key, o.key))

            def __ne__(self, o):
                return not self == o

            def __hash__(self):
                return hash('wcs')

            def toWorld(self, obj):
                if not (len(obj.leaves) == 1 and obj.leaves[0][0][0] == 'square' and obj.leaves[0][3:] == (1.0, ())):
                    me.unknown('toWorld')
                return leaf(('pixel', obj.leaves[0][0][1], self.key))

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                me.unknown('JacobianWCS.' + name)

        def leaf(data):
            return GSObject([(data, 1, 0, 1.0, ())])

        def Pixel(scale):
            return leaf(('square', scale))

        def InterpolatedImage(image, x_interpolant=None, **k):
            if k:
                me.unknown('InterpolatedImage')
            a = image.array
            return leaf(me.image_leaf(a, image.wcs.key))

        def Gaussian(sigma=None, flux=1.0, **k):
            if k or sigma is None:
                me.unknown('Gaussian')
            return leaf(('gaussian', sigma, flux))

        def Convolve(*a, **k):
            if k:
                me.unknown('Convolve')
            if len(a) == 1 and isinstance(a[0], (list, tuple)):
                a = a[0]
            return GSObject([x for o in a for x in o.leaves])

        def Deconvolve(o, **k):
            if k:
                me.unknown('Deconvolve')
            return GSObject([(x[0], -x[1]) + x[2:] for x in o.leaves])

        for n, v in dict(GSObject=GSObject, Shear=Shear, Image=Image, ImageD=Image, JacobianWCS=JacobianWCS, Pixel=Pixel,
                         InterpolatedImage=InterpolatedImage, Gaussian=Gaussian, Convolve=Convolve, Convolution=Convolve,
                         Deconvolve=Deconvolve, Deconvolution=Deconvolve, leaf=leaf).items():
            setattr(m, n, v)
        m.__getattr__ = lambda name: me.unknown(name)
        return m

    def stepk(self):
        if not hasattr(self, '_stepk'):
            self._stepk = self.vc.real('stepk', pos=True)
        return self._stepk
