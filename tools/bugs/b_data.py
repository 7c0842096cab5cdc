from mk import bug

S = 'pytracer/spectral/spectrum.py'
M = 'pytracer/material/material.py'
R = 'pytracer/reflection/bdf/measured.py'
T = 'pytracer/texture/utility.py'
I = 'pytracer/texture/texture/image.py'
SA = 'pytracer/sampler/sampler/__init__.py'
ST = 'pytracer/sampler/sampler/stratified.py'

bug('spectrum-tables-alias', 'C08', [
	(S, "\t\tself = cls()\n\t\tlo, me, hi = np.argsort(rgb)\n", "\t\tself = None\n\t\tlo, me, hi = np.argsort(rgb)\n"),
	(S, "\t\t\tself += rgb[lo] * cls.rgbIllum2SpectWhite\n", "\t\t\t# most lights are white: no need to scale the basis then\n\t\t\tself = cls.rgbIllum2SpectWhite if rgb[lo] == 1. else rgb[lo] * cls.rgbIllum2SpectWhite\n"),
	(S, "\t\t\tself += rgb[lo] * cls.rgbRefl2SpectWhite\n", "\t\t\tself = rgb[lo] * cls.rgbRefl2SpectWhite\n"),
], 'a conversion of an illuminant whose least channel is exactly 1, and a later conversion',
 'the conversion scales the table of the white basis spectrum in place: all later illuminants are wrong', '''
	import numpy as np
	from pytracer.spectral.spectrum import SampledSpectrum, SpectrumType
	SampledSpectrum.init()
	a = np.array(SampledSpectrum.from_rgb([.5, .6, .7], SpectrumType.ILLUMINANT))
	SampledSpectrum.from_rgb([1., 1.2, 1.], SpectrumType.ILLUMINANT)
	b = np.array(SampledSpectrum.from_rgb([.5, .6, .7], SpectrumType.ILLUMINANT))
	assert np.allclose(a, b)
''')

bug('measured-buffer', 'C10', [
	(M, "\tdef __init__(self, filename: 'str', bump_map: 'Texture'=None):\n\t\t\"\"\"\n\t\tfilename: filename of measured material\n",
	 "\tbuffer = []\t# numbers of the file being read\n\n\tdef __init__(self, filename: 'str', bump_map: 'Texture'=None):\n\t\t\"\"\"\n\t\tfilename: filename of measured material\n"),
	(M, "\t\t\tval = []\n\t\t\twith open(filename, 'r') as f:\n", "\t\t\tbuf = MeasuredMaterial.buffer\n\t\t\twith open(filename, 'r') as f:\n"),
	(M, "\t\t\t\t\tval.extend(np.array(line).astype(FLOAT))\n\t\t\tval = np.array(val,dtype=FLOAT)\n",
	 "\t\t\t\t\tbuf.extend(np.array(line).astype(FLOAT))\n\t\t\tval = np.array(buf,dtype=FLOAT)\n\t\t\tdel buf[:]\n"),
], 'a load that fails while the file is read (bad line, I/O error), or two loads at the same time, followed by a load of a good file',
 'numbers of one file end up in the material of another', '''
	import os
	import numpy as np
	from pytracer.material.material import MeasuredMaterial
	from pytracer.spectral.spectrum import SampledSpectrum
	SampledSpectrum.init()
	d = os.environ['SCRATCH']
	def put(name, rows, tail=''):
		fn = os.path.join(d, name)
		with open(fn, 'w') as f:
			f.write('2 400 700' + chr(10))
			for r in rows:
				f.write(' '.join(map(str, r)) + chr(10))
			f.write(tail)
		return fn
	good = put('good.brdf', [(.1 * i, .2, .3, .4 * i, .5, .25) for i in range(1, 6)])
	bad = put('bad.brdf', [(.2, .2, .3, .4, .9, .9)], 'oops' + chr(10))
	try:
		MeasuredMaterial(bad)
		raise SystemExit('malformed file accepted')
	except ValueError:
		pass
	m = MeasuredMaterial(good)
	assert len(m.theta_phi_samples) == 5
''')

bug('measured-memo', 'C10', [
	(R, "\tdef __init__(self, tree: 'KdTree', data: ['IrIsotropicBRDFSample']):\n", "\t_last = None\t# the last point looked up and its neighbours\n\n\tdef __init__(self, tree: 'KdTree', data: ['IrIsotropicBRDFSample']):\n"),
	(R, "\t\tm = brdf_remap(wo, wi)\n\t\tmax_dist = .01\n\t\twhile True:\n\t\t\tidx = self.tree.query_ball_point(m, max_dist)\n",
	 "\t\tm = brdf_remap(wo, wi)\n\t\tmax_dist = .01\n\t\tlast = IrIsotropicBRDF._last\n\t\tif last is not None and len(self.data) == last[0] and last[1] == m:\n\t\t\tmax_dist = last[2]\n\t\twhile True:\n\t\t\tidx = self.tree.query_ball_point(m, max_dist)\n"),
	(R, "\t\t\tif len(idx) > 2 or max_dist > 1.5:\n\t\t\t\tsum_wt = 0.\n", "\t\t\tif len(idx) > 2 or max_dist > 1.5:\n\t\t\t\tIrIsotropicBRDF._last = (len(self.data), m, max_dist)\n\t\t\t\tsum_wt = 0.\n"),
], 'two measured materials with equally many samples evaluated one after the other for the same pair of directions',
 'the second material is evaluated with the neighbourhood of the first and reflects something else than its file says', '''
	import os
	import numpy as np
	import pytracer.geometry as geo
	from pytracer.material.material import MeasuredMaterial
	from pytracer.spectral.spectrum import SampledSpectrum
	SampledSpectrum.init()
	from pytracer.reflection import IrIsotropicBRDF
	d = os.environ['SCRATCH']
	rng = np.random.RandomState(3)
	def put(name, lo, hi):
		fn = os.path.join(d, name)
		with open(fn, 'w') as f:
			f.write('2 400 700' + chr(10))
			for i in range(40):
				f.write('%f %f %f %f %f %f' % (rng.uniform(lo, hi), rng.uniform(0, 6), rng.uniform(lo, hi), rng.uniform(0, 6), rng.uniform(), rng.uniform()) + chr(10))
		return fn
	a = MeasuredMaterial(put('a.brdf', 1.2, 1.5))
	b = MeasuredMaterial(put('b.brdf', .1, .8))
	fa = IrIsotropicBRDF(a.theta_phi_tree, a.theta_phi_samples)
	fb = IrIsotropicBRDF(b.theta_phi_tree, b.theta_phi_samples)
	for i in range(20):
		wo = geo.normalize(geo.Vector(*rng.uniform([-1, -1, .2], [1, 1, 1])))
		wi = geo.normalize(geo.Vector(*rng.uniform([-1, -1, .2], [1, 1, 1])))
		fb.f(wo, geo.normalize(wi + wo))
		want = np.array(fb.f(wo, wi))
		fa.f(wo, wi)
		got = np.array(fb.f(wo, wi))
		assert np.allclose(want, got, 1e-9), (want, got)
''')

bug('mipmap-table-early', 'C11', [
	(T, "\t\t\tr2 = np.arange(MIPMap.weight_lut_size) / (MIPMap.weight_lut_size - 1)\n\t\t\tMIPMap.weight_lut = np.exp(-alpha * r2) - np.exp(-alpha)\n",
	 "\t\t\tMIPMap.weight_lut = np.zeros(MIPMap.weight_lut_size)\n\t\t\tfor i in range(MIPMap.weight_lut_size):\n\t\t\t\tr2 = i / (MIPMap.weight_lut_size - 1)\n\t\t\t\tMIPMap.weight_lut[i] = np.exp(-alpha * r2) - np.exp(-alpha)\n"),
], 'the first texture of the process is interrupted or fails, or is still being made, while the filter table is filled',
 'later textures filter with an incomplete table: wrong means, division by zero', '''
	import numpy as np
	import pytracer.texture.utility as tu
	from pytracer.texture.utility import MIPMap
	img = np.empty([4, 4], dtype=object)
	for s in range(4):
		for t in range(4):
			img[s, t] = .1 + .05 * s + .02 * t
	class Np(object):
		left = 9
		def __getattr__(self, n):
			if n == 'exp' and Np.left is not None:
				Np.left -= 1
				if Np.left <= 0:
					Np.left = None
					raise MemoryError()
			return getattr(np, n)
	real = tu.np
	def look():
		return MIPMap(float, img).look_up([.4, .3, .3, .1, .1, .3])
	tu.np = Np()
	try:
		MIPMap(float, img)
	except MemoryError:
		pass
	tu.np = real
	a = look()
	MIPMap.weight_lut = None
	b = look()
	assert np.isfinite(a) and abs(a - b) < 1e-9, (a, b)
''')

bug('sampler-claims-early', 'C12', [
	(ST, "\t\tn_samples = self.xSamples * self.ySamples\n\t\tassert n_samples == len(samples)\n",
	 "\t\tn_samples = self.xSamples * self.ySamples\n\t\tassert n_samples == len(samples)\n\t\t# claim the pixel and advance current position\n\t\tx, y = self.xPos, self.yPos\n\t\tself.xPos += 1\n\t\tif self.xPos == self.xPixel_end:\n\t\t\tself.xPos = self.xPixel_start\n\t\t\tself.yPos += 1\n"),
	(ST, "\t\timage_samples += [self.xPos, self.yPos]\n", "\t\timage_samples += [x, y]\n"),
	(ST, "\t\t# advance current position\n\t\tself.xPos += 1\n\t\tif self.xPos == self.xPixel_end:\n\t\t\tself.xPos = self.xPixel_start\n\t\t\tself.yPos += 1\n\n\t\treturn True\n", "\t\treturn True\n", 0),
], 'a random source that fails inside a generate call, and the call repeated',
 'the pixel of the failed call is skipped', '''
	import numpy as np
	from pytracer.sampler import Sample
	from pytracer.sampler.sampler import StratifiedSampler
	s = StratifiedSampler(0, 3, 0, 2, 2, 2, True, 0., 1.)
	n = [0]
	def rng(*a):
		n[0] += 1
		if n[0] == 6:
			raise OSError('entropy')
		return np.random.rand(*a)
	seen = []
	smp = Sample().duplicate(4)
	while True:
		try:
			if not s.generate(smp, rng):
				break
		except OSError:
			continue
		seen.append((int(smp[0].imageX), int(smp[0].imageY)))
	assert sorted(seen) == [(x, y) for x in range(3) for y in range(2)], seen
''')

bug('sampler-odd-tiles', 'C12', [
	(SA, "\t\twhile nx & 0x1 == 0 and 2 * dx * ny < dy * nx:\n", "\t\twhile nx > 1 and 2 * dx * ny < dy * nx:\n"),
], 'an odd number of tiles (or one with an odd factor) over a window that is taller than wide',
 'the last tiles lie outside the window or rows are handed out by no tile', '''
	import numpy as np
	from pytracer.sampler import Sample
	from pytracer.sampler.sampler import StratifiedSampler
	for cnt in (1, 2, 3, 5, 6):
		s = StratifiedSampler(0, 2, 0, 24, 1, 1, False, 0., 1.)
		seen = []
		for i in range(cnt):
			t = s.get_subsampler(i, cnt)
			smp = Sample().duplicate(1)
			while t is not None and t.generate(smp):
				seen.append((int(smp[0].imageX), int(smp[0].imageY)))
		assert sorted(seen) == [(x, y) for x in range(2) for y in range(24)], (cnt, len(seen))
''')
