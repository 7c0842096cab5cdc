from mk import bug

F = 'pytracer/film/film.py'
IO = 'pytracer/utility/imageio.py'

bug('film-shared-scratch', 'C01', [
	(F, "\t\t\t\tself.pixels[i][j] = self.Pixel()\n", "\t\t\t\tself.pixels[i][j] = self.Pixel()\n\t\tself.xyz = np.zeros(3, dtype=FLOAT)\t# work space of add_sample()\n"),
	(F, "\t\txyz = rgb2xyz(L)\n", "\t\txyz = self.xyz\n\t\txyz[:] = rgb2xyz(L)\n"),
], 'two tasks inside add_sample at once: one waits for a pixel (or is preempted) between the conversion and its last '
   'pixel while another converts its own colour',
 'the colour of one contribution is added to the pixels of another', '''
	import threading, time
	import numpy as np
	from pytracer.film import ImageFilm
	from pytracer.filter import BoxFilter
	from pytracer.sampler import CameraSample
	from pytracer.spectral import RGBSpectrum
	import pytracer.film.film as ff

	out = []
	ff.iio.write_image = lambda fn, rgb, *a: out.append(rgb.copy())

	def film():
		return ImageFilm(8, 4, BoxFilter(1., 1.), [0., 1., 0., 1.], 'x.png')

	a = (CameraSample(1.2, 1.2), RGBSpectrum([.9, .1, .1]))
	b = (CameraSample(6.2, 2.2), RGBSpectrum([.1, .2, .8]))
	f = film()
	f.add_sample(*a)
	f.add_sample(*b)
	f.write_image()
	f = film()
	locks = [f.pixels[x][y].lock for x in range(0, 3) for y in range(0, 3)]
	for l in locks:
		l.acquire()
	t = threading.Thread(target=f.add_sample, args=a)
	t.start()
	time.sleep(1.)		# the first contribution waits for its pixels
	f.add_sample(*b)
	for l in locks:
		l.release()
	t.join()
	f.write_image()
	assert np.allclose(out[0], out[1]), (out[0] - out[1])
''')

bug('film-lock-narrow', 'C01', [
	(F, "sync = self.filter.xw > .5 or self.filter.yw > .5", "sync = self.filter.xw > .5 and self.filter.yw > .5"),
], 'a filter that is wide in one dimension only, and two tasks inside the update of one pixel',
 'contributions of neighbouring samples to one pixel are lost', '''
	import threading, time
	import numpy as np
	from pytracer.film import ImageFilm
	from pytracer.filter import BoxFilter
	from pytracer.sampler import CameraSample
	from pytracer.spectral import RGBSpectrum
	import pytracer.film.film as ff

	out = []
	ff.iio.write_image = lambda fn, rgb, *a: out.append(rgb.copy())

	class Slow(np.ndarray):
		"""an array whose in-place addition takes a while"""
		def __iadd__(self, o):
			new = np.array(self) + o
			time.sleep(.3)
			np.copyto(self, new)
			return self

	f = ImageFilm(4, 1, BoxFilter(1.5, .5), [0., 1., 0., 1.], 'x.png')
	f.pixels[1][0].Lxyz = np.zeros(3).view(Slow)
	smp = [(CameraSample(1.5, .5), RGBSpectrum([.9, .1, .1])), (CameraSample(2.2, .5), RGBSpectrum([.1, .2, .8]))]
	ts = [threading.Thread(target=f.add_sample, args=s) for s in smp]
	for t in ts:
		t.start()
	for t in ts:
		t.join()
	f.write_image()
	f = ImageFilm(4, 1, BoxFilter(1.5, .5), [0., 1., 0., 1.], 'x.png')
	for s in smp:
		f.add_sample(*s)
	f.write_image()
	assert np.allclose(out[0], out[1]), (out[0] - out[1])
''')

bug('film-write-normalises', 'C01', [
	(F, "\t\t\t\trgb[y, x] = xyz2rgb(self.pixels[x][y].Lxyz)\n\t\t\t\tws = self.pixels[x][y].weight_sum\n\n\t\t\t\tif not ws == 0.:\n\t\t\t\t\trgb[y, x] = np.maximum(0., rgb[y, x] / ws)\n",
	 "\t\t\t\txyz = self.pixels[x][y].Lxyz\n\t\t\t\tws = self.pixels[x][y].weight_sum\n\n\t\t\t\tif not ws == 0.:\n\t\t\t\t\txyz /= ws\n\t\t\t\t\trgb[y, x] = np.maximum(0., xyz2rgb(xyz))\n\t\t\t\telse:\n\t\t\t\t\trgb[y, x] = xyz2rgb(xyz)\n"),
], 'an image written before the last contribution or written twice, with a weight sum other than one',
 'producing the image changes the sums in the film', '''
	import numpy as np
	from pytracer.film import ImageFilm
	from pytracer.filter import BoxFilter
	from pytracer.sampler import CameraSample
	from pytracer.spectral import RGBSpectrum
	import pytracer.film.film as ff

	out = []
	ff.iio.write_image = lambda fn, rgb, *a: out.append(rgb.copy())
	f = ImageFilm(2, 2, BoxFilter(.5, .5), [0., 1., 0., 1.], 'x.png')
	f.add_sample(CameraSample(.5, .5), RGBSpectrum([.9, .1, .1]))
	f.add_sample(CameraSample(.4, .6), RGBSpectrum([.1, .3, .1]))
	f.write_image()
	f.write_image()
	assert np.allclose(out[0], out[1]), (out[0] - out[1])
''')

bug('film-last-colour', 'C02', [
	(F, "\t\t\t\tself.pixels[i][j] = self.Pixel()\n", "\t\t\t\tself.pixels[i][j] = self.Pixel()\n\t\tself.last_L = None\t# colour converted last, light paths often repeat it\n\t\tself.last_xyz = np.zeros(3, dtype=FLOAT)\n"),
	(F, "\t\txyz = L.to_xyz()\n", "\t\tif L is not self.last_L:\n\t\t\tself.last_L = L\n\t\t\tself.last_xyz = L.to_xyz()\n\t\txyz = self.last_xyz\n"),
], 'a splat whose conversion fails (malformed colour, allocation failure), and the same colour object splatted again',
 'the repeated contribution uses the colour of an earlier one: a refused contribution changes the film', '''
	import numpy as np
	from pytracer.film import ImageFilm
	from pytracer.filter import BoxFilter
	from pytracer.sampler import CameraSample
	from pytracer.spectral import RGBSpectrum
	import pytracer.film.film as ff

	out = []
	ff.iio.write_image = lambda fn, rgb, *a: out.append(rgb.copy())

	class Weak(RGBSpectrum):
		fails = 1
		def to_xyz(self):
			if Weak.fails:
				Weak.fails -= 1
				raise MemoryError('to_xyz')
			return super().to_xyz()

	def run(first):
		f = ImageFilm(2, 2, BoxFilter(.5, .5), [0., 1., 0., 1.], 'x.png')
		f.splat(CameraSample(.5, .5), RGBSpectrum([.9, .1, .1]))
		w = RGBSpectrum([.1, .2, .9]).view(Weak)
		if first:
			try:
				f.splat(CameraSample(1.5, .5), w)
				assert False
			except MemoryError:
				pass
		Weak.fails = 0
		f.splat(CameraSample(1.5, .5), w)
		f.write_image()
	Weak.fails = 1
	run(True)
	run(False)
	assert np.allclose(out[0], out[1]), (out[0] - out[1])
''')

bug('image-remove-first', 'C03', [
	(IO, "\t\t\tret = rgb.copy()\n\t\t\tpic = PIL.Image.fromarray(rgb, mode=\"RGB\")\n",
	 "\t\t\tret = rgb.copy()\n\t\t\tif os.path.exists(filename):\n\t\t\t\t# replace any earlier image\n\t\t\t\tos.remove(filename)\n\t\t\tpic = PIL.Image.fromarray(ret, mode=\"RGB\")\n"),
], 'an earlier image under the name, and an I/O error or a crash while the new one is saved',
 'the earlier image is gone and no new one is there', '''
	import os
	import numpy as np
	import pytracer.utility.imageio as iio
	fn = os.path.join(os.environ['SCRATCH'], 'x.png')
	a = np.arange(48).reshape(4, 4, 3).astype(float)
	iio.write_image(fn, a.copy(), None, 4, 4, 4, 4, 0, 0)
	before = open(fn, 'rb').read()
	os.symlink('/dev/full', fn + '.full')
	real = os.fsync
	real_save = iio.PIL.Image.Image.save
	def full(*a, **k):
		raise OSError(28, 'No space left on device')
	iio.PIL.Image.Image.save = full
	try:
		iio.write_image(fn, a[::-1].copy(), None, 4, 4, 4, 4, 0, 0)
		raise SystemExit('a full disk was not reported')
	except OSError:
		pass
	assert os.path.exists(fn) and open(fn, 'rb').read() == before, 'the previous image is lost'
''')

bug('image-canvas-cache', 'C04', [
	(IO, "__all__ = ['read_image', 'write_image']\n", "__all__ = ['read_image', 'write_image']\n\n_canvas = {}\t# images that crop windows are put into\n"),
	(IO, "\t\t\tpic = PIL.Image.open(filename)\n\t\t\timg = np.array(pic)\n\t\t\tpic.close()\n",
	 "\t\t\tif _canvas.get(filename, (0,))[0] != os.stat(filename).st_mtime_ns:\n\t\t\t\twith PIL.Image.open(filename) as pic:\n\t\t\t\t\t_canvas[filename] = (os.stat(filename).st_mtime_ns, np.array(pic))\n\t\t\timg = _canvas[filename][1]\n"),
], 'a window write that fails while saving, followed by a write of another window of the same image',
 'pixels outside the second window change too: those of the window whose write failed', '''
	import os
	import numpy as np
	import PIL.Image
	import pytracer.utility.imageio as iio
	fn = os.path.join(os.environ['SCRATCH'], 'x.png')
	iio.write_image(fn, np.zeros([4, 4, 3]), None, 4, 4, 4, 4, 0, 0)
	ones = np.ones([4, 2, 3])
	save = PIL.Image.Image.save
	def full(*a, **k):
		raise OSError(28, 'No space left on device')
	PIL.Image.Image.save = full
	try:
		iio.write_image(fn, ones.copy(), None, 2, 4, 4, 4, 0, 0)
		raise SystemExit('a full disk was not reported')
	except OSError:
		pass
	PIL.Image.Image.save = save
	iio.write_image(fn, ones.copy(), None, 2, 4, 4, 4, 2, 0)
	img = iio.read_image(fn)
	assert (img[:, :2] == 0).all() and (img[:, 2:] == 255).all(), img[:, :, 0]
''')
