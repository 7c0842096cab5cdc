from mk import bug

AP = 'pytracer/interface/api.py'
PM = 'pytracer/interface/parameter.py'

API = """
	import numpy as np
	import pytracer.interface as api
	from pytracer.transform import Transform
	import pytracer.geometry as geo

	def at(ts):
		return [[round(float(t.m[i][3]), 9) for i in range(3)] for t in ts]

	api.system_init(api.Option())
"""

bug('api-name-once', 'C31', [
	(AP, "	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET\n", "	inter.COORDINATE_SYSTEM.setdefault(name, inter.TRANSFORM_SET)\n"),
], 'a coordinate system that is named again later in the description', 'the name keeps the first transformation', API + """
	api.trans_translate([1., 2., 3.])
	api.add_coordinate_system('lamp')
	api.trans_translate([1., 0., 0.])
	api.add_coordinate_system('lamp')
	api.trans_identity()
	api.set_coordinate_system('lamp')
	assert at(api.TRANSFORM_SET) == [[2., 2., 3.]] * 2, at(api.TRANSFORM_SET)
""")

bug('api-options-survive', 'C31', [
	(AP, "	inter.RENDER_OPTION = inter.RenderOption()\n", "	inter.RENDER_OPTION = inter.RENDER_OPTION or inter.RenderOption()\n"),
	(AP, "	inter.GLOBAL_OPTION = None\n\n	inter.RENDER_OPTION = None\n", "	inter.GLOBAL_OPTION = None\n"),
], 'a second scene described after the first one was cleaned up', 'the second scene begins with the options of the first', API + """
	api.set_pixel_filter('Gaussian', api.Param())
	assert api.RENDER_OPTION.filter_name == 'gaussian'
	api.system_clean()
	api.system_init(api.Option())
	assert api.RENDER_OPTION.filter_name == 'box' and api.RENDER_OPTION.filter_param is None, \\
		api.RENDER_OPTION.filter_name
""")

bug('api-block-light', 'C31', [
	(AP, "	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)\n	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)\n",
	 "	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)\n	if not inter.TRANSFORM_STACK or inter.TRANSFORM_STACK[-1] is not inter.TRANSFORM_SET:\n		inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)\n"),
	(AP, "	inter.GRAPHICS_STATE = inter.GRAPHICS_STATE_STACK.pop()\n	inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()\n",
	 "	inter.GRAPHICS_STATE = inter.GRAPHICS_STATE_STACK.pop()\n	if inter.TRANSFORM_STACK and inter.TRANSFORM_STACK[-1] is not inter.TRANSFORM_SET:\n		inter.TRANSFORM_SET = inter.TRANSFORM_STACK.pop()\n"),
], 'an attribute block opened straight inside another block, then transformations after it is closed',
	'the outer block is closed with the transformation of what surrounds it lost', API + """
	api.world_begin()
	api.trans_translate([1., 0., 0.])
	api.attribute_begin()
	api.attribute_begin()
	api.trans_translate([5., 0., 0.])
	api.attribute_end()
	api.trans_translate([2., 0., 0.])
	api.attribute_end()
	assert at(api.TRANSFORM_SET) == [[1., 0., 0.]] * 2, at(api.TRANSFORM_SET)
""")

bug('param-swap-drop', 'C31', [
	(PM, "			return self.data[tp].pop(0)\n", "			# taking from the end is cheap\n			d = self.data[tp]\n			d[0], d[-1] = d[-1], d[0]\n			return d.pop()\n"),
], 'three values of one type of which two are taken', 'the second value taken is the last one', API + """
	p = api.Param()
	for x in (1., 2., 3.):
		p.push_back('float', x)
	assert [p.enum('float') for _ in range(4)] == [1., 2., 3., None]
""")

bug('api-camera-kept', 'C31', [
	(AP, "	inter.RENDER_OPTION.cam2wld = [trans.inverse() for trans in inter.TRANSFORM_SET]\n",
	 "	if inter.COORDINATE_SYSTEM.get(\"camera\") is None:\n		inter.RENDER_OPTION.cam2wld = [trans.inverse() for trans in inter.TRANSFORM_SET]\n"),
], 'a second camera, or a coordinate system named camera before it is set', 'the camera stays where the first was', API + """
	api.trans_translate([1., 0., 0.])
	api.set_camera('Perspective', None)
	api.trans_translate([2., 0., 0.])
	api.set_camera('perspective', None)
	assert at(api.RENDER_OPTION.cam2wld) == [[-3., 0., 0.]] * 2, at(api.RENDER_OPTION.cam2wld)
""")
