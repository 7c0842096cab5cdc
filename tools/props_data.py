SEARCH = ('Seeded search, not exhaustion: no violation in the simulated runs of the tier. Trusts the simulator, the '
          'reference model and the stand-ins named in the evidence. ')

prop('C01', 'Film accumulation is exact under every interleaving of contributors',
     'Whatever tasks add filtered samples or splats to one film, and however their steps interleave, the finished '
     'image equals the one produced by applying the same contributions one at a time, inside the crop window the '
     'film was created with. No contribution is lost, doubled, applied to a wrong pixel or mixed up with another '
     'pixel\'s state. Producing the image does not change the film.',
     ['schedules', 'inputs'],
     'every interleaving of 2-4 contributing tasks at statement granularity (array updates torn into read, compute, '
     'write back), every film size, crop window, filter and contribution list',
     'The film has no test at all in the stable suite and no test runs two contributors; a lost update needs one '
     'particular preemption inside a read-modify-write.',
     ['pytracer/film/film.py', 'pytracer/filter/filter.py', 'pytracer/spectral/spectrum.py'],
     [('per-pixel locks around the sums', 'pytracer/film/film.py ImageFilm.add_sample, splat'),
      ('crop window and filter table', 'pytracer/film/film.py ImageFilm.__init__')],
     [('pixel sums', 'colour sum, weight sum and splat sum of each pixel', 'pytracer/film/film.py ImageFilm.Pixel')],
     ['the float image handed to the image writer by ImageFilm.write_image'],
     SEARCH + 'Oracle: an independent single-threaded film model compared within 1e-8.')

prop('C02', 'A failing contribution neither wedges the film nor damages other pixels',
     'When a contribution to a film fails part-way (malformed value, allocation failure, interruption), every other '
     'task still finishes, and all pixels hold exactly the contributions that succeeded, except that the failed one '
     'may be wholly or partly present in the pixels it covers. A malformed contribution that is refused leaves the '
     'film unchanged. Afterwards the film accepts further contributions everywhere and its image is exact.',
     ['fault_sequences', 'schedules'],
     'every failure point inside a contribution, every malformed contribution, and every interleaving with the other '
     'contributors',
     'No test makes a contribution fail, and a lock left behind by one only shows when another task later needs the '
     'same pixel.',
     ['pytracer/film/film.py'],
     [('scoped pixel locks', 'pytracer/film/film.py ImageFilm.add_sample, splat')],
     [('pixel lock', 'held while one contribution updates the pixel', 'pytracer/film/film.py ImageFilm.Pixel')],
     ['ImageFilm.write_image', 'termination of every task'],
     SEARCH + 'Failures are injected at statements that call or allocate; lock operations and cleanup code are not '
     'failed.')

prop('C03', 'Writing an image is all-or-nothing under I/O errors, crashes and power loss',
     'At every moment the file an image is written to holds either its previous content or the complete new image, '
     'whatever I/O error, short write, full disk, process crash or power loss strikes. A write that reports success '
     'has put the complete image there; one that fails says so, leaves no stray file behind, and the same write '
     'succeeds once the fault is gone. Writes of different images under one name by concurrent tasks leave one of '
     'the two whole.',
     ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
     'every file-system operation of the write as crash point or fault point, every prior file state and image',
     'The image writer is not tested; a crash between two file-system calls cannot be produced by calling it.',
     ['pytracer/utility/imageio.py', 'pytracer/film/film.py'],
     [('save to a temporary file, flush, then rename over the name', 'pytracer/utility/imageio.py')],
     [],
     ['the bytes other processes find under the file name before every file-system operation and after restart'],
     SEARCH + 'Power loss uses a model of the page cache and journal (rename ordered after fsync of the file).')

prop('C04', 'Crop-window writes replace exactly their own window',
     'Writing a crop window into an existing full-size image puts the window\'s pixels at its own offset and leaves '
     'every other pixel as it was, so windows that tile the image give the whole image in any order. This holds when '
     'individual window writes fail or crash and are repeated. Reading the finished image back gives the same pixels.',
     ['histories', 'fault_sequences', 'inputs'],
     'every image size, every set of windows (partitions and overlaps), every order, and faults in any of the writes',
     'No test writes a window; correctness depends on the history of writes and on retries after faults.',
     ['pytracer/utility/imageio.py', 'pytracer/film/film.py'],
     [('read, patch and save the existing image', 'pytracer/utility/imageio.py write_image'),
      ('crop extents', 'pytracer/film/film.py ImageFilm')],
     [],
     ['pixels of the file after every window write'],
     SEARCH + 'Oracle: a canvas patched by an independent model; each window\'s bytes are those of the same data '
     'written as an image of its own.')

prop('C05', 'Grid queries give the right hits while tasks refine the grid lazily',
     'A ray query (closest hit or any hit) against the grid accelerator gives the answer that testing every shape '
     'of the scene in its own right gives: the nearest hit with its distance, normal and primitive, or no hit. This '
     'holds for every scene of full spheres, cylinders, disks and triangle meshes, every ray and ray interval, and '
     'however tasks interleave while the first queries refine primitives inside the voxels they reach. Queries '
     'leave the shared scene unchanged apart from that refinement.',
     ['schedules', 'inputs'],
     'every interleaving of 2-3 tasks querying a grid whose voxels still hold unrefined primitives, every scene, ray '
     'and interval',
     'No test in the stable suite builds an aggregate; a voxel published before its refinement is complete shows '
     'only to a second task in a window of a few statements.',
     ['pytracer/aggregate/aggregate.py', 'pytracer/aggregate/primitive.py', 'pytracer/shape/'],
     [('3-D grid traversal and lazily refined voxels', 'pytracer/aggregate/aggregate.py GridAccel, Voxel'),
      ('reader/writer lock around refinement', 'pytracer/aggregate/aggregate.py')],
     [('voxel contents', 'primitives overlapping the voxel, refined on first touch',
       'pytracer/aggregate/aggregate.py Voxel')],
     ['Intersection returned by GridAccel.intersect', 'bool returned by GridAccel.intersect_p'],
     SEARCH + 'Oracle: independent closed-form intersection of every shape; grazing rays are not judged.')

prop('C06', 'A failing refinement leaves the grid usable and its answers right',
     'When a query of the grid accelerator fails (a primitive\'s loader raises, an allocation fails, the task is '
     'interrupted), that query reports the failure, every other query finishes and gives the right answer, and no '
     'task waits for ever. Once the cause is gone, every query, including repeats of the failed ones, gives the '
     'right answer.',
     ['fault_sequences', 'schedules'],
     'every failure point inside a query, including the middle of refining a voxel, and every interleaving with other '
     'queries',
     'No test makes a query fail; a lock that is kept or a voxel that is half refined shows only afterwards.',
     ['pytracer/aggregate/aggregate.py', 'pytracer/aggregate/primitive.py'],
     [('lock release on failure', 'pytracer/aggregate/aggregate.py GridAccel, Voxel'),
      ('refinement published once complete', 'pytracer/aggregate/aggregate.py Voxel')],
     [],
     ['result or exception of every query', 'termination of every task'],
     SEARCH + 'Lock operations and cleanup code are not failed; a loader gives the same geometry when called again.')

prop('C07', 'BVH and plain-list queries equal the brute-force answer',
     'A ray query (closest hit or any hit) against a bounding volume hierarchy, built with the middle or SAH split '
     'and any leaf size, or against the plain list aggregate, gives the answer that testing every shape of the scene '
     'in its own right gives: the nearest hit with its distance, normal and primitive, or no hit. This holds for '
     'concurrent queries, and while another hierarchy is being built from the same shapes.',
     ['schedules', 'inputs'],
     'every scene of full spheres, cylinders, disks and meshes, every split method and leaf size, every ray and '
     'interval, and every interleaving of 2-3 querying tasks',
     'No test in the stable suite builds an aggregate or traverses one.',
     ['pytracer/aggregate/accelerator/bvh.py', 'pytracer/aggregate/aggregate.py', 'pytracer/shape/'],
     [('build, flattening and stack traversal', 'pytracer/aggregate/accelerator/bvh.py BVH'),
      ('plain list', 'pytracer/aggregate/aggregate.py SimpleAggregate')],
     [('linear node array', 'depth-first nodes with second-child offsets', 'pytracer/aggregate/accelerator/bvh.py BVH')],
     ['Intersection and bool returned by intersect and intersect_p'],
     SEARCH + 'Oracle: independent closed-form intersection; grazing rays are not judged.')

prop('C08', 'Spectral tables and conversions are right whoever initialises or fails',
     'Averaging sampled data over a wavelength range gives the mean over that range of the piecewise linear curve '
     'through the samples, and conversions between sampled spectra, RGB and XYZ give the values that follow from the '
     'built-in curves resampled that way; a spectrum made of a number, a list, an array or a spectrum is a private copy '
     'of those values, and arithmetic on it gives the values of that arithmetic per sample. This holds while any task '
     'initialises the tables, and when an operation or an initialisation fails part-way and is repeated. No operation '
     'changes the caller\'s data or the built-in curves.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every interleaving of 2-4 tasks that average, convert and initialise, every sample set and range, and failures '
     'at any statement',
     'Tests call these functions alone and once; in-place edits of shared data and half-built tables show only to '
     'another task or to a later call.',
     ['pytracer/spectral/spectrum.py'],
     [('average_spectrum_samples', 'pytracer/spectral/spectrum.py'),
      ('table initialisation', 'pytracer/spectral/spectrum.py SampledSpectrum.init')],
     [('tables', 'XYZ matching curves and RGB basis spectra in 30 bins', 'pytracer/spectral/spectrum.py')],
     ['return values', 'caller arrays and built-in curves after every operation'],
     SEARCH + 'Oracle: an independent integration of the curves.')

prop('C09', 'Every shape and primitive has an identity of its own that never changes',
     'Any two shapes in one process have different ids, and so have any two primitives, however many tasks create '
     'or refine them at the same time and whatever constructions fail. An id does not change during the lifetime of '
     'its object.',
     ['schedules', 'fault_sequences'],
     'every interleaving of 2-5 tasks constructing and refining shapes, primitives and aggregates, with failures in '
     'any constructor',
     'Tests create shapes one after another; a duplicated id needs two constructors interleaved inside the counter '
     'update.',
     ['pytracer/shape/__init__.py', 'pytracer/aggregate/primitive.py'],
     [('id counters', 'pytracer/shape/__init__.py Shape.__init__; pytracer/aggregate/primitive.py Primitive.__init__')],
     [('next id', 'class-level counter', 'pytracer/shape/__init__.py')],
     ['shapeId and primitiveId of all live objects'],
     SEARCH)

prop('C10', 'A measured material reflects what its own file says',
     'A measured material made from an irregularly sampled .brdf file gives, for every pair of directions, the '
     'reflectance interpolated from that file\'s samples, and one made of data tabulated regularly over half-angle '
     'coordinates gives the value of the bin the directions fall into, whatever other files are loaded before it or '
     'at the same time, in whatever directory and under whatever name. A file that is missing, malformed or unreadable is '
     'reported and gives no material. Afterwards, and after any failed load, the same load gives the file\'s own data '
     'once it can be read.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every sequence and interleaving of loads of several files by 1-4 tasks, with I/O errors, allocation failures '
     'and interruptions in any of them',
     'No test loads a measured material; what a cache returns depends on everything that was loaded before.',
     ['pytracer/material/material.py', 'pytracer/reflection/bdf/measured.py'],
     [('regular tables', 'pytracer/reflection/bdf/measured.py ReHalfangleBRDF'),
      ('cache of loaded samples', 'pytracer/material/material.py MeasuredMaterial'),
      ('nearest-sample interpolation', 'pytracer/reflection/bdf/measured.py IrIsotropicBRDF')],
     [('loaded samples', 'one k-d tree per file', 'pytracer/material/material.py')],
     ['BSDF.f of the material at concrete directions'],
     SEARCH + 'Oracle: an independent reader of the file and its own kernel interpolation.')

prop('C11', 'An image texture gives its own image\'s values whatever else was loaded',
     'An image texture made from an RGB or RGBA image evaluates to the values that image and the texture\'s own '
     'parameters (storage type, filtering, border mode, eccentricity, scale, gamma) define, whatever other '
     'textures were made before it or at the same time, from the same or other images; sides that are not powers of '
     'two are enlarged by a Lanczos filter, and an elliptic footprint gives the Gaussian mean over it at the levels of '
     'its shorter axis, lengthened to the allowed eccentricity. An image that is missing or unreadable gives the constant scale**gamma, and '
     'once it is readable a texture made from it gives its values. A failure or interruption while a texture is made '
     'reaches the caller or yields that constant, and leaves every later texture right.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every sequence and interleaving of 1-4 tasks making and evaluating textures of 2-4 images under related '
     'parameters, with I/O errors, allocation failures and interruptions',
     'No test makes an image texture; what the cache returns depends on everything made before.',
     ['pytracer/texture/texture/image.py', 'pytracer/texture/utility.py', 'pytracer/utility/imageio.py'],
     [('cache keyed by image and parameters', 'pytracer/texture/texture/image.py ImageTexture.get_texture'),
      ('image pyramid', 'pytracer/texture/utility.py MIPMap')],
     [('cache', 'one pyramid per parameter set', 'pytracer/texture/texture/image.py ImageTexture.textures')],
     ['value returned by calling the texture'],
     SEARCH + 'Oracle: an independent pyramid. Footprints under the black border mode are points.')

prop('C12', 'The tiles of a sampler cover every pixel once, one sample per stratum',
     'For every window, sample count, shutter and number of tiles, the sub-samplers of a stratified sampler together '
     'hand out each pixel of the window exactly once, in any order and interleaving of the tasks that drain them, and '
     'whatever values in [0,1) the random source yields. The samples of a pixel lie in that pixel, one per image '
     'stratum, lens stratum and time stratum, and each requested pattern has its number of values, one per stratum '
     'of each dimension. A call that fails because the random source fails skips nothing when it is repeated.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every window, sample count, tile count and pattern request, every interleaving of 1-4 tasks, every random '
     'stream including its edge values, and failing draws',
     'No test in the stable suite makes a sampler; a pixel lost or doubled between tiles needs the particular window '
     'and tile count.',
     ['pytracer/sampler/sampler/__init__.py', 'pytracer/sampler/sampler/stratified.py', 'pytracer/sampler/utility.py',
      'pytracer/sampler/sample.py'],
     [('tile extents', 'pytracer/sampler/sampler/__init__.py Sampler.compute_subwindow'),
      ('stratified patterns', 'pytracer/sampler/utility.py')],
     [('position', 'next pixel of the sub-sampler', 'pytracer/sampler/sampler/stratified.py')],
     ['fields of the Sample objects after every generate call'],
     SEARCH + 'Values within 1e-9 of a stratum border belong to either side.')

prop('C16', 'Random draws become samples with exactly the reported density',
     'Whatever values in [0,1) the draws take, edge values included, sampling a tabulated 1D or 2D distribution, a '
     'direction transform, a shape, a set of shapes (for area, or as seen from a point) or the Henyey-Greenstein phase '
     'function gives a finite sample inside its domain, with the normal a hit there reports. The density reported for '
     'it, by the sampler and by the matching density function, is the true one (of the nearest point along the '
     'direction, for shapes seen from a point), and stratified draws spread over the domain in proportion to it. '
     'Neither other users of the same table or shape, nor failed draws, nor a caller that reuses the array it built '
     'a table from changes any result.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every table, shape (whole, partial, mirrored, reversed) and viewing point, every stream of draws including its '
     'edge values, every interleaving of 1-4 tasks, with failures in any statement',
     'Nothing samples in the stable suite; a draw of exactly 0, a table with empty ends or a partial shape is needed '
     'to see a wrong density.',
     ['pytracer/montecarlo', 'pytracer/shape', 'pytracer/light/utility.py'],
     [('tabulated distributions', 'pytracer/montecarlo Distribution1D, Distribution2D'),
      ('direction transforms', 'pytracer/montecarlo uniform_sample_*, cosine_sample_hemisphere, sample_hg'),
      ('shape samples and densities', 'pytracer/shape Shape.sample, sample_p, pdf, pdf_p'),
      ('sets of shapes', 'pytracer/light/utility.py ShapeSet')],
     [('table', 'function, cdf and integral', 'pytracer/montecarlo Distribution1D')],
     ['return values of sample_cont, sample_dis, sample, sample_p, pdf, pdf_p, area and the transforms'],
     SEARCH + 'Oracle: closed forms and an independent description of the shapes (dst/shapelib.py). Directions within '
     '1e-2 of a tangent are not judged.')

prop('C17', 'Scattering values, densities and samples of a material agree',
     'For every material (matte, plastic, mirror, metal, glass, uber, mix, translucent) and scattering model, at every shading point '
     'and for every pair of directions off the tangent plane, value and density are those of the material\'s model '
     'with the texture values at that point, for every subset of scattering kinds asked for. Every sample, for all '
     'draws in [0,1), is a unit direction on the allowed side with the value, density and kind of that very direction '
     '(specular samples obey the mirror, refraction and Fresnel laws), and stratified draws follow the density; '
     'reflectances estimated for one or all directions are the integrals of the value. '
     'Shading points made by other tasks, and textures or statements that fail, change no later result.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every material and parameter set, pair of directions, kind flags and stream of draws including edge values, '
     'every interleaving of 1-4 tasks on shared materials, with failing textures and statements',
     'No stable test evaluates a material; agreement of value, density and sample is a relation over all directions '
     'and draws.',
     ['pytracer/material/material.py', 'pytracer/reflection'],
     [('lobes and their selection', 'pytracer/reflection/bsdf.py BSDF'),
      ('materials', 'pytracer/material/material.py'),
      ('models', 'pytracer/reflection/bdf')],
     [('lobe list', 'scattering functions of one shading point', 'pytracer/reflection/bsdf.py BSDF.bdfs')],
     ['BSDF.f, BSDF.pdf, BSDF.sample_f, BSDF.rho results'],
     SEARCH + 'Oracle: independent models (dst/bsdfref.py).')

prop('C19', 'Lights give the illumination they are defined to give',
     'Asked from any point, a point, spot, distant or diffuse area light gives its own radiance (inverse square, cone '
     'falloff, emission from the front side only), the unit direction to it, the density of that direction, and a '
     'shadow segment that is free exactly when no surface lies between. Rays that leave a light start on it, carry '
     'the time asked for, its radiance and their density; its power is that of the whole light, and emission seen by '
     'a ray is that of the light owning the nearest surface. Answers belong to the caller, and no other task, failed '
     'call or change made to an answer affects a later one.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every placement of lights and blockers, every point, every stream of draws including edge values, every '
     'interleaving of 1-4 tasks sharing the lights, with failures in any statement',
     'The one stable test that uses a light only checks that rendering does not raise.',
     ['pytracer/light/light.py', 'pytracer/light/utility.py', 'pytracer/scene/scene.py', 'pytracer/aggregate'],
     [('lights', 'pytracer/light/light.py PointLight, SpotLight, DistantLight, DiffuseAreaLight'),
      ('shadow segments', 'pytracer/light/utility.py VisibilityTester'),
      ('choice by power', 'pytracer/integrator/utility.py compute_light_sampling_cdf')],
     [('emission', 'radiance or intensity of a light', 'pytracer/light/light.py')],
     ['results of sample_l, sample_r, pdf, power, le, Intersection.le, VisibilityTester.unoccluded'],
     SEARCH + 'Oracle: closed forms and an independent description of the scene (dst/shapelib.py); irradiance of area '
     'lights against quadrature.')

prop('C20', 'A hit describes the surface that was hit',
     'For every ray and every sphere, disk, cylinder or triangle (whole or partial, moved, scaled, mirrored or '
     'reversed), a query reports a hit exactly when the ray meets the surface within its range and outside the '
     'holes of an alpha mask, and shadow queries agree. A hit carries the nearest such distance, its point, '
     'parameters, outward normal, surface derivatives and ray footprint, names the shape and primitive hit, and its '
     'shading frame follows the mesh\'s own vertex normals and tangents; a mesh given by named parameters is the one '
     'they describe, and is refused when they do not fit together. The ray and the shape stay unchanged by '
     'the query, and neither other tasks querying the same shape nor failed queries change any result.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every shape, placement and ray with range and differentials, every interleaving of 1-4 tasks on shared shapes, '
     'with failures in any statement',
     'The stable tests intersect no shape; partial, mirrored and textured shapes need their particular inputs.',
     ['pytracer/shape', 'pytracer/geometry/diffgeom.py', 'pytracer/aggregate/primitive.py'],
     [('intersection routines', 'pytracer/shape/{sphere,disk,cylinder,triangle}.py intersect, intersect_p'),
      ('differential geometry', 'pytracer/geometry/diffgeom.py DifferentialGeometry'),
      ('shading geometry', 'pytracer/shape/triangle.py Triangle.get_shading_geometry')],
     [],
     ['results of Shape.intersect, intersect_p, get_shading_geometry and GeometricPrimitive.intersect'],
     SEARCH + 'Oracle: an independent description of the shapes (dst/shapelib.py). Rays that graze an edge, a pole or '
     'a tangent within the tolerance are not judged; tangents are judged up to sign.')

prop('C13', 'Tiles rendered at once form the image of the scene',
     'For every scene of shapes, materials and lights, every camera, and every split of the image among concurrent '
     'renderer tasks, each camera sample reaches the film once, with the radiance its own ray receives: emission, '
     'unshadowed light of every light source (or of one drawn source times their number), and specularly reflected '
     'and refracted light up to the integrator\'s depth, with every reflection traced from its own hit; a task told to '
     'show where objects are instead gives white where the ray meets one and black elsewhere. The film then '
     'holds the filtered image of exactly those samples, whichever way the tasks were interleaved.',
     ['inputs', 'schedules'],
     'every scene, view, integrator, sampler and draw, every interleaving of 1-4 renderer tasks over one film',
     'The one stable test that renders only checks that no exception is raised; it never looks at a pixel and uses '
     'one task.',
     ['pytracer/renderer/renderer.py', 'pytracer/integrator', 'pytracer/film/film.py'],
     [('rendering tasks', 'pytracer/renderer/renderer.py SamplerRendererTask'),
      ('integrators', 'pytracer/integrator/surface/{whitted,direct,path}.py'),
      ('direct light and specular bounces', 'pytracer/integrator/utility.py')],
     [('film', 'weighted sums of samples per pixel', 'pytracer/film/film.py ImageFilm.pixels'),
      ('sampler tiles', 'position of each task in its tile', 'pytracer/sampler')],
     ['samples given to the film with their radiance, pixels of the film'],
     SEARCH + 'Oracle: an independent ray tracer (dst/tracelib.py) and film (dst/filmlib.py). Samples whose rays graze '
     'an edge, a tangent or a critical angle within the tolerance are not judged.')

prop('C21', 'A camera turns every sample into the ray of its optics',
     'For every perspective, orthographic, environment and pinhole camera, at rest or moving between two poses, each '
     'film position, lens position and time gives the ray that the optics prescribe: origin on the lens, unit '
     'direction through the point in focus, the sample\'s own time, and moved by the rigid motion of that time '
     '(translation interpolated linearly, rotation through the smaller angle). The ray differentials are the rays of '
     'the neighbouring film positions. The sample stays as it was, and neither other tasks using the camera nor '
     'failed calls change any ray.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every camera, motion, film size and sample, every interleaving of 1-4 tasks on shared cameras, with failures in '
     'any statement',
     'The stable tests compute no camera ray with a lens, a motion or differentials.',
     ['pytracer/camera', 'pytracer/transform', 'pytracer/montecarlo/utility.py'],
     [('ray generation', 'pytracer/camera/camera.py, pytracer/camera/projective'),
      ('moving transforms', 'pytracer/transform/transform.py AnimatedTransform'),
      ('lens sampling', 'pytracer/montecarlo concentric_sample_disk')],
     [('motion', 'decomposed keyframes of a moving transform', 'pytracer/transform/transform.py AnimatedTransform')],
     ['weights, rays and ray differentials of generate_ray and generate_ray_differential'],
     SEARCH + 'Oracle: independent camera optics and rigid motions (dst/camlib.py).')

prop('C22', 'Integrators estimate the light they gather without bias',
     'Over the random draws, the mean radiance that the Whitted, direct-lighting (all lights or one) and path '
     'integrators return for a camera ray is emission plus the light of all sources, area lights included, reflected '
     'at the hit, and for the path integrator also the light scattered up to its depth, whatever number of light '
     'samples is asked for and however paths are cut short by chance. In closed rooms it is the radiance that '
     'equilibrium prescribes, with mirrors and glass that absorb nothing invisible. Each estimate is finite, not '
     'negative, samples each direction by numbers of its own, and is set by its draws alone: other tasks using the scene and failed estimates change nothing.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every scene, camera ray, integrator and stream of draws, every interleaving of 1-4 tasks sharing scene and '
     'integrator, with failures in any statement',
     'Unbiasedness is a statement about all draws; no stable test looks at a radiance.',
     ['pytracer/integrator', 'pytracer/light', 'pytracer/renderer/renderer.py'],
     [('direct lighting by multiple importance sampling', 'pytracer/integrator/utility.py estimate_direct'),
      ('path tracing and its random end', 'pytracer/integrator/surface/path.py PathIntegrator.li')],
     [('sample offsets', 'which of the requested samples belongs to which light', 'Sample, LightSampleOffset')],
     ['result of Renderer.li for one ray under given draws'],
     SEARCH + 'Oracle: quadrature over lights and hemispheres with an independent ray tracer, and closed forms in '
     'closed rooms; means off by 3 standard errors are continued to four times the draws, at 4 to eight, and judged at 5.')

prop('C14', 'One scene under one stream of draws is one image, whatever else runs',
     'A rendering is a function of its scene, camera, integrator, sampler, film and stream of random draws: film '
     'contents and the image file come out bit for bit the same alone in a fresh process, after any other '
     'renderings in the same process, and interleaved with other renderings, on shared scene objects or on separate '
     'equal ones. Renderings that fail midway leave nothing behind that changes a later or concurrent one.',
     ['inputs', 'schedules', 'fault_sequences', 'histories'],
     'every set of 2-4 renderings of 1-2 scenes, every interleaving and order of them, every stream of draws, with '
     'failures in any statement',
     'The stable tests render once per process and compare nothing.',
     ['pytracer/renderer/renderer.py', 'pytracer/integrator', 'pytracer/scene', 'pytracer/aggregate', 'pytracer/film'],
     [('rendering', 'pytracer/renderer/renderer.py SamplerRenderer.render'),
      ('objects shared by renderings', 'pytracer/{scene,aggregate,shape,material,light,texture}')],
     [('process-wide state', 'module and class attributes, default arguments, caches', 'all of pytracer')],
     ['film pixels and the bytes of the image file'],
     SEARCH + 'Oracle: the same rendering alone from the state of a fresh process (dst/state.py).')

prop('C15', 'Radiance that makes no sense counts as black, all else arrives',
     'In every rendering, by one task or several at once, a sample whose radiance times its camera weight has an '
     'undefined or infinite component, or negative luminance, and a sample of no camera weight, reaches the film as '
     'black with its usual filter weight. Every other sample reaches the film unchanged, so every pixel stays finite '
     'and holds the filtered mean of exactly those values.',
     ['inputs', 'schedules'],
     'every mixture of good, undefined, infinite and negative radiance and camera weights over the samples of a film, '
     'every interleaving of 1-4 renderer tasks',
     'No stable test renders a bad value.',
     ['pytracer/renderer/renderer.py', 'pytracer/film/film.py'],
     [('guard of the film', 'pytracer/renderer/renderer.py SamplerRendererTask.__call__')],
     [('radiance of a batch', 'values on their way to the film', 'SamplerRendererTask.__call__ Ls')],
     ['pixels of the film after rendering'],
     SEARCH + 'Oracle: an independent film (dst/filmlib.py) given the values the property prescribes.')

prop('C18', 'A tile that fails says so and spoils no other tile',
     'Whatever fails while a tile is rendered (integrator, light, camera, sampler, film, or any statement), the task '
     'of that tile ends with that failure, the failed sample does not reach the film, and a failed render call does '
     'not pass for a finished one. Every other tile gives all of its samples to the film and finishes, the film holds '
     'exactly the samples given to it, and rendering again gives the whole image.',
     ['schedules', 'fault_sequences'],
     'every set of failing samples and statements, every interleaving of 1-4 renderer tasks over one film',
     'No stable test makes a rendering fail.',
     ['pytracer/renderer/renderer.py', 'pytracer/film/film.py', 'pytracer/sampler'],
     [('rendering tasks', 'pytracer/renderer/renderer.py SamplerRendererTask.__call__'),
      ('pixel locks', 'pytracer/film/film.py ImageFilm.add_sample')],
     [('pixel locks', 'released however an update ends', 'ImageFilm.Pixel.lock')],
     ['errors of the tasks, samples given to the film, pixels of the film'],
     SEARCH + 'Oracle: an independent film (dst/filmlib.py) and a record of what was made to fail.')

prop('C23', 'A procedural texture has the value of its definition at every point',
     'For every tree of constant, scaled, mixed, bilinear, uv, checkerboard, dot, Brownian, wrinkled, windy and marble '
     'textures over planar, uv, spherical, cylindrical and 3D mappings, the value at a shading point is the one that '
     'the definitions (and Perlin\'s noise) give there, with checks weighed by their share of the ray\'s footprint. '
     'Mappings give coordinates and their derivatives along the footprint, also across their seam. Evaluation changes '
     'neither the point nor the texture, and neither other tasks sharing textures, mappings and points, nor '
     'sub-textures or statements that fail, change any value.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every texture tree, placement, point and footprint, every interleaving of 1-4 tasks on shared textures, with '
     'failing sub-textures and statements',
     'No stable test evaluates a texture.',
     ['pytracer/texture/texture/__init__.py', 'pytracer/texture/texturemap/__init__.py', 'pytracer/texture/utility.py'],
     [('textures', 'pytracer/texture/texture/__init__.py'),
      ('mappings', 'pytracer/texture/texturemap/__init__.py'),
      ('noise and its sums', 'pytracer/texture/utility.py noise, FBm, turbulence')],
     [('permutation', 'table of the noise', 'pytracer/data/noise.py')],
     ['value of calling a texture or a mapping with a DifferentialGeometry'],
     SEARCH + 'Oracle: independent definitions (dst/texlib.py). Points within 1e-6 of an edge of a pattern are not '
     'judged; derivatives of round mappings to first order.')

prop('C24', 'A bump map tilts the shading frame as the displaced surface does',
     'A material with a bump map shades as if its surface were displaced by the map along its shading normal: the '
     'frame of its scattering function follows the displaced partial derivatives, derivatives of the normal included, '
     'and the displaced normal lies on the side of the geometric normal. This holds with and without ray footprints, '
     'also along one parameter only, and on mirrored and reversed shapes, and bump maps are asked on the tangent plane, '
     'with the normal there. Making a scattering function changes neither '
     'the shading point nor the material, and neither other tasks that share bump maps and points, nor textures or '
     'statements that fail, change what others get or what is got later.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every displacement, shading point, footprint and material, every interleaving of 1-4 tasks on shared materials '
     'and points, with failing textures and statements',
     'No stable test bump maps anything.',
     ['pytracer/material', 'pytracer/geometry/diffgeom.py', 'pytracer/reflection'],
     [('bump mapping', 'pytracer/material/material.py bump'),
      ('scattering functions', 'pytracer/material/*.py get_bsdf')],
     [('shading point', 'the differential geometry given to a material', 'get_bsdf dg_geom, dg_shading')],
     ['values, densities and samples of the scattering function of a material'],
     SEARCH + 'Oracle: the displaced derivatives in closed form, for displacements linear along each parameter. '
     'Displaced normals within .05 of the tangent plane are not judged.')

prop('C25', 'A light with an image shines what the image shows in each direction',
     'A projector sends its intensity times the interpolated image value along each direction its image covers and '
     'nothing elsewhere, a goniophotometric light its intensity times the repeated image value by the angles of the '
     'direction, both dimmed by the squared distance; an environment shines its radiance times the image value from '
     'each direction, as an unoccluded ray and the background of a ray that leaves the scene see it. The directions and '
     'leaving rays drawn from an environment come with the density their distribution has, agree with density queries '
     'and with the radiance of the direction, every direction it shines from can be drawn, and powers follow the mean '
     'of the image. Neither other tasks, lights loaded before, nor reads or statements that fail change what a light '
     'gives later, an image that cannot be read counts as one of the constant value one, and a function to sample that '
     'is zero everywhere is drawn uniformly.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every image, light, placement, point, direction and draw, every interleaving of 1-4 tasks that make and ask lights, '
     'with failing reads and statements',
     'No stable test loads the image of a light.',
     ['pytracer/light/light.py', 'pytracer/montecarlo/distribution.py', 'pytracer/texture/utility.py'],
     [('projection and goniophotometric lights', 'pytracer/light/light.py ProjectionLight, GonioPhotometricLight'),
      ('environment', 'pytracer/light/light.py InfiniteAreaLight'),
      ('tables of densities', 'pytracer/montecarlo/distribution.py Distribution2D')],
     [('image of a light', 'the pyramid read from a file', 'reading'),
      ('sampling table', 'the table of an environment', 'making')],
     ['radiance, direction, density and visibility segment of a sample', 'background radiance of rays', 'power'],
     SEARCH + 'Oracle: the image, its interpolation, the placements and densities written from their definitions. Draws '
     'are also swept in strata against the radiance, and directions near cell borders, poles and the border of an image '
     'are not judged.')

prop('C26', 'A medium dims and scatters light by what its region holds',
     'At a point of the world the coefficients of a region are its own times the density there (one throughout a '
     'homogeneous region, falling exponentially along its up direction, interpolated between the middles of the cells '
     'of a grid, zero outside its box), sums over its regions for an aggregate; a ray overlaps the region where it is in '
     'the box as placed in the world, the optical thickness along a ray is the attenuation over that overlap in world '
     'length, summed in the given steps where the density varies, the phase function is the one of the region\'s '
     'asymmetry (averaged by scattering for an aggregate), the box of a region encloses it, and measured media have '
     'their published coefficients. In a rendering every stretch of a path between eye, surfaces, lights and background '
     'is dimmed once by the media on it, what the media add is added once per ray traced, without media all light gets '
     'through, and a scene of objects and media is bounded by the box of both while theirs stay as they are. Regions do '
     'not change by being asked or by what callers do to their arrays, and neither other tasks nor statements that fail '
     'change what is got.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every region, placement, point, ray, step and direction, every interleaving of 1-4 tasks that ask shared regions or '
     'render through them, with failing statements',
     'No stable test makes a volume region.',
     ['pytracer/volume', 'pytracer/scene/scene.py', 'pytracer/renderer/renderer.py', 'pytracer/integrator'],
     [('regions', 'pytracer/volume/volume.py'), ('phase functions and measured media', 'pytracer/volume/utility.py'),
      ('dimming of paths', 'pytracer/integrator/utility.py estimate_direct, surface/path.py, whitted.py'),
      ('bound of a scene', 'pytracer/scene/scene.py')],
     [('regions', 'the regions of an aggregate, shared by tasks', 'queries')],
     ['coefficients, overlaps, thicknesses, phase function values, boxes', 'radiance and transmittance of rays'],
     SEARCH + 'Oracle: regions written from their definitions, and a ray tracer that dims every stretch. The repository '
     'has no volume integrator; the harness brings one, and a moving region of a user.')

prop('C27', 'A ray knows its neighbours, through mirrors and glass',
     'The footprint by which textures are filtered is the image-space derivative of the hit: a camera ray carries its '
     'neighbours in x and y, as far away as the samples of a pixel are apart, and at every point where a texture is '
     'evaluated along a path of mirror reflections and refractions, on any shape, turned, mirrored or reversed, the '
     'changes of the point and of the surface parameters are to first order those of the points where the neighbours '
     'of the camera ray arrive through the same bounces. Textures are asked at the points where the rays of the sample '
     'arrive and nowhere else. Neither other tiles rendered at once, nor statements that fail, change the footprints of '
     'a sample.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every camera, its motion, pixel, scene of mirrors and glass, depth and integrator, every interleaving of 1-4 tiles '
     'with failing statements',
     'Stable tests check the shape of a camera ray, none a footprint after a bounce.',
     ['pytracer/integrator/utility.py', 'pytracer/geometry/diffgeom.py', 'pytracer/camera', 'pytracer/renderer'],
     [('neighbours of a mirrored or refracted ray', 'pytracer/integrator/utility.py specular_reflect, specular_transmit'),
      ('footprint of a hit', 'pytracer/geometry/diffgeom.py compute_differential'),
      ('neighbours of a camera ray', 'pytracer/camera/*.py generate_ray_differential, pytracer/renderer/renderer.py')],
     [('neighbours', 'the rays beside a ray', 'from camera to hit')],
     ['what a texture is told at a hit', 'rays given to the integrator'],
     SEARCH + 'Oracle: the same path traced three times a small step apart by an independent ray tracer. Points where '
     'the second order counts (edges, caustics) are not judged.')

prop('C28', 'Moving and repeated objects are found where they are at a ray\'s time',
     'An object given a motion (translation, rotation, scaling or mirroring between two keyframes, or none), one moved '
     'more than once, an aggregate moved as a whole and an object placed several times are hit by a ray exactly where '
     'the object is at the time of the ray, in aggregates of every kind: nearest hit, its distance, point, normal, '
     'derivatives, footprint, owner and frames in world space, shadow rays likewise; the ray keeps origin, direction '
     'and time. A motion takes points, vectors, rays and boxes to where it is at that time, outside its keyframes where '
     'the nearest one is, and its bounds hold the box over the whole motion without being much larger. Other tasks and '
     'statements that fail change no answer.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every motion, object, ray and time within and beyond the keyframes, every interleaving of 1-4 tasks asking the '
     'same objects, with failing statements',
     'No stable test makes a moving primitive; tests evaluate motions at single times.',
     ['pytracer/aggregate/primitive.py', 'pytracer/transform/__init__.py', 'pytracer/aggregate/aggregate.py'],
     [('hits of moving objects', 'pytracer/aggregate/primitive.py TransformedPrimitive'),
      ('keyframed motion and its bounds', 'pytracer/transform/__init__.py AnimatedTransform'),
      ('aggregates above and below', 'pytracer/aggregate')],
     [('object', 'shape or aggregate below a motion', 'TransformedPrimitive.primitive')],
     ['intersect and intersect_p results of aggregates', 'AnimatedTransform results and motion_bounds'],
     SEARCH + 'Oracle: keyframes interpolated and shapes intersected analytically by an independent model. Hits within '
     'two parts in a thousand of the border of a motion\'s box are not judged, bounds of a motion being sampled.')

prop('C29', 'A subdivided surface is the limit surface of its control mesh',
     'A Loop subdivision surface, closed or with borders, with vertices of any valence from three up, its mesh '
     'consistently turned, is rendered as the triangles of its mesh subdivided the given number of times, every '
     'vertex moved to its place on the limit surface (with the border and regular weights of Loop\'s scheme), with the '
     'normals of the limit surface there, turned as its faces turn. Its bounds hold every control point, its triangles '
     'are as many as the levels give and carry the material and placement of the surface. Taking a surface apart '
     'changes neither it nor its inputs: it may be done again, by several aggregates and tasks at once, after one that '
     'failed, and gives the same surface each time.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every consistently oriented manifold mesh, level and placement, every interleaving of 1-4 tasks that refine or '
     'intersect the same surfaces, with failing statements',
     'No stable test refines a subdivision surface.',
     ['pytracer/shape/loopsubdiv.py', 'pytracer/aggregate'],
     [('subdivision', 'pytracer/shape/loopsubdiv.py LoopSubdiv.refine'),
      ('mesh of the surface', 'pytracer/shape/triangle.py'),
      ('refinement on demand', 'pytracer/aggregate/aggregate.py')],
     [('control mesh', 'vertices and faces shared by all refinements', 'LoopSubdiv.vertices, LoopSubdiv.faces')],
     ['hits on the refined surface: distance, point, normal, shading normal', 'bounds, number and area of triangles'],
     SEARCH + 'Oracle: an independent implementation of Loop\'s rules and limit masks on the control mesh.')

prop('C30', 'Transforms and boxes act as their definitions say and change no argument',
     'A transform made of translations, scalings, rotations, look-at views, matrices and projections moves points, '
     'vectors, normals and rays (with their neighbours, range, depth and time) as the product of the matrices that '
     'define these does, its inverse moves them back, and a box under translation and positive scaling becomes the '
     'box of its moved corners; rotations survive the way through a quaternion. Unions, growth, containment, overlap, '
     'size, interpolation, bounding spheres, comparison and ray crossings of boxes, points along rays, rays made of '
     'rays, and frames, unit vectors, facing normals and spherical angles of directions are what geometry defines. '
     'Whatever else runs or fails, arguments and transforms stay as they are, and each result is the caller\'s own: '
     'keeping it or writing on it affects nothing else.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every chain of transforms and every argument shared by 1-4 tasks, every interleaving, with failing statements',
     'Tests apply one transform to fresh arguments in one task; they see neither shared scratch space nor aliases '
     'between results and arguments, and most only check a round trip.',
     ['pytracer/transform', 'pytracer/geometry'],
     [('transforms', 'pytracer/transform/__init__.py Transform'),
      ('quaternions', 'pytracer/transform/quat.py'),
      ('points, vectors, rays, boxes', 'pytracer/geometry/__init__.py'),
      ('directions', 'pytracer/geometry/utility.py')],
     [('matrices', 'a matrix and its inverse per transform', 'Transform.m, Transform.m_inv')],
     ['returned objects, when they are returned and at the end', 'arguments and matrices after the operations'],
     SEARCH + 'Oracle: matrices, boxes and directions worked out independently from the same definitions.')

prop('C31', 'A scene description holds what its calls said, block by block, scene by scene',
     'After every call of the scene description interface the current transformations are the product of those given '
     'since they were last set, recalled or opened in a block, a closed attribute or transform block gives back the '
     'ones it began with, a named coordinate system (world and camera included) recalls what was current when it was '
     'named last, the camera is placed by the inverse of what was current when it was set, and every option and time '
     'range is the last one given (names in lower case). A call that is refused or fails on the way changes no '
     'transformation, block or name, calls before the start and a second start are refused, an end without a '
     'beginning is ignored, and a scene started after cleaning up inherits nothing. Parameter lists hand out the '
     'values of each type in the order they were given, each list its own, and refuse unknown types.',
     ['inputs', 'histories', 'fault_sequences'],
     'every history of up to 40 calls with nested blocks, refused and failing calls and restarts, beside other tasks',
     'No test calls the interface; a state kept by reference or a block closed wrongly shows only in histories.',
     ['pytracer/interface'],
     [('calls', 'pytracer/interface/api.py'),
      ('options', 'pytracer/interface/option.py RenderOption'),
      ('parameters', 'pytracer/interface/parameter.py Param')],
     [('current transformations', 'one per end of the time range', 'pytracer.interface.TRANSFORM_SET'),
      ('named transformations', 'by name', 'pytracer.interface.COORDINATE_SYSTEM'),
      ('blocks', 'saved transformations', 'pytracer.interface.TRANSFORM_STACK'),
      ('options', 'what to render with', 'pytracer.interface.RENDER_OPTION')],
     ['all of this after every call, and after every call that failed'],
     SEARCH + 'Oracle: a model of the description with matrices worked out independently.')
