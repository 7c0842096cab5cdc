"""Writes known_findings.json: the defects repaired by fix: commits in /repo (hashes looked up by subject)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [
 ('C01', "place the film's crop window in y by the y resolution", 'a crop window of a non-square film starts at the wrong row'),
 ('C02', 'release the pixel lock when a splat fails', 'a splat that fails keeps the pixel lock; later contributions to the pixel wait for ever'),
 ('C03', 'never leave a partial image behind when saving fails', 'a failed or interrupted save leaves a truncated image under the file name'),
 ('C04', 'write a crop window into its own rows and columns', 'a crop window is written transposed, at the wrong place, or refused'),
 ('C05', 'step the grid accelerator through the voxels a ray crosses', 'the grid misses or mis-orders hits, or fails, while it steps from voxel to voxel'),
 ('C05', 'make cylinders usable as shapes', 'intersecting or bounding a cylinder raises'),
 ('C05', 'bound rotated and mirrored shapes in world space', 'the world bound of a rotated or mirrored shape does not enclose it, so the grid misses it'),
 ('C06', 'release the grid lock when refining a voxel fails', 'a failing refinement keeps the grid lock; later queries wait for ever'),
 ('C07', 'keep the nearest hit in the simple aggregate', 'the plain list returns the last hit instead of the nearest'),
 ('C07', 'build bounding hierarchies with middle splits and multi-primitive leaves', 'building raises or loses primitives with middle splits, equal centres or larger leaves'),
 ('C08', 'average a spectrum up to an end point that is a sample', 'averaging up to a wavelength that is a sample raises or is wrong'),
 ('C08', "resample spectra into bins of one sample's width", 'resampled bins have the wrong width and offset'),
 ('C08', 'average spectra without modifying the samples', 'averaging sorts or scales the arrays of the caller in place'),
 ('C08', 'publish spectral tables only once they are complete', 'a second task, or a retry after a failed initialisation, sees half-built tables'),
 ('C08', 'pick the basis spectra of a colour by channel', 'RGB colours are converted with the basis spectra of other channels'),
 ('C09', 'give every shape and primitive an id of its own', 'two tasks constructing shapes or primitives at once get the same id'),
 ('C10', 'reuse the samples of a measured material that is already loaded', 'the second material of a file has no samples'),
 ('C10', 'tell measured materials of one file name apart', 'two files of one name in different directories share their samples'),
 ('C11', 'evaluate image textures of colours', 'evaluating a colour texture raises TypeError'),
 ('C11', 'tell colour and scalar textures of one image apart', 'a scalar texture gets the cached colour texture of the same image, or the reverse'),
 ('C11', 'use the one-valued texture for an image that cannot be read', 'an unreadable image raises AttributeError instead of giving the constant texture'),
 ('C11', 'build image pyramids of scalars', 'a scalar image texture cannot be built'),
 ('C11', 'keep the orientation of an image in all levels of its pyramid', 'every second pyramid level is transposed'),
 ('C11', 'filter image textures over elliptic footprints', 'an elliptic footprint raises AttributeError'),
 ('C11', 'load image textures that are not square', 'an image that is not square raises IndexError'),
 ('C12', 'split a sampler into tiles that cover its pixels once', 'sub-samplers have fractional or wrong extents'),
 ('C17', 'tell scattering types apart by their bits', 'asking for a subset of scattering kinds selects the wrong lobes'),
 ('C17', 'return sampled directions in world space', 'sampled directions are returned in the local frame'),
 ('C17', 'sample the cosine-weighted hemisphere', 'cosine-weighted directions are not unit vectors or not cosine distributed'),
 ('C17', 'reflect parallel polarised light at dielectrics as Fresnel says', 'reflectance of dielectrics is wrong'),
 ('C17', 'refract from the side a ray comes from', 'rays leaving a dielectric are refracted with the index of the wrong side'),
 ('C17', 'give the density of transmission made from reflection', 'transmission wrapped from reflection has no density'),
 ('C17', 'mix materials', 'mixed materials raise or have the wrong weights'),
 ('C17', 'put the index of plastic and uber materials inside the surface', 'the refractive index of plastic and uber materials is on the wrong side'),
 ('C17', 'keep the footprint of a shading point in its copies', 'copies of a shading point lose the texture footprint'),
 ('C17', 'take the direction of a reflectance estimate in world space', 'rho takes its direction in the wrong frame'),
 ('C17', 'keep glossy reflection on one side of a surface', 'glossy models reflect light through the surface'),
 ('C17', 'drop glossy samples on the other side of a surface', 'glossy samples below the surface have a positive density'),
 ('C16', 'never sample a step of zero probability', 'a draw of 0, or one at a step edge, picks a step of probability 0'),
 ('C16', 'sample both coordinates of a distribution continuously', '2D samples take only one value of v per row'),
 ('C16', 'sample a cone of directions', 'cone samples lie outside the cone'),
 ('C16', 'sample the area of a sphere', 'points on a sphere are not sampled on its surface, or not uniformly'),
 ('C16', 'sample only the part of a sphere that is there', 'partial spheres are sampled outside their part'),
 ('C16', 'sample the area of a disk', 'disks are sampled into their hole or beyond phi max'),
 ('C16', 'sample a triangle between its own vertices', 'triangle samples use the wrong vertices'),
 ('C16', 'sample a triangle on the side its hits report', 'sampled normals of mirrored triangles are reversed'),
 ('C16', 'take the density of a set of shapes from the closest one', 'the density of a direction counts hidden shapes of a set'),
 ('C16', 'sample a triangle on the side its parameters give', 'sampled normals oppose the hit normals when the parameters run the other way round'),
 ('C20', 'parametrise a disk by the distance from its rim', 'hits on disks have NaN parameters or raise'),
 ('C20', 'let v span a sphere from 0 to 1', 'v of sphere hits is multiplied by the angle range instead of divided'),
 ('C20', 'do not print every shadow ray that meets a sphere', 'shadow rays print debugging output'),
 ('C20', 'map triangles by the parameters of their own vertices', 'triangles use the parameters of other vertices'),
 ('C20', 'shade triangles with the normals of their own vertices', 'triangles use the normals and tangents of other vertices'),
 ('C20', 'shade meshes that have normals but no tangents', 'vertex normals are ignored when there are no tangents'),
 ('C20', 'look up the alpha texture of a mesh', 'an alpha texture raises AttributeError'),
 ('C20', 'shade mirrored and reversed meshes on the side of their normals', 'shading normals of mirrored meshes are reversed'),
 ('C19', 'let a light be asked for its power in a scene', 'power raises TypeError'),
 ('C19', 'leave lights along the sampled ray', 'rays that leave a light raise AttributeError'),
 ('C19', 'dim spotlights by their falloff and distance', 'spotlights divide by the falloff and ignore the distance'),
 ('C19', 'shadow distant lights', 'distant lights raise AttributeError'),
 ('C19', 'take the power of an area light from its whole area', 'the power of an area light raises TypeError'),
 ('C19', 'give the density of rays that leave an area light', 'rays that leave an area light raise TypeError'),
 ('C19', 'do not see an area light where there is nothing', 'rays that hit nothing see the emission of area lights'),
 ('C19', 'do not hand out the emission of a light for its callers to change', 'changing an answer changes the light'),
 ('C19', 'give rays that leave a light their time', 'the time of leaving rays is stored as their depth'),
 ('C21', 'do not stretch the time of a camera sample over the shutter twice', 'rays carry a time outside or elsewhere in the shutter'),
 ('C21', 'do not move the rays of an orthographic camera into the world twice', 'rays of a moved orthographic camera are misplaced'),
 ('C21', 'shift a copy of the camera sample for ray differentials', 'ray differentials raise AttributeError and change the sample'),
 ('C21', 'give the rays of an environment camera their time, not a depth', 'the time of a ray is stored as its depth'),
 ('C21', 'give the rays of a pinhole camera unit directions and their time', 'rays of a pinhole camera are not normalised and at time 0'),
 ('C21', 'move the offset rays along with the ray they belong to', 'ray differentials stay in camera space or raise'),
 ('C21', 'make look_at look at its target', 'look_at gives a wrong frame'),
 ('C21', 'turn rotations into unit quaternions', 'moving cameras turn wrongly'),
 ('C21', 'turn a moving transform through the smaller angle', 'moving cameras turn the long way round'),
 ('C21', 'map the lower and left quarters of the square onto the disk unmirrored', 'two quarters of the lens are mirrored'),
 ('C13', 'use the radiance, not the transmittance, of refracted rays', 'refracted light is the transmittance pair, not the radiance'),
 ('C13', 'do not let reflected rays overwrite the hit they started from', 'transmission after reflection starts from the wrong hit'),
 ('C22', 'add the light found by sampling the BSDF to the direct lighting', 'half of the direct lighting estimate is lost'),
 ('C13', 'sample one light with the samples requested for it', 'sampling one light raises TypeError'),
 ('C13', 'end a path of no weight for every random number', 'a draw of 0 divides a path by zero'),
 ('C13', 'let camera rays that hit nothing see the lights around the scene', 'rays that hit nothing raise instead of seeing the lights'),
 ('C15', 'keep infinite radiance of either sign off the film', 'radiance with infinities of both signs makes pixels undefined'),
 ('C23', 'take noise from all of its gradients', 'noise uses -1 instead of the negated offset for half of its gradients'),
 ('C23', 'interpolate noise along y by the weight of y', 'noise is not continuous: y is interpolated by the weight of z'),
 ('C23', 'add up the octaves of Brownian motion', 'Brownian textures raise UnboundLocalError'),
 ('C23', 'let a smooth step run from 0 to 1 between its bounds', 'the last octave of noise enters with a weight that jumps'),
 ('C23', 'paint the inside of dots', 'dots raise TypeError or never show their inside'),
 ('C23', 'weigh the checks by their share of the footprint', 'filtered checkerboards have values outside their two colours'),
 ('C23', 'filter checkerboards over footprints without extent along one axis', 'a footprint without extent along one axis divides by zero'),
 ('C23', 'take the change of t along y from t', 'dtdy of round mappings is the difference to s'),
 ('C23', 'cross the seam of spherical and cylindrical mappings', 'footprints across the seam span most of the texture'),
 ('C23', 'map points onto a cylinder', 'cylindrical mappings raise AttributeError'),
 ('C23', 'colour marble along its spline', 'marble raises or leaves its spline'),
 ('C24', 'step along v when a bump mapped point has no footprint', 'a bump map that varies along v leaves the surface flat along v where there is no footprint'),
 ('C24', 'add the derivatives of the normal to a bump mapped surface', 'the displacement itself (not only its slope) is ignored or misused on curved surfaces'),
 ('C24', 'turn bump mapped normals to the side of the geometric normal', 'bump mapped normals are turned by the sign of the wrong dot product, to the wrong side'),
 ('C25', 'read the images of lights', 'making a light with an image raises'),
 ('C25', 'project the image of a light', 'a projector ignores its image or shows it mirrored'),
 ('C25', 'let the cone of a projector cover wide images', 'directions inside a wide image are dark'),
 ('C25', 'scale goniophotometric lights by their image', 'a goniophotometric light raises or ignores its image'),
 ('C25', 'look up the background of an environment', 'a ray that leaves the scene raises instead of seeing the environment'),
 ('C25', 'give the density of a direction to an environment', 'asking an environment for the density of a direction raises'),
 ('C25', 'sample rays that leave an environment', 'drawing a leaving ray raises or has the wrong density'),
 ('C25', 'sample the poles of an environment', 'a draw at a pole divides by zero'),
 ('C25', 'scale the image of an environment by its radiance', 'the radiance an environment is given is ignored'),
 ('C25', 'sample every direction an environment shines from', 'directions an environment shines from have zero density'),
 ('C25', 'sample a function that is zero everywhere', 'a table of zeros has densities that are not numbers'),
 ('C26', 'intersect volume regions in their own frame', 'rays meet a placed region where it would be unplaced'),
 ('C26', 'scatter by the asymmetry of a volume region', 'the phase function of a region takes the time for its asymmetry'),
 ('C26', 'march through a volume region at the time of the ray', 'a region is marched at time 0'),
 ('C26', 'look up the densities of a grid', 'a grid region cannot be built, and would look up its cells transposed'),
 ('C26', 'add up the emission of volume regions', 'the emission of aggregated regions raises'),
 ('C26', 'average the phase functions of volume regions', 'the phase function of aggregated regions is a sum, above one in total'),
 ('C26', 'divide by the squared term of Schlick phase functions', 'the Schlick phase function is the same in all directions'),
 ('C26', 'tell absorption from scattering in measured media', 'absorption and scattering of measured media are exchanged'),
 ('C26', 'bound a scene without growing the box of its objects', 'making a scene with media changes the box of its aggregate'),
 ('C26', 'let all light through a scene without media', 'the transmittance of a ray without media is zero'),
 ('C26', 'attenuate every segment of a path', 'the first stretches of a path are not dimmed by media'),
 ('C26', 'draw random numbers for the transmittance of a ray', 'the default generator of transmittance is a string'),
 ('C27', 'refract the neighbours of a ray as the ray', 'neighbours of a refracted ray go another way'),
 ('C27', 'turn the derivatives of a normal over with the normal', 'on reversed shapes the normal changes the wrong way'),
 ('C11', 'resample images that are not square', 'an image of unequal sides that are not powers of two cannot be used'),
 ('C11', 'widen a narrow footprint along its own axis', 'a clamped footprint is widened along s of both axes'),
 ('C25', 'resample images given as arrays of numbers', 'a light cannot be given an image whose sides are no powers of two'),
 ('C11', 'drop the alpha of images of any size', 'an RGBA image with a side that is no power of two cannot be used'),
 ('C26', 'bound rotated and mirrored volume regions in world space', 'the box of a rotated or mirrored region does not enclose it'),
 ('C28', 'place moving and instanced primitives in a scene', 'a moving or repeated object cannot be made'),
 ('C28', 'bound a motion by all corners of what moves, either way round', 'the box of a motion leaves out parts of what moves'),
 ('C29', 'work out the tangents inside a subdivided surface', 'normals of subdivided surfaces cannot be worked out'),
 ('C29', 'weigh limit points by the limit rule', 'vertices of subdivided surfaces are beside the limit surface'),
 ('C29', 'turn the normals of subdivided surfaces the way of their faces', 'normals of subdivided surfaces point the wrong way'),
 ('C29', 'subdivide a surface without changing it', 'a surface refined twice, or by two tasks, is subdivided further or fails'),
 ('C10', 'look up tabulated reflectance in its own bin', 'tabulated reflectance is read from other bins or fails'),
 ('C17', 'work out the reflection of a translucent material', 'the reflection of a subsurface material raises TypeError'),
 ('C17', 'pair the strata of reflectance estimates at random', 'estimates of hemispherical reflectance do not converge to it'),
 ('C17', 'print subsurface scattering properties', 'printing subsurface scattering properties raises'),
 ('C07', 'find the boxes of a hierarchy along rays parallel to an axis', 'rays with a component -0., or within a face of a box, miss objects in hierarchies'),
 ('C20', 'check the vertex indices of a mesh before they are used', 'a mesh with normals, texture coordinates and a vertex index out of bounds fails with an IndexError instead of being refused'),
 ('C08', 'create an RGB spectrum from a sequence of values', 'RGBSpectrum.create takes three values for the dimensions of an array'),
 ('C08', 'keep the values of a spectrum real when it is made from whole numbers', 'a spectrum made of whole numbers cannot be scaled in place'),
 ('C30', 'compare the corners of boxes with their own kind', 'a box is unequal to itself'),
 ('C31', 'import the scene interface and check its status when it is called', 'the interface cannot be imported'),
 ('C31', 'begin every scene description from its initial state',
  'the first scene has no transformations to begin with, the next one inherits blocks and names'),
 ('C31', 'keep saved transformations apart from the current ones',
  'a transformation inside a block, or after naming a coordinate system, changes what was saved'),
]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().split('\n')
    h = {l.split(' fix: ', 1)[1]: l.split(' ', 1)[0] for l in log if ' fix: ' in l}
    out = ['fixed: property=%s %s %s' % (p, h.pop(s), w) for p, s, w in FIX]
    assert not h, h
    p = os.path.join(HERE, 'known_findings.json')
    d = json.load(open(p))
    d['fixed'] = out
    with open(p, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
