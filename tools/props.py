"""The properties: text for properties.jsonl and MANIFEST.json (tools/mk.py writes both)"""
T = 'raytools/translate.py'
M = 'raytools/mapper/'
MA, MM, MV, MS = M + 'angularmixin.py', M + 'mapper.py', M + 'viewmapper.py', M + 'solidviewmapper.py'
IMG, IO, UT, CLI = 'raytools/imagetools.py', 'raytools/io.py', 'raytools/utility.py', 'raytools/cli.py'
E = 'raytools/evaluate/'

PROPS = []


def P(id, title, statement, text, why, files, mech, over=('inputs',), note=''):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), text=' '.join(text.split()),
                      why=' '.join(why.split()), files=list(files), mech=mech, over=list(over),
                      note=' '.join(note.split())))


P('C01', 'The square and the sphere map onto each other both ways',
  """Mapping a point of the two-square domain [0,2]x[0,1] to the unit sphere (uv2xyz) gives a unit vector, and mapping it
  back (xyz2uv) returns the point; mapping any unit vector to the square and back returns the vector, for every axis
  order and for the matched flips.  The planar disk map agrees with the spherical one in angle and (through
  r*sqrt(2-r^2)) in radius.""",
  'every (u, v) of the two squares, every unit vector, every axis order, any position of the row in the array',
  'the tests round-trip fixed grids; the maps have case splits (diagonals, centre, second square) that a grid hits only in part',
  [T], [('concentric square/disk map and its inverse', T)])
P('C02', 'Angle conversions agree with their geometric definition both ways',
  """theta/phi (z up) and altitude/azimuth (clockwise from south) convert to the unit vector of their documented
  definition, and converting a unit vector to angles and back returns the vector, with angles in the documented ranges.
  Normalising theta/phi never changes the direction they denote, and the poles stay apart.""",
  'every theta, phi, altitude, azimuth and unit vector (alone or in larger arrays)',
  'the tests check a few named directions; ranges, wrap-around and poles need all angles', [T],
  [('tp2xyz, xyz2tp, aa2xyz, xyz2aa, tpnorm', T)])
P('C03', 'Normalisation and angles between vectors are exact',
  """Normalising keeps the direction and yields unit length; the angle functions give the arc cosine of the dot product
  (radians and degrees) between 0 and pi and are never nan for unit vectors, even when rounding makes a dot product
  slightly exceed one; chord and angle conversions are inverse of each other.""",
  'every vector and every pair of unit vectors, in every supported array shape',
  'tests compare a handful of vectors', [T, MA], [('norm, norm1, ctheta, radians, degrees, chord2theta, theta2chord', T)])
P('C04', 'Rotation matrices are rotations and turn the view onto +z',
  """Elemental rotation matrices are right-handed rotations about their axis (orthonormal, determinant one, inverse by
  the negative angle, angles add), and the yaw/pitch pair built from a view direction takes that direction onto +z while
  world up projects upward.  The poles are handled as documented.""",
  'every angle, axis and view direction', 'tests use a few angles and directions', [T],
  [('rmtx_elem, rotate_elem, rmtx_yp', T)])
P('C05', 'Square bins and sky patches partition the domain',
  """Every point of the square domain falls into exactly the cell that contains it, the serial bin number identifies this
  cell, and the centre or any inner offset of a bin maps back to the same bin; directions map to sky patches through the
  equal-area square, with all directions below the horizon in the single ground bin as documented, and a tolerance adds
  exactly the patches within it.""",
  'every point, bin, offset, tolerance and direction for the stated side lengths',
  'tests bin a fixed set of points at one side length', [T], [('uv2ij, uv2bin, bin2uv, xyz2skybin, skybin2xyz', T)])
P('C06', 'Culling keeps a separated and covering subset',
  """Culling vectors by a tolerance keeps a subset in which no two vectors are within the tolerance of each other, and
  every dropped vector is within the tolerance of a kept one.""",
  'every set of points (up to the stated number) and every tolerance',
  'tests run one random cloud', [T], [('cull_vectors', T)])
P('C07', 'Reflection is specular',
  """Reflecting a unit ray at a unit normal gives a unit vector with opposite normal component and unchanged tangential
  component, for every ray/normal pairing, and inputs that are not of unit length are flagged by the mask.""",
  'every pair of unit ray and normal', 'tests reflect a few rays', [T], [('reflect', T)])
P('C08', 'Resampling by whole factors keeps what it documents',
  """Enlarging repeats each sample by the factor (and then applies exactly the documented smoothing), reducing averages
  blocks and picks the documented samples, equal sizes return the array unchanged, constants stay constant, and the
  result always has the requested shape.""",
  'every pixel value for the stated shapes and factors', 'tests resample one image', [T], [('resample', T)])
P('C09', 'Weighted quantiles follow the cumulated weights',
  """The weighted quantile is the linear interpolation of the sorted values over their cumulated weights, rises with the
  quantile, starts at the smallest and ends at the largest value of positive weight, ignores values at or below
  the weight threshold, does not depend on the order of the data, and is the ordinary quantile for equal weights.""",
  'every data set, weighting and quantile up to the stated number of values', 'tests compare two data sets', [T],
  [('weighted_quantile, weighted_median', T)])
P('C10', 'The non-uniform gaussian filter is the weighted statistic of its window',
  """For every sample position the filter returns the gaussian-weighted mean (or weighted median or quantile) of the
  samples in the window around it, in the order of its input whether sorted or not, at the sample or at requested
  positions, and falls back to linear interpolation where no sample carries weight.""",
  'every data vector, position and width within the stated sizes', 'tests check shapes and one smooth curve', [T],
  [('non_uniform_gaussian_filter', T)])
P('C11', 'The planar mapper is an exact affine map between world, square and pixels',
  """World coordinates map to the unit square of the bounding box and back; array indices and square positions are
  inverse of each other; pixels and rays of a frame cover the box with their centres (jitter stays within the
  pixel); framesize follows the aspect of the mapper; vectors are added to the pixel they hit.""",
  'every bounding box, point, jitter draw and the stated resolutions',
  'tests use one box', [MM], [('Mapper', MM)],
  note="""Known finding: pixel2ray followed by ray2pixel mirrors x in the planar mapper (the existing tests pin it);
  printed as KNOWN-FINDING.""")
P('C12', 'A view mapper rotates rigidly and maps its square onto its view',
  """For every view direction world-to-view is a rotation that puts the direction at the centre with x to the right and
  world up upward, and view-to-world is its inverse.  The view square (two squares for 360 degrees) maps onto the view
  and back, with the centre at the view direction, every point inside the view angle and the outline on its edge.""",
  'every view direction; every point of the square and direction for the stated view angles',
  'tests try a few view directions and random points', [MV, MM, MA], [('ViewMapper', MV), ('uv2xyz, xyz2uv', MA)])
P('C13', 'Angular fisheye images are equiangular and round-trip',
  """In a fisheye image the distance from the image centre is proportional to the angle from the view direction, with x
  right and y up; image to ray to image and ray to image to ray return their input; every pixel contains the rays that
  map to it; a direction is in view exactly when its angle is below half the view angle (plus tolerance); and for 360
  degrees the second image shows the opposite hemisphere.""",
  'every image point and direction for the stated view angles and directions',
  'tests check a few pixels of one resolution', [MA, MV], [('xyz2vxy, vxy2xyz, pixelrays, in_view, pixel2omega', MA)])
P('C14', 'Equisolid images of a view follow one radial law and round-trip',
  """In an equisolid image of a view (SolidViewMapper, and the solid functions of ViewMapper) the centre is the view
  direction with x to the right and y up, image points turn into directions and back without change both ways (for
  single points and among other rows, in pixel and in unit coordinates), points at the same distance from the centre are at
  the same angle from the view direction, the rim is at the edge of the view, and views wider than a hemisphere are
  refused where the code says so.""",
  'every image point and direction inside the view for the stated view angles and directions',
  'tests look at one resolution and one view', [MA, MV, MS], [('solid_xyz2vxy, solid_vxy2xyz, solid pixels', MV), ('SolidViewMapper', MS)],
  note="""Known finding: the radial law of solid_vxy2xyz is theta = pi/sqrt(2)*sin(r/2), the inverse of an equisolid
  one: equal areas of the image are not equal solid angles; array_solid2ang uses it consistently.  Printed as KNOWN-FINDING.""")
P('C15', 'New view images and marked directions put things where they belong',
  """init_img returns a zero image of the asked resolution (two squares for 360 degrees, a leading feature axis if asked),
  the ray through every pixel for the asked projection, the pixels in view (as indices or mask) and a header that
  describes the view (its up vector is never along the view and is the top of the image); marking directions writes the value (or the values per channel, None leaves a channel) to exactly the
  pixel that contains each direction (and its neighbours with grow), to none outside the view, and changes no other pixel.""",
  'every marked direction and view direction for the stated resolutions, projections and view angles',
  'tests mark fixed directions in one view', [MA, MV, MM], [('init_img, add_vecs_to_img, header', MA)])
P('C16', 'Images are converted between projections by the direction of each pixel',
  """Converting an image (view to view, angular to equisolid and back, angular to equal-area square and back) gives at every
  pixel the interpolated (or nearest) value of the source image at the direction of this pixel; directions the source does
  not cover are zero; every channel is converted alike, and the returned mapper describes the result.""",
  'every pixel value for the stated resolutions, view pairs and projections',
  'tests convert one image and compare a few statistics', [MV, IMG],
  [('transform_to', MV), ('array_solid2ang, array_uv2ang, array_ang2uv', IMG)],
  note="""a.transform_to(img, b) takes an image in the projection of b to that of a (the documentation states the
  reverse); checked as implemented and used.""")
P('C17', 'Rotating a fisheye image samples the rotated directions',
  """array_rotate gives at every pixel the value (linear or nearest) of the source at the direction obtained by turning the
  direction of this pixel by the angle about the view axis and by placing the view at the given centre; zero angle changes
  nothing, quarter turns move pixels exactly, directions outside the source circle get the fill value, and every channel is
  treated alike.""",
  'every rotation angle (small images) and every pixel value (fixed angles and centres)',
  'tests rotate one image by one angle', [IMG], [('array_rotate', IMG)],
  note="""With a centre, both orders of rotation compose the same rotation and differ by interpolation only; checked as
  implemented.""")
P('C18', 'Basic metrics are the documented sums over the rays in view',
  """illum is the cosine-weighted and avglum the solid-angle-weighted sum (scaled), avgraylum the plain mean and maxlum the
  maximum of luminance; gcr and loggcr are the relative contrast (one for darkness), pw variants weight solid angles by the
  squared inverse position index, density is rays per solid angle; only rays in view count, the order of rays and the
  length of their vectors do not matter, metrics come in the order asked, unknown names raise, and metrics declared safe to
  sum are additive.""",
  'every luminance, solid angle and scale of the rays, one ray in any direction, several views',
  'tests evaluate two images', [E + 'basemetricset.py', E + 'metricset.py'], [('BaseMetricSet', E + 'basemetricset.py')])
P('C19', 'Glare metrics follow their published formulas over the rays in view',
  """Glare sources are the rays brighter than the threshold (absolute, or a factor of the average luminance of the task
  area, by default when the threshold is at most 100); the task area is the rays within the task radius (default 30
  degrees); the background is every other ray.  srcarea, srcillum, backlum, backlum_true, tasklum, threshold, pwsl2, dgp
  (with its terms dgp_t1, dgp_t2 and log_gc, the low-light correction and the clip at 1), ugr and ugp equal their formulas
  with the solid angles, position indices (Guth or Kim) and scaled luminances of those rays, by call or as a property,
  in every order of the rays.""",
  'every luminance, solid angle, scale, threshold and task radius of up to 5 rays, several views',
  'tests evaluate one image against stored numbers', [E + 'metricset.py'], [('MetricSet', E + 'metricset.py')])
P('C20', 'A metric does not depend on what was evaluated before it',
  """For BaseMetricSet, MetricSet and ColorMetricSet every metric and cached array has the value it has on a fresh
  instance whichever metrics were read before it, in whatever order, whatever other metric sets (of the same or another
  class) were evaluated in between; a call returns the metrics in the order asked, a call with a selection does not change
  the default selection of the instance or the class, and repeated calls agree.""",
  'every luminance of two rays, every metric first followed by all others, with and without other instances in between',
  'tests evaluate one order once', [E + 'basemetricset.py', E + 'metricset.py', E + 'colormetricset.py'],
  [('__call__ and cached properties', E + 'basemetricset.py')])
P('C21', 'Metrics use the rays in view, with solid angles corrected at the edge',
  """view_mask, vec, lum and omega are those of the rays inside the view (all of them for a 360 degree view); with
  omega_as_view_area=False and more than 100 rays solid angles near the edge of the view are scaled such that all sum to the
  area of the view, the other solid angles and the arguments do not change, otherwise the sum of solid angles is the view
  area; a ray just outside the view that is over ten times brighter than the average and whose disc overlaps the view is
  kept with the solid angle of the overlap and a direction moved into it, and changes no other ray.""",
  'every solid angle and luminance of up to 4 of 102 to 130 rays, every luminance and solid angle of 1 to 3 rays near the edge',
  'tests evaluate images cropped to the view', [E + 'basemetricset.py', MV, MA],
  [('__init__, omega, radians', E + 'basemetricset.py')])
P('C22', 'The position index follows Guth or Kim around the view direction',
  """PositionIndex gives for every direction the index of its angle from the view direction and its roll angle from up by
  Guth's formula, or Kim's when asked (left and right alike).  With Guth's model, directions below the line of
  sight use the horizontal roll angle and the angle with the vertical component stretched by 1.15, the index is at most 16,
  is 16 behind the viewer and 1 on the view direction.  The index does not depend on the length of the vector, on the
  other directions evaluated together or on the view angle, and positions_vec agrees with positions.""",
  'every angle from the view direction for 8 roll angles, every roll angle for 5 angles, 4 view directions',
  'tests compare a few directions', [E + 'positionindex.py'], [('PositionIndex', E + 'positionindex.py')])
P('C23', 'Consolidating bright pixels keeps energy and direction and nothing else changes',
  """normalize_peak collects the pixels brighter than the threshold within the given radius of the brightest one: when
  their energy exceeds that of a full source (from the mean of the near-peak pixels, area and correction) the brightest ones
  up to this energy become one source of the full area, otherwise those above the peak ratio become one of the peak
  luminance (full area with a correction above 1); its energy is the sum of theirs and its direction their weighted mean.
  These pixels are removed (or zeroed), all other pixels and the arguments are unchanged, nothing happens below the
  threshold, the return forms agree, colours are treated by their weighted luminance, and findsecondary reports groups of bright
  pixels away from the source (while more than three are left) with their mean direction, area and mean luminance.""",
  'every luminance of up to 4 pixels, every solid angle of up to 7 pixels, several thresholds, radii and corrections',
  'tests consolidate one sun', [IMG], [('normalize_peak, find_peak, gather_strays', IMG)])
P('C24', 'Colour rays and pictures give the metrics of their weighted luminance',
  """ColorMetricSet on colours with n channels and luminance weights gives for every metric the value MetricSet gives for
  the weighted luminance, except irradiance, which is the sum of colour times cosine times solid angle per channel;
  sources and background are grouped by luminance with their colours averaged alike, and a list of metrics is flattened in
  the order asked for.  imgmetric evaluates a picture in the view of its header (or the angle that is given), with
  luminance weights from the call, else from the header, else the Radiance defaults, leaves out pixels outside of the view,
  returns colour metrics when channels are kept, and consolidates a peak only when asked to.""",
  'every colour of 1 to 2 of 3 to 4 rays with 1 to 4 channels, every colour of two pixels of pictures of 4x4 to 6x6, every metric',
  'tests evaluate one picture', [E + 'colormetricset.py', IMG, IO],
  [('ColorMetricSet', E + 'colormetricset.py'), ('imgmetric, hdr2vol', IMG), ('hdr2array, header_items', IO)])
P('C25', 'Pictures are written and read upright, complete and with their header',
  """array2hdr and carray2hdr write every pixel of a (width, height) array (x to the right, y up) at its place with its
  value (grey or colour), the resolution and the header lines, to a file or standard output; hdr2array and hdr2carray read
  a picture of any width and height into the array written, luminance by the weights asked for, crop or stretch
  nothing, and raise an error for files that are missing or no pictures.  hdr_header returns header lines (or items),
  is_hdr tells pictures from other files, and np2bytes/bytes2np and np2bytefile/bytefile2np are inverse for every shape.""",
  'every value of every pixel of pictures of 1x1 to 3x4 pixels in grey and colour', 'tests round-trip one square picture', [IO],
  [('array2hdr, carray2hdr, hdr2array, hdr2carray, _hdr_in', IO), ('np2bytes, bytes2np and files', IO)])
P('C26', 'Luminance of packed and plain colours is the weighted sum of their channels',
  """rgb2rad is the sum of channels times weights (default Radiance weights) along the last axis for any number of
  dimensions and channels, and rgb2lum 179 times that.  rgbe2lum of packed pixels is 179 times the weighted sum of
  (mantissa + 1/2) / 256 times two to the power of exponent - 128, where a zero mantissa counts as 0, for integer arrays of every
  type; arguments do not change, results are linear in the colour, and pixels do not influence each other.""",
  'every mantissa for every exponent of up to 3 pixels; every colour and weight of arrays of 1 to 3 dimensions with 1 to 5 channels',
  'tests decode one picture', [IO], [('rgbe2lum, rgb2rad, rgb2lum', IO)])
P('C31', 'The glare sensation of a picture does not depend on what was computed before',
  """GSS gives for a picture, view, illuminance and options the same score, arrays and saved response as a fresh instance,
  whatever the instance has loaded, computed or saved before: other pictures, sizes and views.  Every attribute (res, vecs,
  omega, mask, ctheta, sigma_c, ecc, lum) belongs to the last picture and view, computing changes none of them, the adaptation is
  that of the picture, and gss_compute returns the score of each picture in order and writes the responses when asked to.""",
  'every luminance of one pixel of each of up to 3 pictures; 74 stated sequences of loads, views and computations',
  'tests compute one picture per instance', [E + 'hvsgsm.py'], [('GSS', E + 'hvsgsm.py'), ('gss_compute', E + 'hvsgsm.py')])
P('C27', 'Pooled calls return what the loop would return, in order',
  """pool_call calls the function exactly once per item of args, with the item (expanded or not), the fixed arguments and
  keywords, and returns the list of results in the order of the items whatever the number of workers and whichever call
  finishes first, with processes, threads or none; when a call fails its error is raised.  The number of processes is the cap
  of the call, else the one set by set_nproc (until it is unset or set below one), else that of the machine.""",
  'every order of completion (symbolic durations, 1 to 4 workers) and every value of 0 to 4 calls', 'tests see one order of completion',
  [UT, IO], [('pool_call, TStqdm', UT), ('get_nproc, set_nproc', IO)])
P('C28', 'Views are read from the last fisheye view of a picture header or view file',
  """hdr2vm returns the view of the last VIEW= -vta line of the header (else the last rvu -vta line): its -vd direction
  (any length, default 0 1 0) and its -vh angle times width over height of the picture, whatever the order of the options, and
  the -vp view point (default origin) when asked for; no view for pictures without an angular fisheye view,
  FileNotFoundError for missing and IOError for other files.  vf_to_vm does so for view files and raises a ValueError without
  a -vta view, img_size is (width, height), and GSS takes its view from a picture or view file alike.""",
  'every view angle, direction and view point in stated orders of the options; pictures of 1 to 12 pixels', 'tests read one header',
  [IMG, E + 'hvsgsm.py'], [('hdr2vm, vf_to_vm, img_size', IMG), ('GSS.vm', E + 'hvsgsm.py')])
P('C29', 'Converting picture files writes the converted picture, its header and view',
  """hdr_uv2ang, hdr_ang2uv, hdr_solid2ang and hdr_rotate, and the commands project, align and solid2ang with their options, write for
  each input (and nothing else) a colour picture whose pixels are those of the array conversion of the input, with the view of the
  input (or the angle given, or 180) where the conversion depends on it; the output has the given name or the documented one
  derived from the input and options (any path), or goes to standard output; header lines of the input are kept once in order and
  solid2ang ends with the view of the output in its own projection, so a conversion there and back needs no options.""",
  'every value of two pixels in three channels; stated views, options, names and headers', 'tests call the array functions',
  [IMG, IO, 'raytools/cli.py'], [('hdr_uv2ang, hdr_ang2uv, hdr_solid2ang, hdr_rotate', IMG), ('carray2hdr, CleanHeader', IO), ('project, align, solid2ang', 'raytools/cli.py')])
P('C30', 'Eye models: point spread, source correction and densities follow their formulas',
  """hpsf is the Lorentzian of the given full width (1 at 0, one half at half the width, symmetric) and inv_hpsf its inverse.
  blur_sun is ((r0 + r) / r0)**2 with r0 the radius of the disc of the solid angle and r the distance where the source's
  luminance, limited to between lmin and what reaches lmin at 1 degree, has fallen to lmin: 1 for sources below lmin.
  Densities on a meridian follow Watson's formula or interpolate Curcio's measurements (at least 1, constant outside);
  between meridians they follow the ellipse through the two of the quadrant, binocular values are the mean of both eyes,
  alike left and right, and arguments do not change.""",
  'every distance, level, width; every solid angle and luminance of a source; every eccentricity; every position in a quadrant',
  'tests compare quantiles and a few values', [E + 'retina.py'], [('hpsf, inv_hpsf, blur_sun, rgcf_density_xy', E + 'retina.py')])
P('C32', 'Each stage of the glare sensation model computes its published formula',
  """GSS with a loaded picture has its luminance (times scale), directions, solid angles, mask, cosines and field widths;
  adapt integrates illuminance over the view (or takes the given one) and gives pupil and global irradiance; the point spread
  function has coefficients that sum to 1, spreads each pixel over the frame by solid angle and the remainder evenly
  over the view (a uniform field stays uniform); both eye movements, local adaptation, cone response, receptive field, logistic
  (on and off, zero outside the view) and the Minkowski sum weighted by the eccentricity polynomial follow their equations, and
  compute and glare_response chain exactly the stages asked for and return their arrays.""",
  'every illuminance, pupil, angle and response; one or two pixels of pictures of 4 to 9 pixels in views of 0.5 to 180 degrees',
  'tests compare the score of one picture', [E + 'hvsgsm.py'], [('GSS', E + 'hvsgsm.py'), ('f_b, l_b', E + 'hvsgsm.py')])

P('C33', 'Functions leave array arguments unchanged and repeat their results',
  """The conversions of translate (pixels, uv, directions, angles, bins, resampling, quantiles, filters, culling, reflection), the
  methods of Mapper, ViewMapper and SolidViewMapper, the array image transformations, peak normalisation, metric sets, position
  indices, retina densities, glare sensation and picture writers do not write into the arrays passed to them (nor into memory around
  a sliced view), do not depend on whether an argument is contiguous, reversed, transposed or a slice, and called again with
  the same arguments (on the same object) return the same values.""",
  'one or two entries of each argument, within ranges clear of poles; four memory layouts; two calls of each function',
  'tests call each function with fresh contiguous arrays, once', [T, MV, M, IMG, IO, E + 'basemetricset.py', E + 'metricset.py', E + 'positionindex.py', E + 'retina.py', E + 'hvsgsm.py'],
  [('module functions', T), ('Mapper, ViewMapper', MV), ('array_*, normalize_peak', IMG)],
  note='add_vecs_to_img changes its image by contract')

P('C34', 'The metric and smooth commands print labelled tables of their results',
  """raytools metric prints one row for each picture in their order, with one value of six digits under each label: the metrics asked for
  (default illum dgp ugp) in order, irradiance as three channels, then gss and gssnb if asked for, which are the glare sensation with
  and without optics and eye movements; every option (peak normalisation, threshold, scale, luminance weights, low light, sun blur) and
  its documented default takes effect.  raytools smooth prints each x with the filtered value of each chosen column,
  for given points or a number of points between the extremes, by the given or Scott's sigma times its scale factor.""",
  'every value of a pixel of one to three pictures, every value of a datum; stated metrics and options', 'tests do not run the commands',
  ['raytools/cli.py', IMG], [('metric, smooth', 'raytools/cli.py')])


P('C35', 'Sky patches of Radiance expressions and of the Python functions agree',
  """For every number of divisions, the Radiance expression scbinscal gives each direction above the horizon the point of the square of
  xyz2uv (with U and V exchanged) and the bin of xyz2skybin, gives one ground bin (side squared) below it, and draws grid lines only
  at the edges of the patches; scxyzcal gives for each bin and offset the unit direction of that point of the square (for the default
  offsets that of skybin2xyz), which lies in that bin again.""",
  'every direction above and below the horizon, every bin and inner offset, for the stated numbers of divisions',
  'a test compares the centres of 18 by 18 patches', [T, 'raytools/cal/rayinit.cal'], [('scbinscal, scxyzcal, xyz2skybin, skybin2xyz', T)])
P('C36', 'Functions of the packaged Radiance library do what their names say',
  """In raytools/cal/rayinit.cal (on the path of every Radiance call of the package) bound, clip and noneg limit their argument, and, or, not and xor are the
  logical operations on signs, mod, frac and tri are periodic with the documented range, linterp, hermite, bezier and bspline are the
  standard polynomials, grey is the weighted luminance (never negative), dot and cross are the vector products, the robust versions of
  sqrt, exp, acos, asin and atan2 agree with the plain ones where those are defined, and unif2norm is odd about one half.""",
  'every argument within the stated ranges', 'tests use sq and mod through one expression only', ['raytools/cal/rayinit.cal'],
  [('function definitions', 'raytools/cal/rayinit.cal')])
P('C37', 'Cleaning a header keeps its lines, its grouping and its last view',
  """CleanHeader (and header_items, which reads it) keeps every distinct line of a picture header once, under the file it belongs to, drops the
  lines of pvalue and the format, joins folded lines again, ends with the last view, and cleaning twice changes nothing.""",
  'every header text', 'tests clean a few headers', [IO], [('CleanHeader', IO)])

NA = {'C37': 'the code works on text only (regular expressions, splitting, wrapping of lines, recursion over nested lists); symbolic text of this kind is out '
             'of reach of the encoding (real numbers and arrays), and choosing among stated headers would be enumeration. Numbers in headers are decided in C25, C28 and C29'}
