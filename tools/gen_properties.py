"""Writes /verif/properties.jsonl (kept as a script so the texts are reviewable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=state or [],
                               observe_at=observe or [], hook_needed=None)))


CORE = "petrofit/petrosian/core.py"
CORR = "petrofit/petrosian/correction.py"
UT = "petrofit/utils.py"
PH = "petrofit/photometry.py"
SG = "petrofit/segmentation.py"
MO = "petrofit/modeling/models.py"
FI = "petrofit/modeling/fitting.py"

# ------------------------------------------------------------------ Petrosian
p("C01", "The Petrosian profile equals its definition at every sample",
  "For any curve of growth (three or more samples, areas non-decreasing, non-zero fluxes) the Petrosian profile has the input length, is NaN at the first sample, and at every later sample whose area grew is exactly (flux gained / area gained) divided by (flux / area) there. Samples that repeat an earlier area report the value of the first sample with that area. The result depends only on the numbers, not on whether they arrive as integers, floats, lists or arrays, and unsorted, too short or unequal inputs are refused.",
  ["inputs"], "all curves of growth (areas, fluxes), including integer input and repeated areas",
  "The tests compute one 130-point curve from a file and only check for NaNs and lengths; repeated areas, integer arrays and the value itself are never compared to the definition.",
  [CORE], [("calculate_petrosian", CORE + ":23")], ["petrofit.calculate_petrosian", "Petrosian.petrosian_list"])

p("C02", "Petrosian profile errors are first-order quadrature propagation",
  "When area or flux errors are supplied, the error of the Petrosian profile at every sample whose area and flux both grew is |value| times the quadrature sum of the relative errors of the flux step, the area step, the flux and the area, each step error being the quadrature sum of its two end points. It is NaN at the first sample, never negative, an omitted error array behaves exactly like an array of zeros, and asking for errors never changes the profile values.",
  ["inputs"], "all curves of growth with all non-negative error arrays, either or both supplied",
  "The tests only check that error arrays have the right length and no NaN for one data file with random errors.",
  [CORE], [("calculate_petrosian (error block)", CORE + ":92")], ["petrofit.calculate_petrosian", "Petrosian.petrosian_err"])

p("C03", "The Petrosian radius is the first crossing of eta",
  "With the profile anchored at the value 1 at radius 0 and resampled by the chosen interpolation (or used as is when interpolation is disabled), the Petrosian radius is the sampled radius whose profile value is nearest to eta among the samples up to and including the first one at or below eta. It is NaN exactly when no sample is at or below eta, and otherwise lies between 0 and the largest input radius.",
  ["inputs"], "all profiles (monotone or not), all eta, all interpolation kinds and sampling numbers",
  "The tests check one smooth profile to 5%; profiles that dip near eta, cross several times, touch eta exactly, or never cross are never tried.",
  [CORE, UT], [("calculate_petrosian_r", CORE + ":128"), ("closest_value_index", UT + ":161"), ("get_interpolated_values", UT + ":129")],
  ["petrofit.calculate_petrosian_r", "Petrosian.r_petrosian"])

p("C04", "Petrosian radius error is half the spread of the shifted profiles",
  "Given profile errors, the reported radius error equals half the difference between the radii found for the profile raised by its error and lowered by its error (error taken as 0 at the first sample), computed with the same eta, interpolation and sampling as the radius itself. It is NaN when no errors are given or when any of the three radii does not exist, supplying errors never changes the radius, and zero errors give a zero radius error.",
  ["inputs"], "all profiles and error arrays, all eta and interpolation settings",
  "No test inspects the radius error at all.",
  [CORE], [("calculate_petrosian_r (error block)", CORE + ":199")], ["petrofit.calculate_petrosian_r", "Petrosian.r_petrosian_err"])

p("C05", "Radius enclosing a flux fraction is read off the curve of growth",
  "The radius for a flux fraction is the sample of the interpolated curve of growth nearest to fraction x (flux at r_petrosian x epsilon) / epsilon_fraction among the samples up to and including the first one that reaches it. The answer is NaN, never an exception and never an extrapolated number, when r_petrosian is NaN, when r_petrosian x epsilon lies outside the measured radii on either side, or when the target flux is never reached. On a non-decreasing curve a larger fraction never yields a smaller radius.",
  ["inputs"], "all curves of growth, radii grids, fractions, epsilon, epsilon_fraction and r_petrosian (including NaN and out of range)",
  "Tests only evaluate the default fractions for one curve whose r_epsilon is in range.",
  [CORE, UT], [("fraction_to_r", CORE + ":226"), ("closest_value_index", UT + ":161")],
  ["petrofit.fraction_to_r", "Petrosian.fraction_flux_to_r", "Petrosian.r_total_flux", "Petrosian.r_half_light"])

p("C06", "Fraction-radius errors bracket the radius with the same settings",
  "With flux errors, the error of a fraction radius is half the difference between the radius at which the lowered curve (fluxes minus errors) reaches the raised target flux and the radius at which the raised curve reaches the lowered target flux, the target being raised and lowered by half the difference between the raised curve read at r_epsilon plus its error and the lowered curve read at r_epsilon minus its error, using the caller's interpolation kind and sampling throughout. Supplying errors never changes the radius itself and never raises: where a needed value lies outside the measured range the error is NaN. Without flux errors it is NaN, and a missing or NaN radius error counts as 0.",
  ["inputs"], "all curves with non-negative flux errors, all radius errors including ones that push r_epsilon beyond the last radius, all interpolation settings",
  "No test reads a fraction-radius error; the edge where r_epsilon plus its error leaves the measured range is never visited.",
  [CORE], [("fraction_to_r (error block)", CORE + ":330")], ["petrofit.fraction_to_r", "Petrosian.r_half_light_err", "Petrosian.r_total_flux_err"])

p("C07", "Concentration indices follow from the fraction radii",
  "A concentration index is 5*log10(r_outer / r_inner) of exactly the two radii that the fraction-radius measurement gives for the two fractions under the same settings, returned together with them in the order requested. If either radius is undefined all three values are NaN. On a non-decreasing curve with positive radii it is never negative when the outer fraction is at least the inner one, and swapping the fractions flips its sign.",
  ["inputs"], "all curves of growth, fraction pairs and settings",
  "Tests compare one curve to 5% at default fractions.",
  [CORE], [("calculate_concentration_index", CORE + ":370"), ("Petrosian.concentration_index", CORE + ":611")],
  ["petrofit.calculate_concentration_index", "Petrosian.concentration_index", "Petrosian.c2080", "Petrosian.c5090"])

p("C08", "All Petrosian object measurements are mutually consistent",
  "For every profile object, each derived quantity equals what the free measurement functions give for the object's own arrays and settings: r_epsilon = r_petrosian x epsilon, the total-flux radius is the radius of total_flux_fraction, half-light and r_50 are the radius of 0.5, c2080/c5090 are the indices of (0.2, 0.8)/(0.5, 0.9), total_flux and half_flux are the curve of growth interpolated at those radii (NaN when undefined), and total_flux_err and half_flux_err are the quadrature sum of the flux error at the nearest measured radius and the radius error; the arcsec radii are the pixel radii times the pixel size in arcsec. Every documented measurement can be read for every supported interpolation setting (given enough samples for that kind), with or without errors, without raising.",
  ["inputs", "configurations"], "all profile objects: any arrays, errors on/off, interpolation kinds including None",
  "Tests read six of the measurements at default settings; half_flux_err, interp_kind=None and error-bearing edge cases are never read.",
  [CORE], [("Petrosian properties", CORE + ":733")], ["Petrosian.*"])

p("C09", "Profile objects always reflect their current settings",
  "After any sequence of changes to eta, epsilon, epsilon_fraction, total_flux_fraction, interp_kind and interp_num, interleaved with reads of any measurements, every measurement of a profile object equals that of a fresh object constructed with the same arrays and the final settings. A shallow copy can be re-configured without affecting the original.",
  ["histories", "inputs"], "all sequences of setting changes and reads",
  "Tests never change a setting on an object after constructing it (apart from epsilon in a plot); stale state depends on the order of operations.",
  [CORE, CORR], [("property setters", CORE + ":671"), ("correct uses copy", CORR + ":459")], ["Petrosian.eta", "Petrosian.epsilon", "Petrosian.r_petrosian"],
  [dict(name="_eta/_epsilon/_epsilon_fraction/_total_flux_fraction", meaning="current settings", where=CORE)])

p("C10", "Measuring never modifies its inputs and is repeatable",
  "No measurement function or profile object modifies the arrays, lists, images, masks or error maps passed to it, and a profile object is unaffected by later changes to the arrays it was built from. Repeating any measurement gives the same result.",
  ["inputs", "histories"], "all inputs of the Petrosian, photometry and segmentation measurement functions, any order of calls",
  "Tests never compare inputs before and after, nor call a measurement twice.",
  [CORE, PH, SG, UT], [("np.array copies", CORE + ":56"), ("np.array copies", CORE + ":176"), ("deepcopy in masked_segm_image", SG + ":262")],
  ["caller's arrays after each call"])

p("C11", "Radii and indices do not depend on the flux unit or pixel unit",
  "Multiplying all fluxes (and flux errors) by any positive constant leaves the Petrosian profile, its errors, all radii, radius errors and concentration indices unchanged and multiplies total and half fluxes by that constant. Expressing radii in another unit (radii times k, areas times k squared) multiplies every radius by k and leaves the profile values and concentration indices unchanged.",
  ["inputs"], "all curves of growth and all positive unit factors",
  "It relates two runs of the whole chain; tests run each measurement once, in one unit, on one data file.",
  [CORE, UT], [("calculate_petrosian", CORE + ":23"), ("calculate_petrosian_r", CORE + ":128"), ("fraction_to_r", CORE + ":226")], ["Petrosian.*"])

# ----------------------------------------------------------------- Corrections
p("C12", "Corrections come from the nearest grid row, within range",
  "The grid row used to correct a profile is one that minimises the distance in (Petrosian radius at eta 0.2, half-light radius, C2080), each axis divided by that column's standard deviation, so a profile that matches a row exactly uses that row. With range enforcement on, a profile is refused exactly when any of the three quantities lies outside that column's minimum and maximum; with it off, none is refused.",
  ["inputs"], "all grids and all profiles, in and out of the grid's range",
  "One grid and one profile are tested, with enforcement off.",
  [CORR], [("_closest_row/_dr/_validate_input", CORR + ":421")], ["PetrosianCorrection.estimate_n", "PetrosianCorrection.estimate_epsilon"])

p("C13", "Corrected epsilon maps the profile's eta radius to the true radius",
  "The corrected epsilon of a profile is the grid row's corrected radius for the profile's epsilon_fraction (0.5, 0.8 or 0.99) divided by the row's Petrosian radius for the profile's eta (0.2, 0.3, 0.4 or 0.5); any other eta or epsilon_fraction is refused with ValueError. Correcting a profile returns a new profile with that epsilon and every other setting and array identical, and leaves the original untouched.",
  ["inputs", "configurations"], "all grid rows and all supported and unsupported (eta, epsilon_fraction) combinations",
  "Only the default combination is exercised.",
  [CORR], [("estimate_epsilon", CORR + ":473"), ("correct", CORR + ":459")], ["PetrosianCorrection.estimate_epsilon", "PetrosianCorrection.correct"])

p("C14", "Every generated correction-grid row is self-consistent",
  "In every row of a generated correction grid each named column holds what its name says for the simulated galaxy: the requested n and r_eff, the analytic enclosed-light radii, the four Petrosian radii, their concentration indices 5*log10 of the stated radius ratios, uncorrected measurements at epsilon 2, and corrected ones at the epsilon for which r_petrosian x epsilon is the radius where the measured curve of growth holds 99% of the analytic total light (80% for the 80 column). Rows come in the order of n then r_eff.",
  ["inputs", "configurations"], "all simulated curves of growth, all (n, r_eff) requests",
  "The test compares nine rows to a stored file at 1% and would accept the same mistake in columns it does not distinguish; it fixes one psf/oversample configuration.",
  [CORR], [("_generate_petrosian_correction", CORR + ":24"), ("generate_petrosian_sersic_correction", CORR + ":183")], ["returned astropy Table"])

# ------------------------------------------------------------------ Photometry
p("C15", "Elliptical apertures have the requested geometry",
  "An elliptical aperture of radius r and elongation e is centred at the requested position, has semi-major axis r along direction theta and semi-minor axis r/e; an annulus of radius r and thickness dr spans exactly the region between the apertures of radius r and r+dr of the same elongation and orientation.",
  ["inputs"], "all positions, radii, thicknesses, elongations, orientations",
  "Tests compare two areas to 1%, which does not see orientation, position or small errors in the inner edge.",
  [PH], [("radial_elliptical_aperture", PH + ":47"), ("radial_elliptical_annulus", PH + ":76")], ["petrofit.radial_elliptical_aperture", "petrofit.radial_elliptical_annulus"])

p("C16", "Radial photometry is the weighted sum over unmasked pixels",
  "For each radius, in order and independently of the other radii, radial photometry returns the overlap-weighted sum of the unmasked pixel values, the overlap-weighted count of unmasked pixels, and (if an error map is given, otherwise NaN) the square root of the overlap-weighted sum of squared unmasked errors, each to six decimals. Values in masked pixels, even NaN, never influence any result, and results are linear in the image.",
  ["inputs"], "all images, error maps and masks; apertures partly off the image (overlapping it at all); all overlap methods",
  "The only direct test uses an image of ones with no mask and no error map.",
  [PH], [("radial_photometry", PH + ":111")], ["petrofit.radial_photometry"])

p("C17", "Curves of growth never shrink for non-negative images",
  "For any non-negative image and any increasing list of radii with fixed centre, elongation and orientation, flux, area and error returned by radial photometry are non-negative and non-decreasing, the area never exceeds the number of unmasked pixels, and flux lies between the smallest and largest unmasked pixel value times the area (to rounding), for any nested aperture weighting.",
  ["inputs"], "all non-negative images, masks and nested aperture weightings",
  "Tests use one constant image; a mistake in how radii, areas and errors are paired only shows for particular images and masks.",
  [PH], [("radial_photometry", PH + ":111")], ["petrofit.radial_photometry"])

p("C18", "Source photometry measures only the target, centred on its peak",
  "Photometry of a catalogued source sums only pixels labelled as that source or (unless background is masked) unlabelled background, inside a cutout centred on the source's peak pixel, with the source's elongation and orientation: values in pixels of other sources and outside the cutout never influence the results, and the result equals direct radial photometry of the image at the peak position with those pixels masked. Background subtraction (default clipping mode) removes the model fitted to the unlabelled, unclipped pixels of that same cutout, evaluated at the same pixel positions, and nothing else; in 'bound' mode the fit excludes background pixels farther than sigma (a value, not a number of deviations) from the background mean, and subtracted pixels below -sigma are raised to -sigma. Drawing the aperture plots changes no result.",
  ["inputs"], "all images, label maps and source positions, including sources at the image edge",
  "Tests call it once without inspecting the returned values.",
  [SG, PH, FI], [("source_photometry", SG + ":504"), ("masked_segm_image", SG + ":239"), ("segm_mask", SG + ":186")], ["petrofit.source_photometry"])

# ---------------------------------------------------------------- Segmentation
p("C19", "Segmentation masks select exactly the requested labels",
  "A segmentation mask is True exactly at pixels labelled with one of the requested labels, and at unlabelled background pixels unless background masking is requested; it accepts a label or a list of labels and does not modify the list. A masked image keeps the original value where that mask is True and holds the fill value (NaN by default) everywhere else - for images whose type can hold it - and the original image is untouched.",
  ["inputs", "histories"], "all label maps, label requests and images; repeated calls with the same arguments",
  "Tests request one label once, with background kept.",
  [SG], [("segm_mask", SG + ":186"), ("masked_segm_image", SG + ":239")], ["petrofit.segm_mask", "petrofit.masked_segm_image"])

p("C20", "Catalog ordering and source accessors report the catalogue",
  "Ordering a catalogue by a column returns every index exactly once, values descending by default and ascending when not reversed. The position, elongation, ellipticity and orientation (in radians) reported for a source are those of the catalogue entry, whether it is a source object or a table row with orientation in degrees.",
  ["inputs"], "all catalogue columns and source shapes",
  "Three sources with distinct areas are tested, source objects only.",
  [SG], [("order_cat", SG + ":159"), ("get_source_*", SG + ":61")], ["petrofit.order_cat", "petrofit.get_source_position", "petrofit.get_source_theta"])

# -------------------------------------------------------------------- Modeling
p("C21", "The sampling grid subdivides each pixel evenly around its centre",
  "A sampling grid of a given size, origin and integer factor has size x factor samples per axis; the factor-by-factor block belonging to pixel (i, j) consists of evenly spaced points of spacing 1/factor whose mean is exactly (origin_x + i, origin_y + j), x varying along columns and y along rows. Non-integer factors are refused.",
  ["inputs"], "all sizes, factors, origins",
  "Three small grids are tested.",
  [MO], [("make_grid", MO + ":93")], ["petrofit.make_grid"])

p("C22", "Model image pixels are the PSF-convolved mean of their subsamples",
  "For any wrapped model, without oversampling the image pixel at (x, y) is the model at (x, y); with integer oversampling k it is the mean of the model over the k-by-k evenly spaced points of that pixel; with a PSF the image is the same-size convolution of that with the PSF (rotated by psf_pa degrees when that is not zero; sampled psf_oversample times finer and averaged back when given). This holds for every integer image origin and for rectangular images (convolved as part of the enclosing square with the same origin), and the image depends only on the model values, so it is linear in the model, repeatable, and a unit-impulse PSF changes nothing.",
  ["inputs", "configurations"], "all models (as arbitrary functions of position), image shapes and origins, oversampling and PSF oversampling factors, PSFs",
  "Tests compare a few analytic Sersic images to 1-5% tolerance; a half-subpixel shift or swapped axis at another factor or a shifted origin is inside that tolerance or never exercised.",
  [MO], [("PSFConvolvedModel2D.evaluate", MO + ":366")], ["PSFConvolvedModel2D(x, y)", "petrofit.model_to_image"])

p("C23", "An oversampling window only refines the pixels it covers",
  "With an oversampling window (x, y, size, factor) every image pixel inside the window - the size-by-size box starting at round(centre) - size//2 - holds the mean of the model over factor-by-factor points of that pixel and every pixel outside holds the value without a window, wherever the window lies relative to the image (inside, across any edge, or outside) and whatever the image origin. The window follows the model parameters it names.",
  ["inputs", "configurations"], "all window positions, sizes and factors, image shapes and integer origins, PSF oversampling, all models",
  "Tests only place the window well inside a zero-origin image.",
  [MO], [("PSFConvolvedModel2D.evaluate (window)", MO + ":446")], ["PSFConvolvedModel2D(x, y)", "petrofit.model_to_image"])

p("C24", "Oversampling settings are always mutually consistent",
  "After any sequence of assignments to the oversampling and PSF-oversampling settings of a PSF model, accepted or refused, the effective oversampling factor is a positive integer and an integer multiple of the effective PSF oversampling factor; an assignment that would break this is refused with an exception and leaves the settings as they were, and an assignment that keeps it (Python integers, windows of four values whose factor is an integer; a PSF oversampling only with a PSF) is accepted.",
  ["histories", "inputs"], "all sequences of assignments with all values",
  "Tests try a dozen fixed sequences.",
  [MO], [("oversample/psf_oversample setters", MO + ":263")], ["PSFConvolvedModel2D.oversample", "PSFConvolvedModel2D.psf_oversample"],
  [dict(name="_oversample/_psf_oversample", meaning="validated settings", where=MO)])

p("C25", "Grid caching never changes a model image",
  "Evaluating a PSF model gives the same image whatever was evaluated before on the same object - other image sizes, origins, oversampling or PSF settings, parameters, caching switched on, off or cleared - as a fresh model evaluated once.",
  ["histories"], "all sequences of evaluations and setting changes on one object",
  "Tests fit models (same grid over and over) but never alternate grids on one object and compare to a fresh one.",
  [MO], [("cached grid in evaluate", MO + ":416"), ("clear_cached_grid/cache_grid", MO + ":337")], ["PSFConvolvedModel2D(x, y)"],
  [dict(name="_cached_grid, _cached_grid_size, _cached_grid_factor, _cache_grid_range", meaning="last sampling grid and its key", where=MO)])

p("C26", "Model images have the requested size, origin and axis order",
  "A model image of size (x_size, y_size) has y_size rows and x_size columns, and its pixel in row j, column i is the model at (x_origin + i, y_origin + j), where the origin is (0, 0) without a centre and centre - size//2 per axis with one; in oversample mode each pixel is the mean of the model over factor-by-factor evenly spaced points. Sizes that are not whole numbers, or not one or two of them, are refused.",
  ["inputs"], "all models, sizes, centres",
  "Tests build square images with zero origin.",
  [FI], [("model_to_image", FI + ":174"), ("model_center_to_image_origin", FI + ":154"), ("_validate_image_size", FI + ":116")], ["petrofit.model_to_image"])

p("C27", "Fitting uses exactly the valid pixels with their own coordinates",
  "Fitting an image hands the optimiser every non-NaN pixel exactly once, with its column as x, its row as y, its own value and its own weight, and no NaN pixel; weights of another shape are refused and every option the caller gives reaches the optimiser. Background fitting hands it the pixels that survive clipping at the requested sigma, and all of them when clipping is disabled.",
  ["inputs"], "all images with any NaN pattern, all weight maps and options",
  "Tests fit images without NaN or weights and compare the recovered image to 1-5%.",
  [FI], [("fit_model", FI + ":31"), ("fit_background", FI + ":239")], ["arguments received by the fitter"])

p("C28", "Analytic Sersic light relations are mutually consistent",
  "For all positive amplitudes, radii and indices: the enclosed-flux function and its inverse undo each other, half of the total flux lies within the effective radius, enclosed flux is zero at radius 0, non-decreasing, proportional to amplitude and to the axis ratio; the ideal Petrosian profile equals pi r^2 I(r) divided by the enclosed flux of the same circular Sersic law; and the conversion of intensity between the centre and the effective radius agrees with that law in both directions.",
  ["inputs"], "all radii, amplitudes, effective radii, Sersic indices, ellipticities",
  "The formulas are only exercised through one grid-generation test at a few (n, r_eff) points at 1%.",
  [MO], [("sersic_enclosed", MO + ":606"), ("sersic_enclosed_inv", MO + ":623"), ("petrosian_profile", MO + ":648"), ("Ie_to_I0/I0_to_Ie", MO + ":32")],
  ["petrofit.sersic_enclosed", "petrofit.sersic_enclosed_inv", "petrofit.petrosian_profile", "petrofit.Ie_to_I0", "petrofit.I0_to_Ie"])

p("C29", "2D light profiles follow their defining laws",
  "The generalized Sersic profile with zero boxiness equals the standard Sersic profile, equals its amplitude at the effective radius along both principal axes for every orientation, boxiness, ellipticity and index, is symmetric under reflection through its centre and proportional to amplitude. The Nuker profile depends only on the distance from its centre, equals its amplitude at the break radius, and the core-Sersic profile equals its amplitude scale at the break radius.",
  ["inputs"], "all parameter values and positions",
  "No test evaluates these profiles.",
  [MO], [("GenSersic2D.evaluate", MO + ":531"), ("Nuker2D", MO + ":556"), ("CoreSersic2D", MO + ":572")], ["petrofit.GenSersic2D", "petrofit.Nuker2D"])

p("C30", "Wrapping a model preserves parameters, constraints and bounds",
  "Wrapping a 2D model in a PSF model exposes the model's parameters by the same names and order plus a PSF angle, starting with the same values, fixed flags and bounds (a value, or a whole dictionary of constraints, given when wrapping takes precedence); unwrapping returns a model with the wrapper's current values, flags and bounds for exactly the original parameters, and neither direction modifies the model that was wrapped.",
  ["inputs", "histories"], "all wrapped models' parameter values, fixed flags and bounds and any later changes to the wrapper",
  "Tests wrap one Sersic model and never unwrap it.",
  [MO], [("__init__/_load_parameters/model", MO + ":160")], ["PSFConvolvedModel2D.model", "PSFConvolvedModel2D.fixed", "PSFConvolvedModel2D.bounds"])

# ----------------------------------------------------------------------- Utils
p("C31", "Shape and angle conversions are exact inverses",
  "Ellipticity to elongation and back is the identity in both directions (elongation at least 1, ellipticity in [0, 1)); an ellipse of given area and elongation gets semi-axes whose product times pi is that area and whose ratio is that elongation (a circle's radius likewise); angular to pixel size and back is the identity for every angular unit and pixel scale, and one pixel equals one pixel scale.",
  ["inputs"], "all ellipticities, elongations, areas, angular sizes, pixel scales, angle units",
  "Tests try five ellipticities at 1%, and the angle test's comparison is not asserted.",
  [UT], [("ellip_to_elong/elong_to_ellip", UT + ":40"), ("elliptical_area_to_r/circle_area_to_r", UT + ":117"), ("angular_to_pixel/pixel_to_angular", UT + ":88")],
  ["petrofit.ellip_to_elong", "petrofit.elong_to_ellip", "petrofit.elliptical_area_to_r", "petrofit.pixel_to_angular", "petrofit.angular_to_pixel"])

p("C32", "AB magnitudes follow the header zero point for every flux type",
  "The AB magnitude of a positive flux is -2.5 log10(flux) plus the zero point -2.5 log10(PHOTFLAM) + PHOTZPT - 5 log10(PHOTPLAM) + 18.692, for Python numbers, NumPy scalars, lists and arrays of integers or floats alike; non-positive fluxes give NaN in their own position only, and the caller's array is not modified.",
  ["inputs"], "all fluxes in all numeric containers, all headers",
  "One positive Python int is tested to two decimals.",
  [UT], [("hst_flux_to_abmag", UT + ":65")], ["petrofit.hst_flux_to_abmag"])

p("C33", "Natural sorting orders embedded numbers by value",
  "Natural sorting returns a permutation of its input, stable for equal keys, comparing digit runs by numeric value regardless of leading zeros and other text case-insensitively; it accepts any mix of strings and numbers without raising and does not modify the input list.",
  ["inputs"], "all lists of strings and numbers",
  "One list of five similar strings is tested.",
  [UT], [("natural_sort", UT + ":33")], ["petrofit.natural_sort"])

p("C34", "Cutout subtraction removes the cutout at its own position only",
  "Subtracting a cutout centred at (x, y) changes exactly the image pixels the cutout covers - those from centre - size//2 for as many pixels as the cutout has, on each axis - each by the cutout pixel at that position; parts of the cutout that fall outside the image are ignored, for odd and even sizes and centres near or beyond any edge.",
  ["inputs"], "all image and cutout shapes, parities, contents and integer centres",
  "The function has no test.",
  [UT], [("cutout_subtract", UT + ":207")], ["petrofit.cutout_subtract"])

p("C35", "Resampling and nearest-value search honour their contract",
  "Resampling a curve gives evenly spaced positions from the smallest to the largest input position, both included, as many as requested and never fewer than the input has, with the interpolant's values there, so data points that fall on samples are reproduced; with no kind it returns the data unchanged. The nearest-value search returns None exactly when nothing is at or beyond the value in the search direction, otherwise the first of the nearest elements up to and including the first such element.",
  ["inputs"], "all curves, sampling numbers, interpolation kinds; all arrays and values including NaN",
  "Tests try two arrays and one curve.",
  [UT], [("get_interpolated_values", UT + ":129"), ("closest_value_index", UT + ":161")], ["petrofit.get_interpolated_values", "petrofit.closest_value_index"])

p("C36", "Radius lists reach exactly the requested maximum",
  "A radius list of n entries up to a maximum has exactly n strictly increasing positive radii ending at the maximum; linear lists are evenly spaced multiples of maximum/n, logarithmic lists start at 1 and have a constant ratio.",
  ["inputs"], "all maxima and lengths, linear and logarithmic",
  "Three (max, n) pairs are tested.",
  [UT], [("make_radius_list", UT + ":57")], ["petrofit.make_radius_list"])

p("C37", "Plots show the measured values",
  "Petrosian.plot and plot_cog draw the profile's own radii, values and (only when it has them) errors, with one line and one point at each defined measured radius and none at undefined ones, on the axes they were given, which they return; Petrosian.imshow draws one ellipse of the given position, elongation and orientation per defined radius; plot_target draws the image's pixels, one mark at the given position and a window of the given size around it. No plot raises for any settings, errors or holder type.",
  ["inputs", "configurations"], "all measured values, settings, error combinations, axes, images and positions",
  "Plots are not tested beyond being called.",
  [CORE, UT], [("Petrosian.plot", CORE + ":952"), ("Petrosian.plot_cog", CORE + ":1082"), ("Petrosian.imshow", CORE + ":1226"), ("plot_target", UT + ":169")], ["Petrosian.plot", "Petrosian.plot_cog", "Petrosian.imshow", "petrofit.plot_target"])

p("C38", "Fit displays and FWHM measurements report the fit",
  "plot_fit returns and draws, in this order, the data, the model rendered on the image's own pixel grid (honouring centre and sampling mode) and residual = data - model, for arrays and image objects; fit_gaussian2d starts from the brightest valid pixel's value at the middle pixel with every parameter free and returns the fitted model; measure_fwhm returns the fitted x and y standard deviations times 2*sqrt(2 ln 2), in that order, for every plot and printout setting. None of them changes the image.",
  ["inputs", "configurations"], "all images with and without NaN pixels, all models, centres and modes, all fitted Gaussians",
  "One call of plot_fit is tested for its last result; the others are not tested.",
  [FI], [("plot_fit", FI + ":337"), ("fit_gaussian2d", FI + ":302"), ("measure_fwhm", FI + ":486")], ["petrofit.plot_fit", "petrofit.fit_gaussian2d", "petrofit.measure_fwhm"])

p("C39", "Catalogues describe the requested segmentation of the caller's image",
  "make_catalog (and make_segments, deblend_segments on their own) hand the image's pixels, threshold, npixels, nlevels, contrast and sky coordinates to detection, deblending and cataloguing exactly as given, whatever holds the image; the deblended map is made from the detected one and the catalogue describes the deblended map if deblending was requested and the detected map otherwise; the three results returned are those objects; plotting changes nothing; neither the catalogue nor plot_segment_residual changes the image.",
  ["inputs", "configurations"], "all images, thresholds, options and plot settings",
  "One image is segmented with one set of options.",
  [SG], [("make_catalog", SG + ":371"), ("make_segments", SG + ":289"), ("deblend_segments", SG + ":321"), ("plot_segment_residual", SG + ":56")], ["petrofit.make_catalog", "petrofit.make_segments", "petrofit.deblend_segments"])

p("C40", "Default fit bounds are fresh, physical and overridable",
  "get_default_sersic_bounds and get_default_gen_sersic_bounds return a new dictionary on every call with amplitude >= 0, r_eff >= 0.001, 0.1 <= n <= 10, 0 <= ellip <= 0.99, |theta| <= 2 pi and (generalised only) 0 <= c_0 <= 2, except that every override given replaces the default of that parameter; earlier calls, changes to earlier results and other overrides have no effect, and the caller's override is left as it was.",
  ["inputs", "histories"], "all overrides and all sequences of calls",
  "Bounds are used once per test with one override.",
  [MO], [("get_default_sersic_bounds", MO + ":73"), ("get_default_gen_sersic_bounds", MO + ":86")], ["petrofit.get_default_sersic_bounds", "petrofit.get_default_gen_sersic_bounds"])

p("C41", "Correction grids are complete, ordered and never lost",
  "generate_petrosian_sersic_correction returns one row per (n, r_eff) pair, n-major in the order given, with the same contents for every number of processes and every form of the lists; with a file name it saves that same table once under that name, format and overwrite choice, an existing file survives unless overwriting was requested, and the grid is returned even if saving fails; filter_grid returns exactly the rows with the given value in order, unique_grid_values the sorted distinct values; read and write pass the file and format through and keep the grid.",
  ["inputs", "configurations"], "all grids, process counts, file states and cell values",
  "One serial grid is generated; filtering and failing writes are not tested.",
  [CORR], [("generate_petrosian_sersic_correction", CORR + ":183"), ("PetrosianCorrection.filter_grid", CORR + ":411"), ("PetrosianCorrection.read", CORR + ":390")], ["petrofit.generate_petrosian_sersic_correction", "PetrosianCorrection.filter_grid", "PetrosianCorrection.unique_grid_values"])

p("C42", "Isophotal amplitudes and sky matches are asked for the caller's geometry",
  "get_amplitude_at_r fits the isophote at exactly the given radius, centre, ellipticity and angle of the image's pixels (whatever holds them) and returns its intensity, or NaN with a warning if the fit fails, never an exception; match_catalogs looks for the nearest neighbour in the second catalogue of each position of the first, each from its own right ascensions and declinations in the given unit. Nothing given is changed.",
  ["inputs"], "all radii, geometries, images, positions and units",
  "One amplitude on one model image is tested; matching is not tested.",
  [SG, UT], [("get_amplitude_at_r", SG + ":101"), ("match_catalogs", UT + ":78")], ["petrofit.get_amplitude_at_r", "petrofit.match_catalogs"])

p("C43", "An argument left out means its documented default",
  "Leaving out an optional argument of a public function, constructor or method gives the same result as passing its documented default (eta 0.2, epsilon 2, epsilon_fraction and total_flux_fraction 0.99, cubic resampling to 5000 points, fractions 0.2/0.8 and 0.5, circular unrotated apertures, exact overlap, descending area order, background kept, NaN fill, sigma 3, centred rendering at factor 1, ...), whichever others are given; and arguments given by position in the documented order give the same result as by name.",
  ["inputs"], "all inputs, for every optional argument left out alone and all left out together",
  "Tests use one call form per function and never compare it with the spelled-out call.",
  [CORE, PH, SG, UT, FI, MO], [("calculate_petrosian_r", CORE + ":130"), ("fraction_to_r", CORE + ":224"), ("Petrosian.__init__", CORE + ":484"), ("radial_photometry", PH + ":111"), ("source_photometry", SG + ":487")], ["petrofit.Petrosian", "petrofit.radial_photometry", "petrofit.source_photometry"])

p("C44", "PetroApprox agrees with the Sersic law it approximates",
  "For every Sersic index from 0.5 to 4.5, c2080_to_n of the law's corrected concentration index gives n within 0.01 and increases with it; u2080_to_c2080 of the uncorrected index (measured inside epsilon = 2 Petrosian radii at eta 0.2) gives the corrected one within 0.1 and increases with it; n_to_epsilon gives the epsilon that encloses 99% of the flux within 0.5% + 0.02, and p0502_to_epsilon gives it from the ratio of the Petrosian radii at eta 0.2 and 0.5 within 2.5% + 0.02. Arrays are converted element by element.",
  ["inputs"], "every Sersic index in the range the approximations are made for",
  "Tests convert no more than a few values, against numbers rounded to one digit.",
  [MO], [("PetroApprox.n_to_epsilon", MO + ":747"), ("PetroApprox.c2080_to_n", MO + ":733"), ("PetroApprox.u2080_to_c2080", MO + ":719"), ("PetroApprox.p0502_to_epsilon", MO + ":761")], ["petrofit.modeling.PetroApprox"])

p("C45", "Overlay plots show the data, apertures and grid rows they are given",
  "plot_apertures draws the image (if given, with the limits given) once and every aperture once on the current axes; plot_segments draws the label map over the image; plotting in radial_photometry and source_photometry leaves every result unchanged and shows the image; plot_correction draws the correction grid in three panels (Petrosian radius, half-light radius and concentration index against each other, coloured by the key), the galaxy's own measurements in each, joined to the very grid row the correction uses, in the panels given. Nothing drawn is changed.",
  ["inputs", "configurations"], "all images, label maps and measurements",
  "Tests only call the plotting functions; none looks at what is drawn.",
  [CORR, PH, SG], [("PetrosianCorrection.plot_correction", CORR + ":626"), ("plot_apertures", PH + ":15"), ("plot_segments", SG + ":37"), ("radial_photometry", PH + ":108")], ["petrofit.plot_apertures", "petrofit.plot_segments", "PetrosianCorrection.plot_correction"])

# -------------------------------------------------- outside the technique's reach
p("N01", "Fitting recovers the parameters that generated an image",
  "Fitting a noiseless image generated from a model, starting near the truth, returns parameters within tolerance of the truth.",
  ["inputs"], "all generating parameters and starting points", "Two parameter sets are tested.",
  [FI, MO], [("fit_model", FI + ":31")], ["petrofit.fit_model"])
p("N02", "Detected sources are connected above-threshold regions",
  "Segmentation marks exactly the connected regions of at least npixels pixels above the threshold, and deblending only splits them.",
  ["inputs"], "all images and thresholds", "One image is tested.",
  [SG], [("make_segments/deblend_segments", SG + ":276")], ["petrofit.make_segments", "petrofit.deblend_segments"])
p("N03", "Isophotal amplitude is the mean intensity on the ellipse",
  "The amplitude at radius r is the mean image intensity along the fitted elliptical isophote of that radius, or NaN with a warning if it cannot be fitted.",
  ["inputs"], "all images and ellipses", "One image and radius are tested.",
  [SG], [("get_amplitude_at_r", SG + ":93")], ["petrofit.get_amplitude_at_r"])
p("N04", "Catalog matching pairs nearest neighbours on the sky",
  "Matching two catalogues returns for each object of the first the index of the nearest object of the second on the sphere.",
  ["inputs"], "all coordinate lists", "One triple is tested.",
  [UT], [("match_catalogs", UT + ":81")], ["petrofit.match_catalogs"])
p("N05", "Correction grids survive a write and read round trip",
  "A correction grid written to a file and read back gives the same corrections.",
  ["inputs", "configurations"], "all grids and table formats", "Reading one stored file is tested.",
  [CORR], [("PetrosianCorrection.read/write", CORR + ":382")], ["PetrosianCorrection.read", "PetrosianCorrection.write"])
p("N06", "Parallel grid generation equals serial generation",
  "Generating a correction grid with several processes gives the same rows in the same order as with one.",
  ["schedules", "configurations"], "all process counts and schedules", "Only serial generation is tested.",
  [CORR], [("generate_petrosian_sersic_correction", CORR + ":183")], ["returned Table"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
