"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLM, SIM, LIB, PRO, WIN, BE, AN, CT, SA = ("pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/_lib.py", "pySLM2/profile.py",
                                           "pySLM2/window.py", "pySLM2/_backend.py", "pySLM2/analysis.py",
                                           "pySLM2/util/controller.py", "pySLM2/util/sample.py")
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


prop("C01", "Fourier-plane coordinates of every pixel",
     "The published Fourier-plane grid gives, for the pixel in row i and column j, x = (j - Nx/2) and y = (Ny/2 - i) times the "
     "pixel size, in arrays of shape (Ny, Nx) and in the selected precision, for every modulator and device model. A simulation's "
     "padded grid continues these coordinates by the padding on each side, so that the unpadded coordinates sit in its middle. "
     "Pixel index and coordinate conversions agree with the grid, and modulators existing side by side never get each other's grid.",
     ["inputs", "configurations", "histories"], "all chip sizes, pixel sizes, paddings, precisions; any order of reading several "
     "modulators", "the tests compare one or two fixed geometries; the law must hold for odd, single-row, non-square and padded "
     "grids and for several live devices sharing caches", [SLM, SIM],
     [("pixel index to coordinate conversion", SLM + ":_convert_pixel_index_to_dmd_coordinate"),
      ("cached grids", SLM + ":_fourier_plane_grid"), ("padded grid", SIM + ":_fourier_plane_padded_grid")],
     ["SLM.fourier_plane_grid", "SLMSimulation.fourier_plane_padded_grid"],
     "property-based testing: random geometry against a closed-form model; histories over several devices",
     "random geometries up to 4e3 cases plus the full-size models, tolerance a few ulps")
prop("C02", "Image-plane coordinates and pixel areas",
     "The image-plane grid is the centred discrete frequency grid scaled by wavelength times focal length: the optical axis (0, 0) "
     "is at column Nx//2 and row Ny//2, x grows with the column, y falls with the row, and the spacing is wavelength times focal "
     "length over pixel count times pixel size. A simulation with padding uses the padded pixel counts. The reported Fourier and image "
     "pixel areas equal the product of the respective grid spacings.",
     ["inputs", "configurations", "histories"], "all chip sizes (odd and even), paddings, wavelengths, focal lengths",
     "tests look at one even-sized device without a model for odd sizes, padding and several devices", [SLM, SIM],
     [("image plane grid", SLM + ":_image_plane_grid"), ("padded image grid", SIM + ":_image_plane_padded_grid"),
      ("pixel areas", SIM + ":image_plane_pixel_area")],
     ["SLM.image_plane_grid", "SLMSimulation.image_plane_padded_grid", "image_plane_pixel_area", "fourier_plane_pixel_area"],
     "property-based testing: random geometry against a closed-form model", "random geometries, tolerance a few ulps")
prop("C03", "Propagation equals the Fourier integral of the modulated, padded field",
     "After propagating any input field, the image-plane field is 1/(wavelength*focal length) times the sum over the pixels of input "
     "field times modulation times exp(+2 pi i (x x' + y y')/(wavelength*focal length)) times pixel area, evaluated on the padded image "
     "grid, with the phase of the field referred to pixel (Ny//2, Nx//2) of the unpadded chip, which is the origin of the Fourier-plane grid on even chips and half a pixel from it on odd ones. The modulation is the mirror state (grey values included) for a DMD and exp(i phase) for a phase-only SLM, and the reported input and "
     "output fields are the padded fields before and after the modulator. This holds for every modulator, padding, input form, precision and "
     "FFT implementation.",
     ["inputs", "configurations"], "all complex fields, modulator states, geometries, paddings, FFT implementations, both precisions",
     "tests propagate a few Gaussians and compare centre values or power; sign, orientation, centring and phase conventions for "
     "arbitrary fields are not reached", [SIM, SLM, LIB],
     [("propagation", SIM + ":propagate_to_image"), ("DMD modulation", SLM + ":DMD._state_tensor"),
      ("LCOS modulation", SLM + ":LCOS_SLM._state_tensor"), ("FFT wrappers", LIB + ":_inverse_fourier_transform")],
     ["input_field", "output_field", "image_plane_field"],
     "property-based testing: differential against direct summation in double precision",
     "random complex fields on chips up to about 24 x 24 compared over the whole plane, full-size devices at probe points")
prop("C04", "Energy accounting: powers are consistent and conserved",
     "The reported powers equal the sum of the respective intensity times the respective pixel area, and every reported intensity is the squared modulus of "
     "the reported field. Output power and image-plane power are equal for every state, padding and beam; input and output power are equal for "
     "a phase-only modulator and for a DMD with all mirrors on, and complementary mirror patterns split the input power.",
     ["inputs", "configurations"], "all fields, states, paddings, geometries", "tests check one beam; conservation needs all "
     "geometries and paddings", [SIM, SLM],
     [("powers", SIM + ":get_image_plane_power"), ("intensity", SIM + ":_field_to_intensity"),
      ("normalisation", SIM + ":propagate_to_image")],
     ["get_input_power", "get_output_power", "get_image_plane_power", "*_intensity"],
     "property-based testing: conservation invariants over random fields and states", "random fields and states, relative tolerance "
     "from rounding only")
prop("C05", "A simulation result is a snapshot of its own propagation",
     "The fields, intensities and powers reported by a simulation are those of its latest propagation (with the blocks applied since), "
     "whatever happens afterwards to the modulator, to the arrays handed in or out, or to other simulations. Before the first propagation and "
     "after clearing, every field and intensity is reported as absent and the zeroth-order block is refused with an error.",
     ["histories"], "all histories of propagate, clear, block, modulator changes and buffer reuse over several simulations and modulators",
     "unit tests run one propagation on one simulation; interleavings are not sampled", [SIM, SLM],
     [("stored results", SIM + ":propagate_to_image"), ("clear", SIM + ":clear"), ("block precondition", SIM + ":block_zeroth_order")],
     ["input_field", "output_field", "image_plane_field", "*_intensity", "clear"],
     "stateful (model-based) property testing", "histories of up to 16 operations over up to 4 simulations, compared after every step")
prop("C06", "The zeroth-order block removes exactly the disc around the axis",
     "Blocking the zeroth order sets the image-plane field to zero at exactly the points closer to the optical axis than the radius and leaves every "
     "other point and the input and output fields untouched. Without an explicit radius it is half the distance to the first diffraction order. The operation is idempotent, "
     "and blocking with several radii equals blocking with the largest.",
     ["inputs", "histories"], "all fields, paddings, radii, sequences of blocks", "one test with one radius", [SIM],
     [("block", SIM + ":block_zeroth_order")], ["image_plane_field", "image_plane_intensity"],
     "property-based testing: pointwise model and metamorphic relations", "random fields and radii; points within rounding of the rim are "
     "not decided")
prop("C07", "The grey-scale hologram puts exactly the target into the first order",
     "With the grey-scale method, the first diffraction order of the DMD illuminated by the given input field is, up to one positive factor, the "
     "field whose image is the target: after demodulating the grating carrier, input times hologram equals the (windowed) "
     "inverse transform of the target in amplitude and phase at every pixel. This holds for complex inputs with aberrations, complex targets, windows, both diffraction "
     "orders, every grating and both precisions, and equally for phase maps passed directly to the grating.",
     ["inputs", "configurations"], "all complex beams and targets, windows, orders, gratings", "tests check a few smooth real beams through intensity; phase of "
     "the created field and aberration correction are not checked for arbitrary input", [SLM, LIB],
     [("amplitude and phase of the target", SLM + ":_calc_amp_phase"), ("grating law", LIB + ":_calculate_dmd_grating_ideal"),
      ("entry point", SLM + ":calculate_dmd_state")], ["dmd_state", "image_plane_field"],
     "property-based testing: phase-stepping isolates the first order, compared with a double precision transform of the target",
     "random complex scenes on small even chips; pixels where the target's transform is rounding noise get a matching tolerance")
prop("C08", "The reported mode-matching efficiency is exact",
     "The number returned by the hologram calculation is the largest factor eta for which eta times the target's field nowhere exceeds the input beam: the target created in the "
     "first order (half the carrier depth taken out) is eta times the requested one; it scales as input over target, does not depend on method, phases or grating, and with a window only "
     "pixels inside it count. Scaling input or target leaves the hologram unchanged, and dark input pixels never make the result undefined. Unknown methods are refused and leave the mirrors as they "
     "were.",
     ["inputs", "configurations"], "all beams, targets, windows, scalings, methods", "tests do not vary scale, window or dark pixels", [SLM],
     [("efficiency", SLM + ":calculate_dmd_state"), ("normalisation", SLM + ":_calc_amp_phase")], ["calculate_dmd_state return value", "dmd_state"],
     "property-based testing: reference value, scaling laws and invariances", "random scenes; relative tolerance from rounding")
prop("C09", "Pixel law of grey-scale and thresholded gratings",
     "With the grey-scale method each mirror value is amp*(cos(2 pi (x cos(theta) + y sin(theta))/period - s (phase_out - phase_in)) + 1)/2, with s = 1 for the "
     "positive and s = -1 for the negative order and the period counted in pixels; with the thresholding method a mirror is on exactly when that value exceeds one half. Amplitude and "
     "phases may be numbers, arrays, tensors, lists or profile objects, and defaults are full amplitude and flat phases.",
     ["inputs", "configurations", "histories"], "all geometries, gratings, orders, amplitude and phase maps and their forms; several devices",
     "tests compare shapes and one grating", [LIB, SLM],
     [("grating phase", LIB + ":_grating_phase"), ("law", LIB + ":_calculate_dmd_grating_ideal"), ("threshold", LIB + ":_calculate_dmd_grating_simple")],
     ["dmd_state"], "property-based testing: closed-form pixel law in double precision", "random maps; mirrors within rounding of the threshold are not decided")
prop("C10", "Random binarization follows its probability law",
     "With the random method every mirror is switched independently, on with probability (tanh(r(p + w)) - tanh(r(p - w)))/2, where w = arcsin(amp), p in [0, pi] is the folded grating "
     "phase including the phase difference and order, and r the steepness (default 10). Repeated calls draw fresh mirrors, the mean over draws converges to the law, and "
     "draws at different mirrors or calls are uncorrelated.",
     ["inputs", "configurations"], "all amplitude and phase maps, orders, steepness values, entry points", "a test can only check that the state is boolean", [LIB, SLM],
     [("probability", LIB + ":_calculate_dmd_grating_random")], ["dmd_state"],
     "property-based testing with statistical oracles (7 sigma)", "statistical: distortions of the law below a few percent at isolated mirrors cannot be seen; false alarm rate below 1e-9 per run")
prop("C11", "Iterative Fourier binarization reproduces the reference iteration",
     "The iterative method returns a binary hologram equal to that of the documented iteration: the scaled grey-scale hologram is binarized with a threshold moving linearly to one half over N steps, "
     "and in each step the image-plane field inside the signal window is replaced by the ideal one while outside it stays free. Inside the window its error is no larger than the reference iteration's, and "
     "mirrors without light stay off. N, scaling, both orders, every form of window and the reported efficiency are honoured.",
     ["inputs", "configurations"], "all beams, targets, windows, N, scalings, orders, FFT implementations", "tests only run it once for shape", [LIB, SLM],
     [("iteration", LIB + ":_calculate_dmd_grating_ifta"), ("binarization", LIB + ":_ifta_binarize_hologram"), ("window", LIB + ":_ifta_correct_profile")],
     ["dmd_state", "calculate_dmd_state return value"], "property-based testing: differential against a double precision reference iteration",
     "mirror-by-mirror in double precision up to chaotic near ties; single precision judged by error in the window")
prop("C12", "Circular patches change only their disc and show the requested grating",
     "Drawing a circular patch changes exactly the mirrors whose centre is closer than d/2 to the given (row, column) position; these show the same grating a full-frame call with the same amplitude, phases and method "
     "shows, and all others keep their value. Disjoint patches commute, later patches overwrite earlier ones, and number type of centre and diameter does not matter. Grey-scale patches keep their grey values.",
     ["inputs", "histories"], "all positions (also outside the chip), diameters, methods, maps, sequences of patches", "one test draws one patch", [SLM],
     [("mask", SLM + ":_circular_mask"), ("patch", SLM + ":circular_patch")], ["dmd_state"],
     "stateful property testing against a mirror model", "histories of patches, resets and assignments compared mirror by mirror")
prop("C13", "Mirror state and its packed bytes",
     "A new DMD has all mirrors off, switching all on or off sets every mirror, and states can be edited mirror by mirror; binary states are boolean arrays of shape (Ny, Nx). Packing gives the mirrors row by row, first mirror in the most significant "
     "bit, zero padded to whole bytes, for every size and memory layout, and leaves the state as it is. Packing a state that is not boolean is refused with a type error.",
     ["inputs", "histories"], "all masks, sizes, layouts, state types", "one test compares a length", [SLM],
     [("packing", SLM + ":pack_dmd_state"), ("reset", SLM + ":set_dmd_state_on")], ["dmd_state", "pack_dmd_state"],
     "property-based testing: independent bit packer and round trip", "random masks, layouts and sizes; full-size chips")
prop("C14", "Gerchberg-Saxton phase holograms create the target",
     "The phase hologram found by the GS method, shown on the phase-only SLM and illuminated by the given (possibly aberrated) input, creates the target amplitude in the simulated image plane as well as the documented iteration does, in the right place and orientation. A single bright target pixel is reached "
     "exactly, more iterations never end up worse on the whole, the state is a real phase map of the chip's shape, and resetting clears it. Unknown methods are refused and leave the state untouched.",
     ["inputs", "configurations"], "all beams with phase, asymmetric targets, iteration counts, geometries", "tests check shape only; a mirrored target or an ignored input phase passes them", [LIB, SLM],
     [("iteration", LIB + ":_calculate_lcos_slm_hologram_gs"), ("entry point", SLM + ":calculate_hologram"), ("modulation", SLM + ":LCOS_SLM._state_tensor")],
     ["slm_state", "image_plane_field"], "property-based testing: exact single-spot oracle and differential quality against a reference iteration",
     "the method starts from random phases, so quality is compared between populations of runs with wide margins")
prop("C15", "MRAF phase holograms create the target inside the signal window",
     "The MRAF method creates the target amplitude inside the signal window at least as well as the documented iteration (mixing factor times target inside, one minus mixing factor times the free field outside) and with comparable share of light in the window. With default settings it is closer to the "
     "target inside the window than GS. The window may be given in any form and is placed in image-plane coordinates.",
     ["inputs", "configurations"], "all beams, targets, windows, mixing factors, iteration counts", "tests check shape only", [LIB, SLM],
     [("iteration", LIB + ":_calculate_lcos_slm_hologram_mraf"), ("entry point", SLM + ":calculate_hologram")], ["slm_state", "image_plane_field"],
     "property-based testing: differential quality against a reference iteration", "targets carry the power of the beam; populations of runs compared with wide margins")
prop("C16", "Gaussian beam profiles equal their closed forms",
     "Hermite-Gaussian, Laguerre-Gaussian and super-Gaussian profiles evaluate at every point to their documented closed form (Hermite-Gauss with physicists' polynomials of sqrt(2) x/w; Laguerre-Gauss with phase exp(-i l phi); super-Gaussian exp(-(r^2/w^2)^P)) for every centre, amplitude, width and "
     "order. They are finite everywhere, real or complex of the selected precision, and different modes of equal width are orthogonal.",
     ["inputs", "configurations"], "all parameters, orders, evaluation points and array shapes", "tests check order 0 or 1 at a few points", [PRO],
     [("Hermite-Gauss", PRO + ":HermiteGaussian._func"), ("Laguerre-Gauss", PRO + ":LaguerreGaussian._func"), ("super-Gauss", PRO + ":SuperGaussian._func")],
     ["profile(x, y)"], "property-based testing: closed forms through scipy in double precision", "orders up to 8, tolerance proportional to the sum of moduli of the terms")
prop("C17", "Zernike profiles are the OSA/ANSI polynomials",
     "A Zernike profile evaluates to amplitude times the OSA/ANSI polynomial of radial order n and azimuthal order m (cosine for m >= 0, sine for m < 0) of the radius relative to the aperture; with normalisation its mean square over the aperture is the squared amplitude, without it the "
     "radial part is 1 at the rim. Outside the aperture it is zero unless extrapolation is asked for, inside both agree. Invalid index pairs are refused, and radius, orders, amplitude and normalisation read back.",
     ["inputs", "configurations"], "all valid and invalid indices, radii, amplitudes, flags, points", "tests list a handful of indices", [PRO],
     [("radial polynomial", PRO + ":Zernike.__init__"), ("evaluation", PRO + ":Zernike._func")], ["Zernike(x, y)", "n", "m", "radius", "a"],
     "property-based testing: Jacobi polynomial reference, numerical orthonormality", "radial order up to about 12 in single precision")
prop("C18", "Arithmetic of profiles is pointwise arithmetic",
     "Adding, subtracting, multiplying, dividing, negating and raising to powers combines profiles and numbers pointwise: the result at every point is the arithmetic of the operands' values there, for every nesting, and promotes real with complex operands to "
     "complex. Combining leaves the operands unchanged. The result can be evaluated at numbers, lists and arrays of any shape.",
     ["inputs", "programs"], "all expressions over all profile types, numbers and evaluation points", "tests check single operators on two profiles; expressions form an infinite space", [PRO],
     [("operators", PRO + ":_make_attribute_func")], ["profile(x, y)"], "property-based testing: random expression trees against a double precision interpreter with error bounds",
     "expressions up to depth 3 or so; points where the error bound is not finite (division near zero) are not decided")
prop("C19", "Geometric transforms of profiles follow their documented relations",
     "rotated(x, y) = original(x cos t - y sin t, x sin t + y cos t), shifted(x, y) = original(x - dx, y - dy), rescaling divides one coordinate by the factor, and the complex form is exp(i original); chains of transforms compose in that sense in any order, for "
     "every profile type. A transform followed by its inverse is the identity, and the original stays as it was.",
     ["inputs", "programs"], "all chains of transforms of all profile types, all angles, offsets, (negative) factors", "tests check single transforms of one Gaussian", [PRO],
     [("rotate", PRO + ":rotate"), ("shift", PRO + ":shift"), ("rescale", PRO + ":rescale_x"), ("complex form", PRO + ":as_complex_profile")], ["profile(x, y)"],
     "property-based testing: random transform chains against a coordinate interpreter; inverse relations", "chains of up to five transforms")
prop("C20", "Profile parameters are live",
     "Changing a parameter of a profile (centre, width, amplitude, power, radius, constant) takes effect at once in the profile and in everything built on it, before or after the change: expressions, transforms, tensors sampled on a modulator, simulations and gratings. The parameter reads back exactly "
     "what was set, in the selected precision, other parameters keep their values, and a value read earlier stays what it was, so that handing it back restores the profile.",
     ["histories"], "all sequences of evaluations and parameter changes over shared profiles", "tests change a parameter of a plain profile at most once; stale traces appear only after evaluate-change-evaluate on composites", [PRO, WIN, SLM],
     [("variables behind the parameters", PRO + ":HermiteGaussian.x0"), ("composites hold the operand, not its value", PRO + ":_make_attribute_func"), ("windows", WIN)],
     ["profile(x, y)", "profile_to_tensor", "propagate_to_image"], "stateful property testing: expressions over shared leaves, re-evaluated by an interpreter after each change",
     "histories of up to five changes over up to three shared leaves")
prop("C21", "Windows are exact indicator functions",
     "A rectangular window is 1 at the points with |x - x0| < wx/2 and |y - y0| < wy/2 and 0 elsewhere (rim excluded); a circular window is 1 at the points with distance at most r from its centre (rim included) and 0 elsewhere. This holds for points exactly on the rim and after any parameter is changed.",
     ["inputs", "histories"], "all centres, sizes, points (rim points exactly representable), parameter changes", "tests use a few interior points", [WIN],
     [("rectangle", WIN + ":RectangularWindowRectangle._func"), ("circle", WIN + ":RectangularWindowCircular._func")], ["window(x, y)"],
     "property-based testing: exact indicator on dyadic coordinates", "exact at the rim on dyadic numbers, up to rounding elsewhere")
prop("C22", "Every accepted form of a profile argument means the same field",
     "A field given as a number (Python or numpy), nested list, array of any real, integer or complex type, tensor or profile object is converted to the same tensor of shape (Ny, Nx) and of the selected real or complex precision: numbers fill the plane, arrays are taken as they are, profile objects are sampled at the pixel coordinates of the Fourier or image plane as "
     "requested. Holograms, efficiencies and simulations do not depend on the form.",
     ["inputs", "configurations"], "all forms, types, planes, shapes, precisions", "tests cover arrays and one profile", [SLM],
     [("conversion", SLM + ":profile_to_tensor")], ["profile_to_tensor", "calculate_dmd_state", "propagate_to_image"],
     "property-based testing: differential between forms and against the grid model", "all listed forms; complex data where a real field is asked for are outside the domain")
prop("C23", "The precision is chosen once, before first use, and everything follows it",
     "The precision can be set to 32 or 64 bits (tensor types, numpy types or names) any number of times before first use; other values are refused without effect, and after anything was created or the precision read, any attempt to set it is refused without effect. The default is 32 bits, complex and integer types match it, and all grids, profiles, "
     "fields, intensities and grey-scale holograms have and numerically reach that precision. Both precisions agree on the same scene to single-precision accuracy.",
     ["configurations", "histories"], "all histories of settings and first uses, each in a fresh copy of the package", "a test process has one configuration", [BE, PRO, SLM, SIM],
     [("configuration", BE + ":_BackEnd.dtype")], ["BACKEND", "dtypes of all results"], "stateful property testing with a fresh package per case; differential between precisions",
     "histories of up to 7 settings; accuracy checked on small scenes")
prop("C24", "The FFT implementation never changes a result",
     "Choosing the numpy or the TensorFlow FFT, and switching between them at any time, also after first use of the same objects, changes no result beyond rounding: simulated fields, holograms, efficiencies and iterative methods agree. The choice reads back.",
     ["configurations", "histories"], "all histories of switches and computations over all shapes", "tests run with the default implementation", [LIB, BE],
     [("FFT selection at run time", LIB + ":_fourier_transform"), ("selection variable", BE + ":fft_backend")], ["image_plane_field", "dmd_state", "calculate_dmd_state return value", "slm_state"],
     "stateful property testing: differential between implementations and against direct summation", "odd and even shapes; iterative binarization compared in double precision")
prop("C25", "Zernike decomposition is the projection onto the ANSI enumeration",
     "The single index j maps to radial order n and azimuthal order m with j = (n(n+2)+m)/2, one to one for all j. Decomposing a phase map gives, for each of the requested terms in that order, the mean over the pixels strictly inside the aperture of map times normalised polynomial, with coordinates counted in pixels from the centre of the map and y upwards; "
     "the optional reconstruction is the sum of coefficient times polynomial. A map made of such polynomials gives its coefficients back up to sampling error, what the map holds outside the aperture, undefined values included, has no influence, and the map is not modified.",
     ["inputs"], "all indices up to 10^10; all maps, shapes, apertures, numbers of terms", "tests use one map", [AN, PRO],
     [("index", AN + ":ansi_j_to_n_m"), ("projection", AN + ":zernike_decomposition")], ["ansi_j_to_n_m", "zernike_decomposition"],
     "property-based testing: bijection, double precision projection, recovery", "orders up to 21 terms; recovery up to discretisation error")
prop("C26", "Removing the trivial phase removes exactly piston, tilt and optionally defocus",
     "Removing the trivial phase subtracts, one after the other, the projections (means over the pixels strictly inside the aperture) onto piston, both tilts and, if asked for, defocus; the phase outside the aperture (undefined values included, which do not spread) and all other terms stay. The map handed in is not modified, printing the coefficients changes nothing, and repeating the removal changes nothing more beyond "
     "sampling error.",
     ["inputs"], "all maps, shapes, apertures, types, options", "tests use one map", [AN],
     [("projection and subtraction", AN + ":remove_trivial_phase")], ["remove_trivial_phase"], "property-based testing: double precision projection and metamorphic relations",
     "maps up to about 60 pixels")
prop("C27", "Vialux controller: the mirrors show what was loaded",
     "After loading one image the device shows exactly that image (inverted if the controller inverts), continuously and without waiting for triggers; after loading several it shows them in the given order, one per rising trigger edge, endlessly, for the minimum picture time; neither ever goes dark between frames. This holds for any history of loads and sessions, as long as each "
     "load fits on the board, and images handed in are not modified. Before initialisation every load or size query is refused without touching the device, closing halts and releases it, and a missing vendor library is reported when a controller is created.",
     ["histories", "configurations"], "all sequences of single and multiple loads, sessions, inversions, board sizes", "no hardware in the tests: the hardware tests are skipped", [CT],
     [("single load", CT + ":ALPController.load_single"), ("sequence load", CT + ":ALPController.load_multiple"), ("initialisation gate", CT + ":_check_initialization")],
     ["calls to the vendor library"], "stateful property testing against a simulated device behind a stand-in vendor library", "assumes the stand-in models the vendor interface (state machine, memory, inversion, projection mode) correctly")
prop("C28", "Visitech controller: the k-th trigger shows image k modulo N",
     "After loading N images the device shows the first one, and after k triggers (software or external) image k modulo N, inverted if the controller inverts, for any history of loads, triggers and re-initialisations; no image of an earlier load is ever shown. Before initialisation every load, trigger or size query is refused without touching the device. Images handed in are not modified and may be reused.",
     ["histories", "configurations"], "all sequences of loads and triggers of all sources", "hardware tests are skipped", [CT],
     [("sequencer program", CT + ":LuxbeamController.initialize"), ("loads", CT + ":LuxbeamController.load_multiple"), ("software trigger", CT + ":fire_software_trigger")],
     ["calls to the vendor library"], "stateful property testing against a simulated device that interprets the uploaded sequencer program", "assumes the stand-in models sequencer, registers and triggers correctly")
prop("C29", "Number images are binary, of the chip's size, and tell numbers apart",
     "The image of a number is a boolean array of shape (Ny, Nx) showing the number's digits in about half the height, starting at the left edge; different numbers that fit give different images, the same number always the same. The picture does not depend on the width of the chip, and leading digits look the same whatever follows. A controller makes it for the size of its own device.",
     ["inputs"], "all numbers and chip sizes", "one test with one number", [SA, CT], [("image", SA + ":number_image")], ["number_image"],
     "property-based testing: shape, geometry, injectivity and prefix relations", "chips from 16 rows up; legibility is judged by size, position and distinctness only")
prop("C30", "Nothing is shared by accident",
     "No operation modifies the arrays or options handed in; grids, fields and profile values handed out can be overwritten without any effect on later results; and operations on one modulator, simulation or profile never change the state or results of another, even one with the same parameters.",
     ["histories"], "all histories of all operations over several modulators and simulations", "tests build a fresh object each and never look at the others", [SLM, SIM, PRO, AN],
     [("per-object state", SLM + ":DMD.__init__"), ("cached grids", SLM + ":_fourier_plane_grid"), ("copies on the way out", SIM + ":_pack_tensor_to_array")],
     ["dmd_state", "slm_state", "fourier_plane_grid", "*_field"], "stateful property testing: frame conditions checked on every object after every operation", "histories of up to 9 operations over up to 4 devices")


prop("C31", "Results depend on the parameters of now, not on the history",
     "Whatever was done before with a modulator, a simulation or a profile (holograms of any method, patches, state changes, propagations, blocking, clearing, readings, analysis, parameter changes, switching the diffraction order or the FFT), the next hologram, grating, efficiency, propagation, power, coordinate, profile value or decomposition that is not randomised "
     "equals what freshly made objects with the same current parameters give, and objects made afterwards behave as if nothing had happened before.",
     ["histories"], "all histories of valid operations on a modulator pair, three simulations and shared profiles; all reproducible results", "every test starts from fresh objects and makes one or two calls", [SLM, SIM, LIB, PRO, AN],
     [("cached grids", SLM + ":_fourier_plane_grid"), ("traced functions over variables", PRO + ":FunctionProfile"), ("hologram calculation", SLM + ":calculate_dmd_state")],
     ["dmd_state", "calculate_dmd_state return value", "slm_state", "*_field", "*_power", "profile values", "zernike_decomposition"], "stateful property testing: differential between used and untouched objects",
     "histories of up to 10 operations, 22 kinds of measurements")
prop("C32", "Units, exchanged axes and reversed beams change nothing else",
     "Scaling wavelength, focal length and mirror size together with all lengths of the profiles leaves holograms and input fields unchanged and scales coordinates, powers, fields and efficiencies by the respective power of the units; only the product of wavelength and focal length matters. Exchanging rows and columns of the whole scene (x' = -y, y' = -x, grating angle -pi/2 - theta, arrays and padding transposed) transposes every hologram, patch and field. "
     "With conjugate beam, conjugate target reflected about the axis and the opposite diffraction order the hologram is the same, and conjugating the modulated field reflects and conjugates the image.",
     ["inputs", "configurations"], "all scenes, units, geometries, methods that are not randomised", "tests never compare two related scenes", [SLM, SIM, LIB, PRO],
     [("image plane scaling", SLM + ":_image_plane_grid"), ("grating phase", LIB + ":_grating_phase"), ("diffraction order", LIB + ":_calculate_dmd_grating_ideal"), ("propagation", SIM + ":propagate_to_image")],
     ["dmd_state", "calculate_dmd_state return value", "*_field", "*_power", "*_grid"], "metamorphic property-based testing over pairs of scenes",
     "factors 2^-12 to 2^12 and arbitrary ones; chips up to 12 x 12 (larger ones now and then)")
prop("C33", "A refused call changes nothing",
     "An unknown method, a missing, ill-shaped or non-numeric argument, a wrong type of modulator or padding, packing mirrors that are not binary, blocking before any propagation, an invalid Zernike index, a parameter value that is no number, an unsupported operand and a late choice of precision are refused with an error. "
     "A refused call leaves modulator states, simulation results, profile and modulator parameters and the configuration as they were, and every later valid call gives what it would have given without it.",
     ["histories", "inputs"], "all such calls at any point of any history of valid operations", "tests check a few error messages and never look at the objects afterwards", [SLM, SIM, LIB, PRO, BE],
     [("propagation stores several results", SIM + ":propagate_to_image"), ("state assigned last", SLM + ":calculate_dmd_state"), ("method dispatch", LIB + ":calculate_dmd_grating")],
     ["exceptions", "dmd_state", "slm_state", "*_field", "profile parameters"], "fault-injection property testing: every state, result and parameter compared before and after each refused call",
     "35 kinds of refused calls")


prop("C34", "An interrupted load shows nothing wrong, and the next one works",
     "If the device or its library refuses any call during initialising, loading, triggering or closing, or an image has the wrong size, the error reaches the caller and the controller never reports success. The device then shows "
     "either the complete previous images or stops; it never runs a mixture or a partial load. Repeating the operation (or loading anything else) works and shows exactly the images loaded, in the right trigger mode and inversion, with no memory of the board lost.",
     ["fault_sequences", "histories"], "a failure at any device call of any operation, at any point of a history of loads, triggers and sessions", "hardware tests are skipped and never see a failing device", [CT],
     [("Vialux load", CT + ":ALPController.load_multiple"), ("Visitech load", CT + ":LuxbeamController.load_multiple"), ("initialise", CT + ":initialize"), ("close", CT + ":ALPController.close")],
     ["calls to the vendor library", "exceptions", "is_initialized"], "fault-injection stateful property testing on simulated devices: the k-th device call is refused", "a refused call has no effect on the device (no lost replies); assumes the stand-ins model the devices")
prop("C35", "A profile's value at a point depends on that point alone",
     "Evaluating a profile, window or any expression of profiles gives at every point the value determined by that point: it does not depend on which other points are evaluated in the same call, on their number, order or repetition, "
     "or on the arrangement and form of the coordinates (numbers, lists, arrays of any dimension, memory order and precision, tensors, x as a row with y as a column, no points at all). The result has the shape of the coordinates.",
     ["inputs"], "all profiles and expressions, all sets and arrangements of points", "tests evaluate on one grid each", [PRO, WIN],
     [("evaluation", PRO + ":FunctionProfile.__call__"), ("Zernike", PRO + ":Zernike._func"), ("windows", WIN + ":RectangularWindowRectangle._func")],
     ["profile(x, y)"], "metamorphic property-based testing against an interpreter with error bounds: the same points in several arrangements",
     "up to 10500 points; 20 arrangements; points within rounding of a rim or a singularity are undecided")
prop("C36", "A named device is the generic modulator with the data sheet's mirrors",
     "DLP7000, DLP9000, DLP9500 and PLUTO_2 behave exactly like a DMD or LCOS SLM made with the same optics and grating and the data sheet's number and size of mirrors (1024 x 768 of 13.68, 2560 x 1600 of 7.56, 1920 x 1080 of 10.8 and 1920 x 1080 of 8 micrometres): "
     "coordinates, gratings, patches, holograms, efficiencies, packed bytes, propagation and the first order's position agree, for either diffraction order however it is given, also with several devices side by side.",
     ["configurations", "inputs"], "all named devices, optics, gratings, orders, uses", "tests make the devices and look at the shape of the state", [SLM],
     [("named DMDs", SLM + ":DLP9500"), ("named LCOS", SLM + ":PLUTO_2")], ["dmd_state", "fourier_plane_grid", "image_plane_grid", "calculate_dmd_state return value", "pack_dmd_state", "image_plane_field"],
     "differential property-based testing: named device beside the generic class", "full size, one or two devices at a time")
prop("C37", "Omitted, positional and keyword arguments mean what the signatures say",
     "An omitted argument has its documented default (amplitude 1, phases 0, method random with steepness 10, 200 iterations, scaling 1, no window, mixing and orders as documented, no padding, Fourier plane, real type, normalised and not extrapolated Zernike polynomials, nothing printed, no inversion), "
     "and giving arguments by position, by keyword or in any order of keywords makes no difference, in every constructor, method and function of the package.",
     ["inputs", "configurations"], "all public calls and forms of calling them", "tests call each function in one form", [SLM, SIM, PRO, WIN, AN, CT, LIB],
     [("method options", LIB + ":calculate_dmd_grating"), ("gratings", SLM + ":set_dmd_grating_state"), ("profiles", PRO + ":Zernike.__init__"), ("analysis", AN + ":zernike_decomposition")],
     ["dmd_state", "calculate_dmd_state return value", "profile values", "zernike_decomposition", "image_plane_field"],
     "differential property-based testing: every call in a random form against the call with all arguments named", "results compared exactly; the default method statistically at 7 sigma; defaults of GS and MRAF are judged by C14 and C15")

prop("C38", "The first order appears at first_order_origin, where patches interfere",
     "first_order_origin of a DMD and of its simulations is the point at distance wavelength*focal length/period along the grating angle, for every grating and device, before and after any use; with the negative order the light appears at the opposite point. "
     "At that point of the simulated image plane the first order's field is the sum over the mirrors of beam times amp/4 times exp(i(phase_out - phase_in)) times pixel area over wavelength times focal length, for full gratings as for any set of patches: "
     "patches interfere there with the difference of their phases, and taking out the beam's aberration with phase_in makes all mirrors add up in phase, with the brightest point there.",
     ["inputs", "configurations"], "all gratings, orders, beams, sets of patches, phase maps and paddings", "tests never read first_order_origin and never simulate patches", [SLM, SIM, LIB],
     [("first order's position", SLM + ":DMD.first_order_origin"), ("patch", SLM + ":DMD.circular_patch"), ("carrier", LIB + ":_grating_phase"), ("image coordinates", SIM + ":_image_plane_padded_grid")],
     ["first_order_origin", "image_plane_padded_grid", "image_plane_field"], "model-based property testing: the whole path from phases to the point in the image, first order isolated by three phase steps",
     "grey-scale method; chips up to 90 x 90, up to 4 patches; gratings whose first order falls on an image point; odd chips judged up to one phase")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [
        {"property": p["pid"], "quick_cmd": "python3 run.py " + p["pid"],
         "thorough_cmd": "env VERIF_TIER=thorough python3 run.py " + p["pid"],
         "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["technique"], "level": "exploration",
         "level_note": p["note"]} for p in P], "not_applicable": [],
        "notes": "No hooks in /repo are needed. Failing cases are replayed with: python3 run.py --replay FILE"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
