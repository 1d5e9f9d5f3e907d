"""Write properties.jsonl and MANIFEST.json from the one description below (run by hand when a property changes)."""

import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SAMPLE = "The tests compute a handful of cases with fixed settings; "

# id, title, statement, over, quantifier text, why tests can't, [(file, [(mechanism, code it is anchored at)])], technique
P = []


def prop(pid, title, statement, over, text, why, anchors, technique, note=""):
    P.append((pid, title, statement, over, text, why, anchors, technique, note))


OTF, ZER, UTI, MIC = "pyotf/otf.py", "pyotf/zernike.py", "pyotf/utils.py", "pyotf/microscope.py"
PHA, LAB, DIS = "pyotf/phaseretrieval.py", "pyotf/labview.py", "pyotf/display.py"

prop(
    "P01", "The Hanser PSF is the diffraction integral over the pupil",
    "For every valid set of optical parameters, the amplitude PSF of the Hanser model equals, in every plane, component "
    "and pixel, the Fourier sum over the frequencies within NA / wavelength of the pupil times the defocus phase of that "
    "plane, with the apodization of the chosen condition (none, sine, Herschel) and the polarization factors of the "
    "chosen vectorial correction. Parameters that are left out take their documented defaults.",
    ["inputs", "configurations"],
    "all wavelengths, NAs, indices, units, pixel sizes, even and odd sizes, planes, conditions and polarizations",
    SAMPLE + "they compare the two models with one another roughly and never the values with the theory.",
    [(OTF, [("pupil, defocus, apodization and polarization", "def _gen_psf"), ("frequencies", "def _gen_kr"),
            ("circular aperture", "def _gen_pupil"), ("defocus", "def _calc_defocus")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P02", "The Sheppard OTF is the NA-limited, weighted cap of the Ewald sphere",
    "For every valid set of parameters, the amplitude OTF of the Sheppard model is non-zero only on a one voxel thick "
    "shell of radius ni / wavelength, within the NA, on one side (both sides for a dual objective), where it has the "
    "weight of the chosen condition and polarization; its amplitude PSF is the inverse transform of that.",
    ["inputs", "configurations"],
    "all optics, units, grids (even, odd, cubic, anisotropic), conditions, polarizations, one or two objectives",
    SAMPLE + "no test looks at the values of the OTF, nor at dual objectives with polarization.",
    [(OTF, [("shell and NA limits", "class SheppardPSF"), ("frequencies of the shell", "valid_points ="),
            ("weights", "def _gen_otf")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P03", "Amplitude and intensity, PSF and OTF are consistent with one another",
    "For every model, in whatever order its results are read, the amplitude OTF is the centred 3D Fourier transform of "
    "the amplitude PSF, the intensity PSF is the sum over polarization components of its squared magnitude, and the "
    "intensity OTF is the transform of the intensity. Without aberrations the intensity is highest in the central plane's "
    "central pixel.",
    ["inputs", "histories"],
    "all models of either class, any order of reading the four results, custom pupils",
    SAMPLE + "and read each result once.",
    [(OTF, [("intensity", "def PSFi"), ("intensity OTF", "def OTFi"), ("amplitude OTF", "    def OTFa")])],
    "metamorphic relations between results (Hypothesis)",
)
prop(
    "P04", "Results always belong to a model's current parameters",
    "After any history of parameter changes, rejected changes, reads, custom pupils, copies and pickling, each result a "
    "model returns equals that of a newly built model with the same parameters, and models never affect one another.",
    ["histories"],
    "all sequences of up to 14 operations on up to three models",
    "A cache is only stale after particular histories; the tests change single parameters after a single read.",
    [(OTF, [("cache invalidation", "def _attribute_changed"), ("z range and zsize/zres kept in step", "def _gen_zrange"),
            ("cached results", "    @cached_property")]), (UTI, [("validated attributes", "class NumericProperty")])],
    "stateful, model-based testing against newly built models (Hypothesis)",
)
prop(
    "P05", "Impossible parameters are refused with nothing changed, possible ones accepted",
    "Values of the wrong type, negative values, unknown options and sampling at or beyond the Abbe limit (laterally) or "
    "the axial limit are refused with an exception, both when a model or microscope is built and later on, after which it "
    "is as it was before. Sampling up to these limits is accepted.",
    ["inputs", "configurations"],
    "all valid sets of parameters with one value replaced, and values within parts per billion of the limits",
    "The tests try a few invalid values, never those close to the limits, nor what is left behind after a refusal.",
    [(OTF, [("lateral limit", "    def res(self, value)"), ("axial limit", "    def zres(self, value)"),
            ("options", "    def vec_corr(self, value)")]), (UTI, [("types and signs", "class NumericProperty")]),
     (MIC, [("choice of model", "def _choose_model")])],
    "negative testing of generated invalid and boundary values (Hypothesis)",
)
prop(
    "P06", "Conservation laws, symmetries and scaling of the PSF models",
    "The energy of a Hanser PSF is the same in every plane, the total of all polarizations is the sum of the parts, "
    "scaling all lengths changes nothing, PSFs have the symmetries of their optics, finer pixels sample the same field and "
    "nothing passes beyond the diffraction limit.",
    ["inputs", "configurations"],
    "all models of either class, and custom pupils for the energy",
    "These relate results of different settings, at every setting; the tests look at none of them.",
    [(OTF, [("Hanser model", "def _gen_psf"), ("Sheppard model", "def _gen_otf")])],
    "metamorphic relations (Hypothesis)",
)
prop(
    "P07", "Every plane of a Hanser PSF depends on its own z only",
    "Whatever planes are asked for, in any order, spacing, container and number, each is the same as when computed on its "
    "own, and the model keeps its own copy of them. The default planes are zres apart with z = 0 at index zsize // 2.",
    ["inputs", "configurations"],
    "all lists of planes, containers and types, given when the model is built or later",
    SAMPLE + "only with evenly spaced planes of even number.",
    [(OTF, [("z range", "    def zrange(self, value)"), ("default planes", "def _gen_zrange"),
            ("per plane transform", "def _gen_psf")])],
    "metamorphic relations between calls (Hypothesis)",
)
prop(
    "P08", "The Hanser and Sheppard models describe the same microscope",
    "For the same well sampled optics of high NA the two models give PSFs that agree in intensity and in the amplitude of "
    "each polarization component up to the difference in how they sample the Ewald sphere; neither is mirrored, shifted or "
    "conjugated with respect to the other.",
    ["inputs", "configurations"],
    "all optics with an NA of 0.75 to 0.95 times the index and pixels of 0.6 to 0.9 times the limits",
    "The tests compare one setting.",
    [(OTF, [("Hanser model", "def _gen_psf"), ("Sheppard model", "def _gen_otf")])],
    "differential testing of two implementations, by correlation (Hypothesis)",
    "The thresholds are far below what was measured, so a small deviation of one model isn't seen here but by P01 and P02.",
)
prop(
    "P09", "A pupil given by the user is imaged as it is",
    "Applying a complex pupil makes the amplitude PSF the diffraction integral over that pupil, with the model's defocus "
    "and polarization, and the other results follow; it is linear in the pupil, a linear phase shifts the image "
    "and a constant phase changes no intensity.",
    ["inputs", "histories"],
    "all complex pupils on the model's grid, applied before or after other results were read",
    "The tests apply a pupil only by way of phase retrieval, on one set of data.",
    [(OTF, [("custom pupil", "def apply_pupil"), ("transform", "def _gen_psf")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P10", "Aberrations are sums of Zernike modes, applied to a new model",
    "An aberrated model is a new one whose pupil is the ideal one times the sums of Zernike modes with the given "
    "coefficients for magnitude and phase; named aberrations are the modes of these names, added up. The "
    "original model and its later use don't change, and neither depends on the other afterwards.",
    ["inputs", "histories"],
    "all models, histories of the model, sets of coefficients (or none) and of names",
    SAMPLE + "they check that names are found, not what is imaged.",
    [(OTF, [("coefficients", "def apply_aberration"), ("names", "def named_aberration_to_pcoefs"),
            ("several names", "def apply_named_aberrations")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P11", "Zernike polynomials have their standard values and are orthonormal",
    "For every mode, radius and angle, and in every style of call (Noll index or degrees, one mode or many, scalars or "
    "arrays), the value is that of the standard polynomial inside the unit disk and zero outside; normalized modes are "
    "orthonormal over the disk.",
    ["inputs"],
    "all modes (Noll index to 120, n to 30), all shapes of arguments, radii inside, outside and on the edge",
    "The tests compare the first few modes on one grid.",
    [(ZER, [("polynomials", "def _zernike"), ("radial part", "def _radial_zernike"), ("arguments", "def zernike")])],
    "differential testing against a recursion and exact arithmetic; exact quadrature (Hypothesis)",
)
prop(
    "P12", "Noll indices, degrees and names of modes are in one to one correspondence",
    "Conversion of Noll indices to degrees and back follows Noll's rule and is the identity for every index, scalars and "
    "arrays of all integer types alike; pairs of degrees that are no mode are refused. The names of modes belong to the "
    "right degrees.",
    ["inputs"],
    "all indices and degrees (1 to 120 exhaustively, larger ones in arrays), all integer types, invalid pairs",
    "The tests convert the indices of a table that the code itself uses.",
    [(ZER, [("index to degrees", "def noll2degrees"), ("degrees to index", "def degrees2noll"), ("names", "noll2name")])],
    "round trip and differential testing, exhaustive for small indices (Hypothesis)",
)
prop(
    "P13", "Calls have no hidden effects on one another",
    "Any sequence of calls of public functions and reads of models gives for each the same result as the call on its own, "
    "in any order, in several threads, and when the results of earlier ones were overwritten by the caller. No call "
    "or plot changes global settings: of numpy, the random generators, warnings, logging or matplotlib.",
    ["histories", "schedules"],
    "all programs of up to 10 independent calls, all orders of them, and interleavings of up to 4 threads as they occur",
    "The tests run each function in one order in one thread; shared state shows only in particular sequences.",
    [(OTF, [("results kept per model", "    @cached_property")]), (ZER, [("tables", "noll2degrees")]),
     (UTI, [("transforms", "def easy_fft")]), (MIC, [("excitation models", "def model_psf")])],
    "random programs compared with isolated calls (Hypothesis)",
    "Threads run freely: interleavings are sampled as they occur, not enumerated.",
)
prop(
    "P14", "The centred Fourier transform and its inverse are exact",
    "For every array and choice of axes, the centred transform equals the discrete Fourier sum between samples counted "
    "from the middle (n // 2) along those axes, and the inverse undoes it exactly, for even and odd lengths alike.",
    ["inputs"],
    "all arrays of 1 to 4 dimensions, lengths, types and choices of axes",
    SAMPLE + "with even lengths only, where the two ways of centring are the same.",
    [(UTI, [("transform", "def easy_fft"), ("inverse", "def easy_ifft")])],
    "differential testing and round trips (Hypothesis)",
)
prop(
    "P15", "Padding, cropping and windows are about the centre",
    "Padding or cropping for Fourier transforms keeps the sample at the origin at the origin, for every combination of old "
    "and new lengths and modes, and padding followed by cropping is the identity. Windows are of the right width about "
    "their centre, and are cut off at the borders' start.",
    ["inputs"],
    "all shapes, target shapes (growing, shrinking, unchanged), modes, centres and widths",
    "Examples in the documentation show a few lengths; the rest isn't tested.",
    [(UTI, [("padding", "def fft_pad"), ("amounts", "def _calc_pad"), ("windows", "def slice_maker")])],
    "differential testing and round trips (Hypothesis)",
)
prop(
    "P16", "Prepared data is background-free, centred, of the right size and not negative",
    "Preparing an image stack subtracts the given multiple of its most frequent value and crops every plane to the size "
    "asked for about the brightest spot, which ends up in the centre, or pads it with zeros evenly around, never leaving "
    "negative values, whatever the integer type, size and position of the data.",
    ["inputs"],
    "all integer stacks of 8 to 64 bits with a background, positions of the spot, sizes and multipliers",
    "The tests prepare one image for one size.",
    [(UTI, [("preparation", "def prep_data_for_PR"), ("background", "def remove_bg"), ("centring", "def center_data")])],
    "differential testing against a reference implementation (Hypothesis)",
)
prop(
    "P17", "Binning sums or averages whole bins along every axis",
    "For every array and bin size (or new shape), each value of the result is the sum or mean of its bin, and only samples "
    "that fill no bin are dropped.",
    ["inputs"],
    "all arrays of 1 to 4 dimensions, bin sizes, new shapes and both operations",
    "The tests bin one small array.",
    [(UTI, [("binning", "def bin_ndarray")])],
    "differential testing against a reference implementation (Hypothesis)",
)
prop(
    "P18", "Radial profiles are the mean and deviation over rings of pixels",
    "For every image, centre and ring width, the profile's values are the mean and standard deviation of the pixels at a "
    "distance from the centre within each ring (pixels exactly between two rings count in the even one).",
    ["inputs"],
    "all images (real, complex, integer), centres (default, integer, fractional, outside) and widths",
    "No test calls it (it crashed on every call).",
    [(UTI, [("profile", "def radial_profile")])],
    "differential testing against a reference implementation (Hypothesis)",
)
prop(
    "P19", "Phase retrieval is Hanser's iteration, stopped as documented",
    "For every data set and parameters, retrieval gives the pupil, and the histories of error and change, of the iteration "
    "it documents (replace magnitudes by the data's, average over planes, limit to the NA), stopped at the first "
    "iteration within a tolerance or at the limit. Its error never grows, and the arguments aren't changed.",
    ["inputs", "histories"],
    "all optics, data (perfect, noisy, with background), planes, tolerances, limits and the phase only option",
    "The tests retrieve one pupil and look at its error only.",
    [(PHA, [("iteration", "def retrieve_phase"), ("error", "def _calc_mse")])],
    "differential testing against a reference implementation (Hypothesis)",
)
prop(
    "P20", "From perfect data, phase retrieval finds the pupil that made it",
    "Given the noise-free PSF of a moderately aberrated pupil in planes that span several depths of field, retrieval "
    "converges to that pupil up to a constant phase; the phase it reports for a smooth pupil has no jumps.",
    ["inputs"],
    "all aberrations of up to 0.6 rad rms, optics with at least 5 frequencies in the pupil's radius, 6 to 11 planes",
    "The tests retrieve one pupil from one measured data set.",
    [(PHA, [("iteration", "def retrieve_phase"), ("unwrapping", "class PhaseRetrievalResult")])],
    "round trip through a reference imaging model (Hypothesis)",
    "Convergence was calibrated on this domain; outside of it (few planes, large aberrations) it isn't promised.",
)
prop(
    "P21", "Phase retrieval is equivariant to brightness, orientation, plane order and units",
    "Scaling the data's brightness, mirroring or rotating it, reversing or reordering its planes along with their z, "
    "or changing the unit of length changes the retrieved pupil and histories exactly as it should, and in no "
    "other way.",
    ["inputs"],
    "all scenes and the listed transformations",
    "These relate two retrievals of different data, at every data set; the tests do a single one.",
    [(PHA, [("iteration", "def retrieve_phase")]), (OTF, [("imaging", "def _gen_psf")])],
    "metamorphic relations (Hypothesis)",
)
prop(
    "P22", "The Zernike decomposition of a pupil is the least squares one and adds up",
    "For every retrieved pupil and number of modes, the coefficients are those of the least squares fit of magnitude and "
    "phase within the NA, and what is reconstructed from any slice of modes is their sum with these coefficients.",
    ["inputs"],
    "all magnitudes and phases, optics, 1 to 40 modes, slices",
    "The tests fit one pupil.",
    [(PHA, [("fit", "def _fit_to_zerns"), ("number of modes", "def fit_to_zernikes"), ("sums", "def _recon_from_zerns"),
            ("parts", "class ZernikeDecomposition")])],
    "differential testing, optimality and additivity (Hypothesis)",
)
prop(
    "P23", "PSFs generated from a retrieved pupil fit the window and planes asked for",
    "For every retrieved pupil and sequence of requests for other sizes, numbers of planes or z ranges, the PSF is the image "
    "of that pupil (or of the chosen Zernike modes) in that window and planes, and no request affects a later one.",
    ["inputs", "histories"],
    "all pupils, histories of up to 5 requests of any size and planes",
    "The tests make one request of each kind.",
    [(PHA, [("requests", "def _generate_psf"), ("from modes", "def generate_zd_psf")])],
    "differential testing over histories (Hypothesis)",
)
prop(
    "P24", "The LabVIEW wrapper is preparation followed by phase retrieval",
    "For every stack of counts, given as nested lists or an array, the wrapper returns, as nested lists, the pupil's phase "
    "that background removal and phase retrieval with the given options give; each of the options reaches the "
    "retrieval, with the defaults that are documented.",
    ["inputs", "configurations"],
    "all integer stacks, optics and options",
    "No test calls it.",
    [(LAB, [("wrapper", "def labview")])],
    "differential testing against a reference implementation (Hypothesis)",
)
prop(
    "P25", "The wide field PSF is the model's summed over centred camera pixels, of unit sum",
    "For every wide field microscope, the PSF has the size and pixels asked for, is the oversampled model's intensity "
    "summed over camera pixels that are centred on the focus, and sums to one; the OTF is its transform. The "
    "oversampling has to be odd and the model one of the two, by name (in any case).",
    ["inputs", "configurations"],
    "all models, optics, units, sizes, oversampling factors and optional parameters",
    SAMPLE + "they check shapes and refusals.",
    [(MIC, [("PSF", "    def PSF"), ("oversampling", "class WidefieldMicroscope"), ("choice of model", "def _choose_model")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P26", "The confocal PSF is the excitation's times the emission's through the pinhole",
    "For every confocal microscope, the PSF is that of the excitation wavelength times that of the emission convolved with "
    "a disk of the pinhole's size in Airy units; a vanishing pinhole gives the product and a huge one the excitation's.",
    ["inputs", "configurations"],
    "all optics, excitation wavelengths, oversampling factors and pinholes from none to beyond the field",
    SAMPLE + "they never look at the values.",
    [(MIC, [("PSF", "class ConfocalMicroscope"), ("pinhole", "def _disk_kernel")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P27", "The SIM PSF is the detection PSF times its illumination patterns",
    "For every structured illumination microscope, coherent or not, with or without DC, its suppression and a Wiener "
    "filter, the PSF is the sum over orientations of the detection PSF times the interference patterns of the excitation's "
    "NA and wavelength, at the planes of the detection PSF; 2D, 3D and lattice SIM are such with their own settings.",
    ["inputs", "configurations"],
    "all optics, excitation NAs and wavelengths, orientations, and all combinations of the options",
    SAMPLE + "they never look at the values.",
    [(MIC, [("patterns", "class BaseSIMMicroscope"), ("2D", "class SIM2DMicroscope"), ("3D", "class SIM3DMicroscope"),
            ("lattice", "class LatticeSIMMicroscope")])],
    "differential testing against a reference model, metamorphic relations (Hypothesis)",
)
prop(
    "P28", "The Apotome's PSF is the wide field's weighted by its optical sectioning",
    "For every Apotome microscope, the PSF is the wide field PSF with each plane weighted by the magnitude of its OTF at "
    "half of the cut-off frequency, normalized to unit sum; planes out of focus are suppressed.",
    ["inputs", "configurations"],
    "all models, optics, units, sizes, planes and oversampling factors",
    SAMPLE + "they never look at the values.",
    [(MIC, [("weights", "class ApotomeMicroscope")])],
    "differential testing against a reference model (Hypothesis)",
)
prop(
    "P29", "A microscope's PSF and OTF always belong to its current settings",
    "After any history of changes of settings, refused ones, reads, copies and pickling, each result of a microscope "
    "equals that of a newly built one with the same settings.",
    ["histories"],
    "all sequences of up to 12 operations on up to three microscopes of every class",
    "A cache is only stale after particular histories, which no test has.",
    [(MIC, [("cache invalidation", "def _attribute_changed"), ("settings", "    def wiener(self, value)"),
            ("excitation", "    def wl_exc(self, value)")])],
    "stateful, model-based testing against newly built microscopes (Hypothesis)",
)
prop(
    "P30", "Plots show the right planes and projections, to scale, and refuse uneven planes",
    "Every panel of a PSF or OTF plot, by function or by a model's or microscope's own method, shows the plane or "
    "projection in its title, cut through the centre, with the right extent, scaling and outline of the OTF's support. "
    "Models with unevenly spaced planes are refused.",
    ["inputs", "configurations"],
    "all stacks, models, microscopes and display options",
    "The tests check that plotting doesn't raise an error.",
    [(DIS, [("PSF panels", "def psf_plot"), ("OTF panels", "def otf_plot")]), (OTF, [("even planes", "def _validate_zrange"),
     ("steps", "def plot_psf")]), (MIC, [("steps", "def plot_psf")])],
    "differential testing of the drawn artists (Hypothesis)",
)
prop(
    "P31", "No function changes what it is given, nor depends on memory layout",
    "No public function or method changes arrays, containers or models it is given, keeps a reference to them that later "
    "changes could reach (the plain containers PhaseRetrievalResult and ZernikeDecomposition excepted), or gives another "
    "result for an array that lies differently in memory.",
    ["inputs"],
    "all public functions taking arrays, dictionaries or models; all layouts, strides and byte orders; read-only arrays",
    "The tests don't look at arguments after a call, and use plain arrays.",
    [(UTI, [("functions of arrays", "def center_data")]), (PHA, [("parameters", "def retrieve_phase")]),
     (OTF, [("pupils and planes", "def apply_pupil")])],
    "metamorphic testing over memory layouts (Hypothesis)",
)
prop(
    "P32", "The representation of a model or microscope rebuilds it",
    "Evaluating the representation of a model or microscope, at any time in its history, gives an equal one, with the same "
    "results and representation.",
    ["inputs", "histories"],
    "all models and microscopes but those whose representation is that of a base class, and changes of parameters",
    "The tests look at one representation.",
    [(OTF, [("models", "    def __repr__")]), (MIC, [("microscopes", "    def __repr__")])],
    "round trips (Hypothesis)",
)
prop(
    "P33", "Extents of grids and the axial squeeze by an index mismatch are right",
    "The extents of real and Fourier space grids are those of their samples' centres for every number and step of samples, "
    "and the axial squeeze factor is the ratio of focal depths for every pair of indices and NA: one for equal indices, "
    "the inverse for swapped ones.",
    ["inputs"],
    "all numbers of samples, steps of any scale, pairs and triples of indices, and NAs",
    "Examples in the documentation show a few values.",
    [(DIS, [("real space", "def max_min"), ("Fourier space", "def fft_max_min"), ("squeeze", "def z_squeeze")])],
    "differential testing and algebraic laws (Hypothesis)",
)
prop(
    "P34", "Plots of a phase retrieval show its own numbers under the right names",
    "For every result and number of modes, the plots of the pupil, of the convergence and of the coefficients show the "
    "result's own numbers, in order, with the names of the modes they belong to.",
    ["inputs", "configurations"],
    "all results, numbers of modes (also fewer than have names), slices, axes made by the caller or not",
    "The tests check that plotting doesn't raise an error.",
    [(PHA, [("pupil", "def _plot_complex_pupil"), ("convergence", "def plot_convergence"), ("coefficients", "def plot_coefs"),
            ("names", "def plot_named_coefs")])],
    "differential testing of the drawn artists (Hypothesis)",
)

prop(
    "P35", "Polar coordinates are exact, for any real numbers of any type",
    "The radius and the angle of `cart2pol(y, x)` are the hypotenuse and the angle from the x axis towards the y axis (in "
    "-pi to pi), to the precision of a double (or of single precision, for inputs that are), for numbers and arrays of any "
    "real type and magnitudes from 1e-120 to 1e120 (1e-15 to 1e15 in single precision), which are broadcast; grids of pupils (radius, angle) are made with it.",
    ["inputs"],
    "all pairs of numbers or broadcastable arrays of integers, booleans and floating point numbers, axes, diagonals and zeros",
    "It has no test of its own; others use it with grids of doubles.",
    [(UTI, [("coordinates", "def cart2pol")])],
    "differential testing against the standard library (Hypothesis)",
)


def line_of(file, text):
    lines = open(os.path.join(REPO, file)).read().split("\n")
    for i, line in enumerate(lines, 1):
        if text in line:
            return i
    raise SystemExit(f"{file}: no {text!r}")


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "vf", "props")) if re.fullmatch(r"p\d\d\.py", f)}
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
        for pid, title, statement, over, text, why, anchors, technique, note in P:
            assert len(title) <= 80, (pid, len(title))
            if pid not in have:
                print("no check yet:", pid)
                continue
            mech = [dict(name=n, where=f"{f}:{line_of(f, t)}") for f, ms in anchors for n, t in ms]
            out.write(json.dumps(dict(
                id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[f for f, _ in anchors], mechanism=mech),
            )) + "\n")  # fmt: skip
            checks.append(dict(
                property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
                evidence_file=f"evidence/{pid}.json", technique="property-based testing: " + technique,
                level="exploration",
                level_note="The property held on every generated case of the run (counts, rule and samples are in the "
                "evidence file), not on all inputs; numpy, scipy and the reference code in vf/ are trusted."
                + (" " + note if note else ""),
            ))  # fmt: skip
    manifest = dict(
        version=1, setup_cmd="./setup", checks=checks, not_applicable=[],
        notes="Checks import the code straight from /repo's working tree (pure Python: nothing is built). No hooks in /repo.",
    )  # fmt: skip
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


main()
