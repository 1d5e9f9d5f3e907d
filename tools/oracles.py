ORACLE = dict(
    P01="`ref.hanser_psfa`: an explicit double sum exp(2 pi i k x) over centred frequencies, with the apodization and polarization factors written from the papers.",
    P02="`ref.sheppard_otfa`: the shell and the NA cone from the geometry, voxel by voxel; a second law looks only at where the OTF isn't zero, from the geometry of the objective.",
    P03="explicit Fourier matrices between the four results of one model; the brightest pixel.",
    P04="a model newly built with the parameters which a plain dictionary has tracked through the history.",
    P05="the Abbe and axial limits computed in the check; models compared before and after a refusal by parameters and results.",
    P06="the relations themselves; energy also against the sum over the pupil.",
    P07="models of one plane each, and `ref.centred(zsize) * zres` for the default grid.",
    P08="each model is the other's oracle: correlations of intensities and amplitudes, above thresholds calibrated on 1500 cases.",
    P09="`ref.hanser_psfa` with the pupil; shifted images for tilts.",
    P10="`ref` Zernike sums times the ideal pupil, imaged by the reference; names from a table in the check (the literature's), not the package's.",
    P11="the three term recursion, exact rational factorials (which judge the reference too), and exact quadrature for inner products.",
    P12="Noll's rule (walk n, m in order, even index: cosine), and a table of classical names in the check.",
    P13="the same call made first, in another order, in threads, and in a forked process without a history; global settings and other figures before and after.",
    P14="Fourier matrices with phases reduced modulo n in integers, and numpy's inverse.",
    P15="index arithmetic about the origin sample, written out, and np.pad for what to pad with.",
    P16="mode by np.unique, shifts by index arithmetic, windows by slices.",
    P17="loops over bins.",
    P18="loops over rings: mean and standard deviation of the values in them.",
    P19="`ref` iteration: model image by Fourier matrices, magnitudes replaced, mean over planes, NA mask, error and change as documented.",
    P20="the pupil that made the data.",
    P21="the transformation's known effect on the pupil: conjugation, mirror, rotation, defocus, nothing.",
    P22="np.linalg.lstsq on the reference's Zernikes within the NA, orthogonality of the residual, sums of modes.",
    P23="the reference image of the pupil, padded or cropped about the centre, in the planes asked for, after each request of the history.",
    P24="the references of P16 and P19 in sequence.",
    P25="`scopes.reference`: the reference PSF on the fine grid, summed by loops into camera pixels about the centre.",
    P26="reference PSFs of both wavelengths; convolution with a disk in Fourier space by matrices.",
    P27="interference of plane waves from the excitation pupil, per orientation, written out; Wiener filter from its definition.",
    P28="the reference PSF of the wide field, its OTF planes at the half cut-off averaged over a ring.",
    P29="a microscope newly built with the tracked settings, and the reference models of P26 and P27 at the end of a history.",
    P30="slices and projections of the stack by index arithmetic, extents from centred grids, titles, read back from matplotlib's artists.",
    P31="copies of the arguments, and the result for the plain array.",
    P32="eval in a namespace with the package's classes; results of the rebuilt object.",
    P33="np.fft.fftfreq grids; the ratio of focal depths in closed form, its limits and group laws.",
    P34="the result's own arrays and `noll2name` by the check's table, read back from matplotlib's artists.",
    P35="math.hypot and math.atan2 of the standard library, number by number.",
)
WHY = dict(
    P01="the tests compare the two models roughly in one setting and never a value with theory; polarization terms, apodizations, odd sizes, units and off-centre planes each have their own code path.",
    P02="no test looks at OTF values; which voxels belong to the shell depends on grid, NA and index jointly.",
    P03="lazy results are computed from one another: an in-place operation or wrong axis shows only in some orders and shapes.",
    P04="stale caches need a read, a change and another read in a particular order.",
    P05="limits are real numbers: the interesting values are next to them; what a refused change leaves behind isn't tested at all.",
    P06="laws over pairs of settings.",
    P07="only uneven, unsorted or repeated planes tell a plane's own z from its index.",
    P08="the tests compare one setting.",
    P09="tests never apply a pupil of their own.",
    P10="tests check names, not images; combinations of magnitude and phase, histories and independence of the copy are untested.",
    P11="tests compare a few modes on one grid; shapes of arguments, edge of the disk and high orders are where it goes wrong.",
    P12="array and scalar paths, integer types and invalid pairs.",
    P13="shared state shows only in particular sequences.",
    P14="odd lengths and partial axes are where centring goes wrong.",
    P15="parity of old and new length, growing and shrinking, have four cases per axis.",
    P16="types wrap around, spots are at the border, sizes are between the sides.",
    P17="remainders and per-axis bins.",
    P18="the function couldn't run at all; no test called it.",
    P19="stopping rules and histories are never compared with anything in the tests.",
    P20="one noisy data set in the tests.",
    P21="laws over pairs of retrievals.",
    P22="one pupil in the tests, no coefficient compared.",
    P23="requests change the model inside of the result: only sequences show it.",
    P24="no test calls it.",
    P25="tests check shapes; where the pixel centre falls depends on parities of size and oversampling.",
    P26="tests don't look at values; pinholes from none to larger than the field take different paths.",
    P27="tests don't look at values; options multiply.",
    P28="tests don't look at values.",
    P29="as P04.",
    P30="tests only see that plotting doesn't fail.",
    P31="tests don't look at arguments after a call.",
    P32="one representation in the tests.",
    P33="doctests of single values.",
    P34="tests only see that plotting doesn't fail.",
    P35="no test calls it directly.",
)
