NA = {}
LN = ('Obligations are discharged over the real numbers for all inputs meeting the stated preconditions; '
      'floating point rounding is outside the proof and is covered only by the sampled run-time evaluation of the same contracts. '
      'Trusted: the VC generator in pyvc/, z3, cvc5, sympy factoring, and the modelled semantics of numpy and numba listed in the evidence.')

prop('C01', 'Shape conversions invert each other and respect their ranges',
     '''Converting a shape between ellipticity e, reduced shear g and conformal shear eta, and back, returns the starting
     shape for every shape inside the unit disk (scalars and arrays alike), with e = 2g/(1+|g|^2), |eta| = 2 artanh|g| and
     the direction unchanged.  Every converted g or e lies inside the unit disk.  A shape on or outside the unit disk is
     reported as an out-of-range error (or flagged element by element where an array is converted) and never returned as a number.''',
     ['inputs'], 'every pair of real components, scalar or array; every |g|<1, |e|<1, every eta',
     'the tests convert a handful of shapes on a coarse grid; round trips must hold at every point of the disk, on the axes, at zero, near the edge and outside it',
     ['ngmix/shape.py', 'ngmix/gmix/gmix_nb.py'],
     [('conversion functions and their range tests', 'ngmix/shape.py: g1g2_to_e1e2, e1e2_to_g1g2, g1g2_to_eta1eta2, eta1eta2_to_g1g2, e1e2_to_eta1eta2'),
      ('g to e used when filling mixtures', 'ngmix/gmix/gmix_nb.py: g1g2_to_e1e2')], note=LN)

prop('C02', 'Shears compose, rotate and invert consistently',
     '''Shearing a shape g by s gives the reduced shear sum (g+s)/(1+conj(s) g), which stays inside the unit disk, is undone
     by shearing with -s, and its Jacobian is the determinant of the derivative of that map.  Rotating a shape by theta rotates
     its components by 2 theta, keeps its size and composes additively.  Shearing second moments is the linear map
     M -> A M A^T of the shear, so determinants scale by a factor that depends on the shear only, and a round object of moments
     sheared by g acquires reduced shear g.''',
     ['inputs'], 'every pair of shapes inside the unit disk and every rotation angle; every positive definite moment matrix',
     'the tests check single composed values against stored numbers',
     ['ngmix/shape.py', 'ngmix/moments.py', 'ngmix/gmix/gmix.py'],
     [('shear addition and rotation', 'ngmix/shape.py: shear_reduced, Shape.get_sheared, Shape.rotate, rotate_shape, dgs_by_dgo_jacob'),
      ('moment shearing', 'ngmix/moments.py: get_sheared_moments, get_sheared_M, get_sheared_g1g2T')], note=LN)

prop('C03', 'Size and moment conversions are mutually inverse',
     '''Conversions between sigma, T, fwhm and half-light size, between a moment matrix and (ellipticity, T) or (shear, T),
     and between a sheared and a round size, are inverse to one another for every admissible input.  The moments built from
     an ellipticity and T have trace T, and their determinant is T^2(1-|e|^2)/4.''',
     ['inputs'], 'every positive sigma, T, fwhm, every shape inside the unit disk, scalars and arrays',
     'the tests convert a few numbers',
     ['ngmix/moments.py'], [('conversions', 'ngmix/moments.py: fwhm_to_sigma, sigma_to_fwhm, T_to_fwhm, fwhm_to_T, r50_to_sigma, sigma_to_r50, get_T, e2mom, g2mom, mom2e, mom2g, get_Tround')], note=LN)

prop('C04', 'Moment results: flags are set exactly when the number is not meaningful',
     '''From a moment vector and its covariance, the reported flux, size, shape, errors and signal to noise obey the stated
     ratio formulas with first-order error propagation.  Each failure (nonpositive variance, flux, size or shape variance)
     sets its own flag bit; the quantities it invalidates stay NaN and every other quantity is still reported, so a result
     with no flags contains only finite numbers.''',
     ['inputs'], 'every 6- or 17-component moment vector and covariance matrix',
     'a test reaches some combinations of signs; all 2^k combinations with arbitrary values decide the property',
     ['ngmix/moments.py', 'ngmix/util.py'],
     [('result assembly and flag logic', 'ngmix/moments.py: make_mom_result'), ('ratio errors', 'ngmix/util.py: get_ratio_var, get_ratio_error')], note=LN)

prop('C05', 'A model mixture has exactly the flux, centre, shape and size requested',
     '''A mixture made from model parameters has total flux, centre, ellipticity (from its shear) and overall size T equal to
     the parameters for every model family (single Gaussian, exponential, de Vaucouleurs, turbulent, composite, bulge+disk, coelliptical and full),
     up to the published normalisation of the model tables.  All components are co-centric and co-elliptical, component fluxes sum to the
     total flux, and reading the parameters back gives the mixture again.  Out-of-range shear or a wrong number of
     parameters is an error and produces no mixture.''',
     ['inputs'], 'every parameter vector of every model, any number of Gaussians for the coelliptical and full models',
     'the tests fill a few parameter vectors and compare to one tolerance',
     ['ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py'],
     [('fill functions', 'ngmix/gmix/gmix_nb.py: gmix_fill_simple, gmix_fill_cm, gmix_fill_bd, gmix_fill_bdf, gmix_fill_coellip, gmix_fill_full, get_cm_Tfactor'),
      ('read back', 'ngmix/gmix/gmix.py: get_cen, get_T, get_e1e2T, get_g1g2T, get_flux, get_full_pars')], note=LN)

prop('C06', 'A mixture evaluates to the sum of its normalised Gaussians at every pixel',
     '''Evaluating a mixture at a pixel returns the sum over components of flux times the normalised two-dimensional Gaussian
     density at the pixel position times the pixel area.  The fast evaluation uses the fast exponential inside a fixed
     chi-squared limit and exactly zero outside.  Rendering adds exactly that value to each pixel of the image, once per
     pixel, at the position given by the coordinate transformation, and changes nothing else.''',
     ['inputs'], 'any number of components and pixels, any positions, covariances and pixel areas',
     'a test compares a few images with a tolerance; individual pixels, off-diagonal covariance terms and area weights are not isolated',
     ['ngmix/gmix/gmix_nb.py', 'ngmix/gmix/render_nb.py', 'ngmix/gmix/gmix.py'],
     [('pixel evaluation', 'ngmix/gmix/gmix_nb.py: gmix_eval_pixel, gmix_eval_pixel_fast, gauss2d_set_norm'),
      ('rendering', 'ngmix/gmix/render_nb.py: render; ngmix/gmix/gmix.py: make_image')], note=LN)

prop('C07', 'A mixture never evaluates with stale normalisations and copies are faithful',
     '''After any sequence of setting flux, moving the centre, refilling, shearing, rounding, copying, failed evaluations and
     evaluations, a mixture evaluates exactly like a mixture built afresh from its current component parameters.  A copy
     equals its original at the moment of copying and shares no state with it afterwards.  A mixture with a component that
     cannot be normalised raises the range error every time it is evaluated, never a number.''',
     ['histories', 'inputs'], 'every sequence of operations on a mixture, with arbitrary arguments',
     'the tests apply one operation at a time; cached state goes wrong only in combinations',
     ['ngmix/gmix/gmix.py', 'ngmix/gmix/gmix_nb.py'],
     [('lazy normalisation', 'ngmix/gmix/gmix_nb.py: gmix_set_norms, gauss2d_set_norm'),
      ('mutators and copies', 'ngmix/gmix/gmix.py: set_flux, set_cen, fill, get_sheared, make_round, copy')],
     state=[('norm_set', 'the cached normalisation of a component is valid', 'ngmix/gmix/gmix.py: _gauss2d_dtype')], note=LN)

prop('C08', 'Convolution adds moments and centroids and multiplies unit-normalised flux',
     '''Convolving a mixture with a kernel gives one component for every pair, with covariance equal to the sum of the two
     covariances, displacement equal to the displacement from the kernel centroid, and flux equal to the product with the
     kernel normalised to unit flux.  Hence total flux and centre are preserved, the total size is the sum of sizes, and
     neither input is modified.''',
     ['inputs'], 'every pair of mixtures with any number of components',
     'tests convolve one or two pairs',
     ['ngmix/gmix/gmix_nb.py', 'ngmix/gmix/gmix.py'],
     [('convolution', 'ngmix/gmix/gmix_nb.py: gmix_convolve_fill; ngmix/gmix/gmix.py: convolve')], note=LN)

prop('C09', 'Likelihood, residuals and signal-to-noise of a mixture agree with one another',
     '''For a mixture and an observation with any number of pixels, the log likelihood is minus one half of the sum of
     squared residuals (model minus data over error), and equals minus one half of the sum of squares of the residual vector
     the fitter receives.  The signal-to-noise sums are the inverse-variance weighted sums of data times model and
     model squared over the same pixels, the pixel count is the number of pixels used, and the residuals occupy exactly their own
     slice of the output.''',
     ['inputs'], 'any number of pixels and components, any data, weights and start offset',
     'tests use one image size and compare against loosely toleranced values',
     ['ngmix/gmix/gmix_nb.py', 'ngmix/gmix/gmix.py'],
     [('sums', 'ngmix/gmix/gmix_nb.py: get_loglike, fill_fdiff, get_model_s2n_sum'),
      ('callers', 'ngmix/gmix/gmix.py: get_loglike, fill_fdiff, get_model_s2n_sum')], note=LN)

prop('C10', 'The pixel list holds exactly the usable pixels with the right coordinates',
     '''Converting an image, weight map and coordinate transformation to a pixel list yields, in row-major order, every pixel
     (or only those with positive weight when zero-weight pixels are ignored) exactly once, with its transformed (v,u)
     position, value, area and the square root of its weight as inverse error, zero where the weight is not positive.''',
     ['inputs'], 'every image size, weight map and transformation',
     'tests use small fixed images with mostly positive weight',
     ['ngmix/pixels/pixels.py', 'ngmix/pixels/pixels_nb.py'],
     [('filling', 'ngmix/pixels/pixels_nb.py: fill_pixels, fill_coords; ngmix/pixels/pixels.py: make_pixels, make_coords')], note=LN)

prop('C11', 'A coordinate transformation and its inverse cancel',
     '''Mapping pixel (row,col) to (v,u) and back returns the same position, for scalars and arrays, and the centre maps to
     the origin.  The determinant, area and scale are those of the four derivatives, however the transformation was
     constructed (by x/y, row/col, diagonal, unit or from an external WCS).  Mapping a position back through a singular transformation is refused, and copying or changing the centre
     or derivatives leaves cached determinant and scale consistent.''',
     ['inputs', 'histories'], 'all derivative matrices and centres, all positions, all constructors',
     'tests use a few matrices',
     ['ngmix/jacobian/jacobian.py', 'ngmix/jacobian/jacobian_nb.py'],
     [('transforms', 'ngmix/jacobian/jacobian_nb.py: jacobian_get_vu, jacobian_get_rowcol'), ('class', 'ngmix/jacobian/jacobian.py: Jacobian')], note=LN)

prop('C12', 'An observation always presents one consistent state',
     '''After any sequence of constructor arguments, setters, writeable updates and copies, the pixel list of an observation is the
     conversion of its current image, weight map and transformation; every attached map has the image's
     shape, wrong shapes and types are refused, and a refused change leaves the observation as it was.  Exposed arrays are read-only outside a
     writeable context.  A copy equals the original and shares no state with it, and equality means equality of every part.''',
     ['histories', 'inputs'], 'every sequence of setter calls, copies and writeable contexts',
     'tests exercise setters one at a time on valid data',
     ['ngmix/observation.py'],
     [('setters and pixel updates', 'ngmix/observation.py: Observation.set_image, set_weight, set_jacobian, update_pixels, copy, writeable, __eq__')], note=LN)

prop('C13', 'Observation containers only ever hold the right type and keep their structure',
     '''Lists of observations and multi-band lists accept only elements of their own kind through appending and item or slice assignment,
     and a refused operation leaves them unchanged.  Wrapping an observation or list as multi-band
     preserves the observations, their order and metadata, and summed quantities (signal-to-noise) combine the bands and
     epochs by adding their sums.''',
     ['histories', 'inputs'], 'every sequence of appends and assignments',
     'tests use append and item assignment only',
     ['ngmix/observation.py'], [('lists', 'ngmix/observation.py: ObsList, MultiBandObsList, get_mb_obs')], note=LN)

prop('C14', 'Retries stop at the first success and results keep their flags',
     '''Running a fitter with retries calls it with a fresh guess until the first unflagged result or until the retries
     are used up, and returns the last result.  Fits of a PSF for each observation of a list are
     stored only when they succeeded, in the same order, observations whose PSF fit failed are dropped when asked for, and the object fit
     happens only on the remaining ones; nothing fitted at all is an error, never an unflagged result.''',
     ['histories', 'fault_sequences'], 'every sequence of fit outcomes and every structure of bands and epochs',
     'tests simulate one or two failures',
     ['ngmix/runners.py', 'ngmix/bootstrap.py'],
     [('retry loop', 'ngmix/runners.py: run_fitter'), ('psf runs', 'ngmix/runners.py: PSFRunner; ngmix/bootstrap.py: Bootstrapper, remove_failed_psf_obs')], note=LN)

prop('C15', 'Metacalibration images carry exactly the requested shears and honest noise',
     '''Metacalibration returns every requested type (the unsheared image and the 1p image are made together and both returned when either is asked for),
     each made from the deconvolved input with the shear of the named component, sign and size, and reconvolved with a target PSF that
     is the same for every galaxy-shear type; the PSF types shear the target PSF by that shear instead.  The input observation is never modified.  The
     correction noise has the variance of the input, goes through the same operations rotated by 90 degrees and back, and the returned weight is the inverse of
     the sum of both variances where both are known.  Neither the images nor the random draws depend on the order of the requested types, and a request that
     failed leaves later requests unaffected.''',
     ['configurations', 'inputs', 'histories'], 'every subset and order of types, every shear step, PSF option, and single, multi-epoch or multi-band structure',
     'tests use the default types and one step',
     ['ngmix/metacal/metacal.py', 'ngmix/metacal/convenience.py'],
     [('type to shear', 'ngmix/metacal/metacal.py: MetacalDilatePSF.get_all, get_obs_galshear, get_obs_psfshear, get_target_psf, get_target_image'),
      ('noise', 'ngmix/metacal/convenience.py: _get_all_metacal_fixnoise, _doadd_single_obs, _rotate_obs_image_square')], note=LN)

prop('C16', 'Bounded parameters stay in bounds and the transforms invert',
     '''Least squares with parameter bounds evaluates the user function only at parameters inside the bounds, for one-sided, two-sided and absent
     bounds; internal and external parameters map back and forth without change, and the
     reported covariance is the internal one propagated through the derivative of that mapping.''',
     ['inputs'], 'every bound combination and every internal parameter value',
     'tests fit a few problems',
     ['ngmix/fitting/leastsqbound.py'],
     [('transforms', 'ngmix/fitting/leastsqbound.py: _internal2external_func, _external2internal_func, internal2external_grad')], note=LN)

prop('C17', 'Each prior is one consistent density in all its forms',
     '''For every prior distribution the log probability is the logarithm of its probability, array evaluation equals scalar evaluation
     element by element, and minus one half of the squared residual form is the log probability up to a constant.
     Outside its support a prior is refused or minus infinity in every form, inside it is finite, it is
     normalised as documented, and every sample drawn lies inside the support.''',
     ['inputs'], 'every parameter value of each prior and every argument, inside, on and outside the limits of support, and every random stream',
     'tests evaluate a handful of points',
     ['ngmix/priors/priors.py', 'ngmix/priors/shape.py', 'ngmix/priors/multivariate.py'],
     [('densities', 'ngmix/priors/priors.py; ngmix/priors/shape.py; ngmix/priors/multivariate.py')], note=LN)

prop('C18', 'A joint prior is the product of its parts on the right parameters',
     '''The joint prior of a model evaluates each component prior on its own parameters, including one flux prior per band,
     and adds their log probabilities; its residual form has one entry per component prior whose half sum of squares agrees; its samples place each draw in
     the matching parameter slot, and a parameter outside any component's support makes the whole refused or minus infinity.''',
     ['inputs', 'configurations'], 'every parameter vector, number of bands and model',
     'tests use one or two bands and in-range parameters',
     ['ngmix/joint_prior.py'], [('joint priors', 'ngmix/joint_prior.py')], note=LN)

prop('C19', 'Expectation-maximisation steps are exact and honour what is held fixed',
     '''One pass of expectation and maximisation updates each free component to the responsibility-weighted flux, centre and
     covariance (second moments about the component's current centre) of the image, for any number of pixels and components, with held centres, covariances or shapes left untouched in the fixed-parameter variants.  The returned mixture carries the
     total flux of the image after the added sky is removed, and non-convergence is reported as a flag.''',
     ['inputs', 'histories'], 'every image, number of components and iteration',
     'tests run to convergence on well-behaved images',
     ['ngmix/em/em.py', 'ngmix/em/em_nb.py'], [('passes', 'ngmix/em/em_nb.py: em_run, gmix_set_from_sums and variants'), ('result', 'ngmix/em/em.py: EMFitter, prep_obs')], note=LN)

prop('C20', 'Adaptive moments report a self-consistent fixed point or a flag',
     '''Each adaptive-moment iteration accumulates the weighted first and second moments and flux with the current elliptical weight, over any number of pixels, and
     updates the weight by deweighting; an unflagged result means the weight stopped changing within tolerance, with the reported shape, size, flux and errors
     following from those moments.  Every unusable intermediate state (nonpositive flux, size or determinant, shift of the centre beyond the limit, no convergence) sets a flag
     instead of a number, and the caller's guess is not modified.''',
     ['inputs', 'histories'], 'every image and guess, every iteration',
     'tests run on clean Gaussian images',
     ['ngmix/admom/admom.py', 'ngmix/admom/admom_nb.py'], [('iteration', 'ngmix/admom/admom_nb.py: admom, admom_momsums, deweight_moments'), ('fitter', 'ngmix/admom/admom.py: AdmomFitter')], note=LN)

prop('C21', 'Weighted moments are the weighted sums over the aperture',
     '''The measured moments are exactly the sums over pixels within the maximum radius of weight times data times the position monomials, with covariance
     equal to the sum of squared weights times pixel variance times products of those monomials, for any number of pixels; so they are linear in the image and their covariance is
     symmetric.  The derived flux, shape and size use those sums, normalised as documented.''',
     ['inputs'], 'every image, weight function, aperture and number of pixels',
     'tests check a few images',
     ['ngmix/gmix/gmix_nb.py', 'ngmix/gmix/gmix.py', 'ngmix/gaussmom.py'],
     [('sums', 'ngmix/gmix/gmix_nb.py: get_weighted_sums, get_higher_order_weighted_sums'), ('measurement', 'ngmix/gaussmom.py: GaussMom')], note=LN)

prop('C22', 'N-dimensional mixtures evaluate the weighted sum of normal densities',
     '''The probability of an N-dimensional mixture at a point is the weighted sum of normalised multivariate normal densities, its log probability is the logarithm of that sum, evaluating
     one component at a time gives the parts of that sum, and array evaluation equals point evaluation.''',
     ['inputs'], 'any number of components and points, dimension 1 to 3',
     'tests compare a few points',
     ['ngmix/gmix_ndim/gmix_ndim.py', 'ngmix/gmix_ndim/gmix_ndim_nb.py'], [('evaluation', 'ngmix/gmix_ndim/gmix_ndim_nb.py; ngmix/gmix_ndim/gmix_ndim.py')], note=LN)

prop('C23', 'The fast exponential is accurate and never reads outside its table',
     '''For every argument the evaluation code can pass, the fast exponential agrees with exp to a relative error of 4e-5 (5e-4 and 5e-3 for the fourth and third order versions),
     is positive, and indexes its table within bounds; arguments at or beyond the cut-off are never passed to it.''',
     ['inputs'], 'every real argument between minus half of the chi-squared cut-off and zero (and the documented range)',
     'tests sample random arguments with a loose tolerance',
     ['ngmix/fastexp_nb.py', 'ngmix/gmix/gmix_nb.py'], [('table and polynomial', 'ngmix/fastexp_nb.py: exp3, exp4, exp5, fexp')], note=LN)

prop('C24', 'The template flux is the weighted least-squares amplitude',
     '''The template flux fitter returns the inverse-variance weighted least-squares amplitude of the template over all epochs and its standard error (from the residual chi-squared per degree of freedom), for any
     number of pixels and epochs; it is linear in the data and independent of the template normalisation where normalisation is requested.  Zero total weight or a
     vanishing template is flagged, never returned as a number.''',
     ['inputs'], 'any number of epochs and pixels, data, weights and templates',
     'tests check noise-free recovery',
     ['ngmix/fitting/results.py'], [('sums', 'ngmix/fitting/results.py: PSFFluxFitModel')], note=LN)

prop('C25', 'A fit evaluates the right parameters on every band and epoch',
     '''For every parameter vector the residual vector, the log likelihood and the mixtures of a multi-band multi-epoch fit all use the same per-band
     parameters (shared structure plus that band's own flux), each convolved with its own epoch's PSF; the log likelihood is minus
     one half of the squared residuals, the prior residuals included.  Parameters that cannot be evaluated give the
     documented penalty, never stale values, and reported statistics match these sums.''',
     ['inputs', 'configurations', 'histories'], 'every parameter vector, number of bands and epochs, and model',
     'tests fit one or a few bands and compare with truth loosely',
     ['ngmix/fitting/results.py'], [('model', 'ngmix/fitting/results.py: FitModel, CoellipFitModel')], note=LN)

prop('C26', 'Guesses are inside the allowed ranges and in the right slots',
     '''Every guess a guesser makes has the parameter layout of its model, with a shear inside the unit disk, positive size where size was
     positive, fluxes for every band near the supplied values, and, where a prior is supplied, parameters inside the prior's support.''',
     ['inputs', 'schedules'], 'every random stream, number of guesses and bands',
     'tests check shapes of the output',
     ['ngmix/guessers.py'], [('guessers', 'ngmix/guessers.py')], note=LN)

prop('C27', 'Simulated observations reproduce the model and structure of the input',
     '''Simulating an observation from a mixture renders the (PSF-convolved when asked) mixture with the input's transformation and image size, keeps the weight (scaled by the noise factor),
     transformation and PSF, and the list and band structure, for single, list and multi-band inputs.  Noise has the variance of the weight map (the raw one when present and asked for), is zero where the weight is not positive unless asked for (then it has the median
     error), and is the difference between the noisy and the noiseless image; the input observation and mixture are left untouched, and nothing is shared with the simulated one.  A missing PSF, generator or mixture of the wrong kind is an error.''',
     ['inputs', 'configurations'], 'every observation structure, weight map and option combination',
     'tests simulate one observation',
     ['ngmix/simobs.py'], [('simulation', 'ngmix/simobs.py: simulate_obs, _simulate_obs, get_noise_image')], note=LN)

prop('C28', 'Every flag has a distinct bit and its own description',
     '''The flag values are distinct single bits, and the description of any combination of flags lists exactly the names of the bits that are set,
     for every integer.''',
     ['inputs'], 'every 32-bit flag combination', 'tests try two combinations',
     ['ngmix/flags.py'], [('names', 'ngmix/flags.py: get_flags_str')], note=LN)

prop('C29', 'Gaussian aperture fluxes follow the analytic formula band by band',
     '''The Gaussian aperture flux of a fitted model in each band is the exact integral of the model mixture times the Gaussian aperture (centred on the model), between zero and the total flux for a positive mixture, tending to the total for large apertures, and uses that
     band's own flux with the shared structural parameters; parameters that cannot be evaluated are flagged, and give no number, for exactly that band and object, and objects that were masked are not attempted.''',
     ['inputs'], 'every parameter vector, model, number of objects, bands and components, and aperture', 'tests check a few parameter vectors',
     ['ngmix/gaussap.py', 'ngmix/gmix/gmix.py'], [('aperture flux', 'ngmix/gaussap.py; ngmix/gmix/gmix.py: get_gaussap_flux')], note=LN)

prop('C30', 'Pre-PSF moments are kernel-weighted Fourier sums with stated noise',
     '''Pre-PSF moments are the kernel-weighted sums, over the Fourier modes inside the kernel, of the image transform divided by the PSF transform (floored in amplitude), both phased to their centres, so they are linear in the image.  The kernels are the stated flux kernel
     and its second derivatives (round, plus and cross), normalised to one at the origin of real space, and a kernel that does not fit in the transform is refused.
     The covariance is the sum over modes of products of kernel over PSF times the total pixel variance, with the padding factor.  The results
     do not depend on where padding is added, on the caches being on or off or warm, and the inputs are never modified.''',
     ['inputs', 'histories', 'configurations'], 'every image, kernel size, pixel transformation and cache state', 'tests compare Monte Carlo averages',
     ['ngmix/prepsfmom.py', 'ngmix/ksigmamom.py'], [('moments', 'ngmix/prepsfmom.py: PrePSFMom, _measure_moments_fft, _ksigma_kernels_impl, _gauss_kernels_impl, _deconvolve_im_psf_inplace')], note=LN)
