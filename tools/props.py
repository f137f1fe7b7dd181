"""The properties, as data (see meta.py)."""

NOTE = ('Sound relative to the transfer functions for torch/numpy/h5py in '
        'vg/ops.py and vg/h5model.py; an obligation the analysis cannot '
        'normalise is reported as undecided in the evidence, never as a '
        'violation.')


def P(id, title, statement, over, text, why, files, mech, technique,
      note=NOTE, state=None, observe=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors=a, technique=technique, note=note)


S = 'src/cdtools/'
NOT_APPLICABLE = {}
PROPS = [
    P('C01', 'A dataset written to a .cxi file is read back unchanged',
      'Writing a ptychography dataset to a .cxi file and loading it again, '
      'through a file name or an open file, gives back every field with the '
      'same value and meaning: patterns (up to the documented clamping of '
      'negative pixels to zero), translations including their sign, mask, '
      'quantum efficiency mask, background, intensities, axes, wavelength, '
      'detector geometry, sample and entry metadata. Fields the dataset does '
      'not have read back as absent, and it does not matter whether fields '
      'were held as numpy arrays or tensors. A file that describes the '
      'detector by its pixel sizes or only by its corner, the wavelength by '
      'the energy, or the sample by its surface normal, is read as the same '
      'geometry.',
      ['inputs', 'configurations'],
      'every value of every field and every combination of optional fields '
      'present or absent',
      'the tests round-trip single fields of a few fixed files through the '
      'low level functions; they never compose the dataset writer with the '
      'dataset reader over all optional-field combinations',
      [S + 'tools/data/data.py', S + 'datasets/base.py',
       S + 'datasets/ptycho_2d_dataset.py'],
      [('add_* / get_* pairs', S + 'tools/data/data.py'),
       ('CDataset.to_cxi/from_cxi', S + 'datasets/base.py'),
       ('Ptycho2DDataset.to_cxi/from_cxi',
        S + 'datasets/ptycho_2d_dataset.py')],
      'abstract interpretation of writer and reader over an abstract HDF5 '
      'heap; composition normalised to the identity per field'),
    P('C04', 'The gradient of a minibatch is that of all its exposures, once',
      'For every minibatch of an epoch the optimizer takes exactly one step, '
      'and the closure it is given clears the gradients once, then '
      'accumulates the gradient of loss(patterns, model(inputs), mask) over '
      'pieces that partition the minibatch: every exposure exactly once, '
      'inputs paired with their own patterns, unscaled, and the regularizer '
      'exactly once when a regularization factor is given and not otherwise. '
      'The calculation width therefore affects neither gradient nor loss. '
      'The closure returns, and the epoch records, the sum of exactly these '
      'losses (after the loss normalizer, which sees each minibatch once, '
      'under the same mask), without the regularizer. Every loss a model '
      'can select is a sum over exposures, so that pieces add up.',
      ['inputs', 'configurations'],
      'every minibatch and calculation width, model with or without mask, '
      'loss normalizer, regularizer, any selectable loss',
      'the tests check that a reconstruction of one dataset with one width '
      'reaches a threshold; a lost, repeated or rescaled piece only slows it',
      [S + 'reconstructors/base.py', S + 'tools/losses/losses.py',
       S + 'models'],
      [('Reconstructor.run_epoch', S + 'reconstructors/base.py'),
       ('the losses', S + 'tools/losses/losses.py')],
      'abstract interpretation of run_epoch with the optimizer step as an '
      'effect; contributions normalised to a sum over a partition'),
    P('C05', 'Epoch number, loss history and yielded losses stay in step',
      'Each epoch that runs appends exactly its loss to the end of '
      'model.loss_history (earlier entries untouched), sets model.epoch to '
      'the length of that history, appends the report of that epoch (its '
      'number and loss) to model.training_history without losing what was '
      'there, steps the scheduler, if there is one, exactly once with that '
      'loss, and returns the loss. Iterating optimize(n) gives exactly n '
      'losses, one per epoch in order, with or without the worker thread. '
      'While the model asks to skip computation, no epoch runs and nothing '
      'is appended, but each iteration still counts one epoch on the model '
      'and gives the latest loss (nan if there is none).',
      ['inputs', 'histories', 'configurations'],
      'every number of iterations, earlier history, threaded or not, with or '
      'without scheduler, normalizer, skipping',
      'tests never look at the bookkeeping across interrupted, resumed or '
      'skipped epochs, nor at both threading modes',
      [S + 'reconstructors/base.py', S + 'models/base.py'],
      [('Reconstructor.run_epoch, optimize', S + 'reconstructors/base.py'),
       ('CDIModel.report, skip_computation', S + 'models/base.py')],
      'abstract interpretation: final heap and yield sequence compared with '
      'the specification for every configuration'),
    P('C06', 'The worker thread is contained: failures, stops and results',
      'With thread=True each epoch runs in its own daemon thread which the '
      'caller waits for before it reads the result or gets control back; '
      'meanwhile the main thread leaves the model alone. The worker hands '
      'over exactly one result: the loss, or the very exception that ended '
      'the epoch, which is then raised in the caller and never taken for a '
      'loss or lost. Whatever interrupts the wait, keyboard interrupt or '
      'any other error, the worker is asked to stop, is waited for, and the '
      'interruption reaches the caller. The epoch watches that request at '
      'every piece of every minibatch and when it is set leaves without '
      'taking a step for or recording the incomplete epoch.',
      ['schedules', 'faults'],
      'every interleaving of worker and main thread, every failure point',
      'the outcome depends on when an interrupt or error arrives; no test '
      'interrupts a threaded reconstruction',
      [S + 'reconstructors/base.py'],
      [('Reconstructor.optimize, target', S + 'reconstructors/base.py'),
       ('stop_event in run_epoch', S + 'reconstructors/base.py')],
      'protocol check over the effect trace of the threaded loop and of the '
      'worker body, including every exception path'),
    P('C02', 'A saved model is restored unchanged, with the documented results',
      'Saving a model with save_results or save_to_h5 and building it again '
      'with from_results_dict, directly or after the .h5 file was read back, '
      'gives a model with the same value of every parameter and buffer '
      '(dtype kind included), the same options (propagation mode, '
      'exponentiation, simulation options, loss, ...), and the same loss '
      'history, training history and epoch: restored parameters are the '
      'trained ones, not their initial values. This holds for every '
      'combination of optional arguments, absent ones included. The results '
      'dictionary itself holds what its keys say, from the current state of '
      'the model: probe and object with their scalings applied, object '
      'basis, wavelength, background squared with its scaling, weights, mask, '
      'and translations that include the fitted offsets in the same units, '
      'and a nested dictionary written to .h5 is read back with each leaf '
      'unchanged.',
      ['inputs', 'configurations', 'histories'],
      'every model class, every value of every parameter, each optional '
      'argument present or absent, each option and loss',
      'the tests save a few models in one configuration and look at single '
      'fields; options that are not saved show up only in other '
      'configurations, and a field restored from its initial value only '
      'after training',
      [S + 'models/base.py', S + 'models/simple_ptycho.py',
       S + 'models/fancy_ptycho.py', S + 'models/multislice_ptycho.py',
       S + 'models/bragg_2d_ptycho.py', S + 'models/rpi.py',
       S + 'tools/data/data.py'],
      [('save_results / from_results_dict of every model', S + 'models'),
       ('CDIModel.save_results, from_results_dict, save_to_h5',
        S + 'models/base.py'),
       ('nested_dict_to_h5 / h5_to_nested_dict', S + 'tools/data/data.py')],
      'abstract interpretation of constructor, save_results, the .h5 leg and '
      'from_results_dict, composed and normalised to the identity per tensor '
      'and option'),
    P('C03', 'A job resumed from a checkpoint continues as if never stopped',
      'With use_checkpoints, job 0 runs to the first checkpoint() call, saves '
      'and exits; job k > 0 skips all computation until its (k-1)-th '
      'checkpoint() call, loads there the file job k-1 wrote (same name, '
      'made of the file stem, never overwriting another job\'s), computes, '
      'and saves and exits (SystemExit) at the next call. '
      'load_checkpoint restores what save_checkpoint saved, on a freshly '
      'built model of the same configuration: every parameter and buffer, '
      'loss history, training history, epoch, and the state of the running '
      'optimizer. While optimize runs, in either threading mode, the model '
      'exposes exactly the optimizer in use (so that it is saved), and none '
      'after it ends. checkpoint() without use_checkpoints() fails. '
      'save_on_exit saves the results on normal exit and on any exception, '
      'interrupts included (under exception_filename if given), '
      'save_on_exception only on exceptions; both pass the arguments of '
      'save_results on and let the exception through.',
      ['histories', 'faults', 'configurations'],
      'every job number, number of checkpoint calls, model class and '
      'configuration, any exception',
      'no test restarts a process; the protocol spans several runs of the '
      'same script, and lost optimizer state only changes the convergence',
      [S + 'models/base.py', S + 'reconstructors/base.py'],
      [('save_checkpoint / load_checkpoint / checkpoint / use_checkpoints / '
        'skip_computation', S + 'models/base.py'),
       ('save_on_exit, save_on_exception', S + 'models/base.py'),
       ('current_optimizer in optimize', S + 'reconstructors/base.py')],
      'abstract interpretation: save composed with load normalised to the '
      'identity, the job protocol unrolled (jobs 0..5), and effect traces of '
      'the context managers on every exit path'),
    P('C07', 'Every option of an optimization reaches what it controls',
      'Whatever is given to Adam_optimize, LBFGS_optimize, SGD_optimize or to '
      'a Reconstructor and its optimize is what the epochs run with, threaded '
      'or not: every parameter of the model is given to the right kind of '
      'optimizer exactly once; each parameter group has the learning rate, '
      'multiplied by the factor given for that parameter and no other, and '
      'the momenta, betas, history size, line search and similar settings '
      'asked for; the exposures come from the dataset, or exactly the asked '
      'subset of it (a single index included), in batches of the asked size '
      '(one when None, all exposures for LBFGS), shuffled as asked, none '
      'dropped, or from the custom data loader if one is given; the '
      'scheduler exists and drives this optimizer only if asked for; '
      'regularization factor and calculation width reach the epoch. Options '
      'left out take the documented default of the routine called, and a '
      'later optimize on the same reconstructor follows its own options. '
      'Learning rate factors for unknown parameters give a warning, not an '
      'error.',
      ['inputs', 'configurations', 'histories'],
      'every value of every option, every entry point and threading mode',
      'a dropped or swapped option changes the convergence of the '
      'reconstruction only; tests use few options and look at the final loss',
      [S + 'reconstructors', S + 'models/base.py'],
      [('Adam_optimize, LBFGS_optimize, SGD_optimize', S + 'models/base.py'),
       ('optimize, adjust_optimizer, setup_dataloader',
        S + 'reconstructors')],
      'abstract interpretation with each option a distinct symbol; the state '
      'of optimizer, loader, scheduler and epoch arguments when an epoch '
      'starts is compared with the options'),
    P('C08', 'A model built from a dataset describes that dataset as asked',
      'SimplePtycho, FancyPtycho, MultislicePtycho, Bragg2DPtycho and RPI '
      'built by from_dataset (RPI also by from_calibration) are given exactly '
      'what the dataset and the caller say: the wavelength, detector '
      'geometry, translations, mask (all pixels if there is none) and '
      'background (as its square root) of the dataset; exposure weights that '
      'follow the square root of the recorded intensities, where the model '
      'uses them; the quantum efficiency mask only if asked for; the sample '
      'orientation as surface normal, and [0, 0, 1] in transmission or '
      'without one; zero translation offsets, one per exposure; the number of '
      'modes, probe support and Fourier shifts asked for; and every '
      'other option (saturation, oversampling, translation_scale, units, '
      'loss, fourier_probe, exponentiate_obj, phase_only, near_field, '
      'propagate_probe, correct_tilt, simulate_*, lens, weight_matrix, dtype, '
      'plot settings) as given, or its default. The initializers get the '
      'same geometry and options: detector shape (not reversed), wavelength, '
      'distance, oversampling, padding, propagation distance, and the object '
      'is laid out for exit waves of the oversampled shape. The pixels of a '
      'probe cropped in Fourier space grow with the crop, axis by axis, the '
      'interslice propagator is made for the oversampled exit waves with the '
      'spacing of each axis, and the RPI object spans the probe. The '
      'constructor '
      'keeps every argument as the attribute of that meaning, selects the '
      'loss and loss normalizer asked for, and get_detector_geometry gives '
      'the geometry back.',
      ['inputs', 'configurations'],
      'every dataset with any of the optional fields missing, every value of '
      'every option, every model class',
      'a dropped or swapped option gives a model that still runs and '
      'converges, only to something else; tests build each model with one or '
      'two option sets',
      [S + 'models', S + 'tools/initializers/initializers.py'],
      [('from_dataset, from_calibration, __init__', S + 'models'),
       ('exit_wave_geometry, calc_object_setup, SHARP_style_probe',
        S + 'tools/initializers/initializers.py')],
      'abstract interpretation of from_dataset with a symbolic dataset and '
      'symbolic options up to the constructor call, and of the constructor '
      'with symbolic arguments; arguments and attributes compared with the '
      'field or option they stand for in algebraic normal form'),
    P('C09', 'Detector models compute the intensities they are documented to',
      'measurements.intensity, incoherent_sum and quadratic_background return '
      'the real, non-negative intensity |w|^2 of the wavefield (summed over '
      'the mode axis, never summed as amplitudes), averaged over '
      'oversampling x oversampling blocks, cut out by detector_slice on the '
      'last two axes, plus epsilon, and only then limited to [0, saturation]; '
      'quadratic_background multiplies the intensity (not the background) by '
      'qe_mask, adds background^2, and applies saturation once, last. '
      'simulate_finite_pixels multiplies the Fourier transform of the '
      'doubly sampled intensity with the transfer function of a square '
      'pixel, for every detector shape, and keeps the detector shape. '
      'Options left out change nothing, and every option given to '
      'quadratic_background reaches the measurement it wraps.',
      ['inputs', 'configurations'],
      'every wavefield (2-d, or a stack of 3 or 4 axes), every combination '
      'of options, every shape',
      'the combinations of options and shapes are many; wrong combinations '
      'still give plausible non-negative images',
      [S + 'tools/measurements/measurements.py'],
      [('intensity, incoherent_sum, quadratic_background',
        S + 'tools/measurements/measurements.py')],
      'abstract interpretation of each function and of a reference '
      '(spec/measurements.py) with the same symbolic arguments for every '
      'combination of options; results compared in algebraic normal form, '
      'with symbolic shapes'),
    P('C10', 'Losses and normalizers follow their definitions and the mask',
      'amplitude_mse, intensity_mse and poisson_nll compute the mean (or, '
      'with use_sum, the sum) of squared differences of square roots, of '
      'squared differences, and the summed Poisson negative log likelihood '
      'with eps added to the simulation (minus its minimum over simulations '
      'with subtract_min), over the pixels where the mask is true and only '
      'those: the value of a masked pixel, even NaN, changes nothing. Each '
      'loss normalizer accumulates over exactly the patterns of the first '
      'epoch and the unmasked pixels, divides by the number of pixels (the '
      'Poisson one subtracts the attainable minimum and divides by half the '
      'number of pixels of at least one count), and patterns seen later do '
      'not change the normalization.',
      ['inputs', 'histories'],
      'all data, masks and options; any number of batches in the first and '
      'later epochs',
      'masked data is usually harmless in test data, and a normalization '
      'error only rescales the reported loss',
      [S + 'tools/losses/losses.py'],
      [('amplitude_mse, intensity_mse, poisson_nll',
        S + 'tools/losses/losses.py'),
       ('AmplitudeMSENormalizer, IntensityMSENormalizer, '
        'SimplePoissonNLLNormalizer', S + 'tools/losses/losses.py')],
      'abstract interpretation against reference definitions '
      '(spec/losses.py) in algebraic normal form; noninterference of masked '
      'pixels by dataflow; normalizer histories of one to three batches and '
      'a second epoch interpreted symbolically'),
    P('C11', 'Interaction models apply exactly the translation they are given',
      'translations_to_pixel and pixel_to_translations project along the '
      'beam onto the sample plane given by the surface normal and convert '
      'with the (pseudo)inverse of the basis, being inverse to each other; '
      'project_translations_to_sample also gives the propagation distance. '
      'ptycho_2D_round, ptycho_2D_linear and ptycho_2D_sinc multiply the '
      'probe with the window of the object at the integer part of the '
      'translation (rows first), and shift the probe by exactly the '
      'remaining fraction (bilinear weights that sum to one, or a Fourier '
      'phase ramp around the zero frequency at n // 2, each axis with its '
      'own length); shift_back_ew undoes that shift exactly. Single '
      'translations and stacks, single and multiple probe modes and object '
      'slices give the same per-exposure result. RPI_interaction upsamples '
      'the object in Fourier space, keeping the zero frequency centred for '
      'odd and even sizes and the mean intensity.',
      ['inputs', 'configurations'],
      'all arrays, translations and surface normals, every documented '
      'number of dimensions and option',
      'a wrong fraction, axis order or sign only blurs or flips the result; '
      'tests sample a few even-sized square arrays',
      [S + 'tools/interactions/interactions.py'],
      [('translations_to_pixel, pixel_to_translations, ptycho_2D_round, '
        'ptycho_2D_linear, ptycho_2D_sinc, RPI_interaction',
        S + 'tools/interactions/interactions.py')],
      'abstract interpretation against reference definitions '
      '(spec/interactions.py) with symbolic arrays, shapes and translations; '
      'algebraic normal forms (matrix products, exponentials, Fourier '
      'transforms, quasi-linear integer arithmetic for the padding)'),
    P('C12', 'Propagators are unitary, invertible and physically oriented',
      'far_field and inverse_far_field are mutually inverse unitary Fourier '
      'transforms over the last two axes with the zero frequency at n // 2, '
      'and near_field / inverse_near_field multiply the spectrum with the '
      'propagator / its conjugate, for any number of leading axes. The '
      'angular spectrum propagators are exp(i phase) with the exact (not '
      'paraxial) longitudinal wavevector relative to a plane wave, the '
      'in-plane frequencies taken from the dual of the given basis with each '
      'axis using its own length and spacing, oriented along the offset or '
      'the given propagation vector, and evanescent waves decaying (also for '
      'a negative distance); the bandlimit keeps the frequencies below it. '
      'The high-NA far field samples the low-NA pattern at the directions of '
      'the pixels (flat or lens geometry) in (column, row) order and scales '
      'it with the solid angle.',
      ['inputs', 'configurations'],
      'all arrays, shapes (odd and even, unequal), bases, offsets, '
      'wavelengths, distances of either sign, options',
      'a wrong axis, sign or convention cancels out in the symmetric, '
      'even-sized, forward-propagating cases tests use',
      [S + 'tools/propagators/propagators.py'],
      [('far_field, near_field, '
        'generate_generalized_angular_spectrum_propagator, '
        'generate_high_NA_k_intensity_map, high_NA_far_field',
        S + 'tools/propagators/propagators.py')],
      'abstract interpretation against reference definitions '
      '(spec/propagators.py) with symbolic arrays and shapes; algebraic '
      'normal forms with (bi)linear operators and symbolic shape inference'),
    P('C13', 'Each model computes the diffraction its parameters describe',
      'For every model (SimplePtycho, FancyPtycho, MultislicePtycho, '
      'Bragg2DPtycho, RPI), every setting of its options and any values of '
      'its parameters, for a single exposure as for a stack: positions are '
      'the given translations in object pixels minus min_translation, plus '
      'translation_scale times the offsets of the same exposures; the probe '
      'modes are restored to physical scale (probe_norm), real space, full '
      'size and support in that order, shifted by the sub-pixel shift and '
      'the probe Fourier shifts of the exposure, and weighted (or mixed by '
      'its weight matrix) with the weights of the same exposure; the object '
      'is used as it is, as exp(i obj), or phase only; slices are alternated '
      'with the interslice propagation, in order; the Bragg probe is moved '
      'to the depth of the exposure; RPI weights and upsamples the object '
      'modes within the support; forward_propagator and backward_propagator '
      'use the registered far- or near-field propagator (backward the '
      'inverse, or NotImplementedError where there is none); measurement '
      'is quadratic_background (incoherent over modes) with the registered '
      'background, saturation, qe_mask and oversampling, simulating finite '
      'pixels if asked; and forward chains interaction, propagation and '
      'measurement. corrected_translations gives back the dataset '
      'translations plus the offsets in physical units. Without the '
      'optional quantities the model computes the same with neutral ones.',
      ['inputs', 'configurations'],
      'all parameter values, shapes, index sets and single indices, every '
      'combination of option settings (one or two at a time off the '
      'default)',
      'a reconstruction with a wrong forward model still converges to '
      'something; tests compare a few models on one dataset with a coarse '
      'threshold on the final loss',
      [S + 'models/simple_ptycho.py', S + 'models/fancy_ptycho.py',
       S + 'models/multislice_ptycho.py', S + 'models/bragg_2d_ptycho.py',
       S + 'models/rpi.py', S + 'models/base.py'],
      [('interaction, forward_propagator, backward_propagator, measurement, '
        'corrected_translations', S + 'models'),
       ('forward', S + 'models/base.py')],
      'abstract interpretation of each method and of a reference '
      '(spec/models.py) on the same abstract model for every option; results '
      'compared in algebraic normal form, the tools first as uninterpreted '
      '(bi)linear functions and then inlined'),
    P('C14', 'Gradients reach every trainable parameter, unbroken',
      'Probe and object of every model, the background, weights, translation '
      'offsets and probe Fourier shifts of the models that have them, and the '
      'weight matrix of RPI if asked for, are parameters with requires_grad; '
      'everything else a model holds (wavelength, geometry, masks, supports, '
      'propagators, scales, the qe_mask, the RPI probe) is not trained by '
      'default. For every option setting the simulated pattern depends '
      'differentiably on each trainable parameter it is computed from, and no '
      'value computed from one is detached (detach, .data, no_grad, item, '
      'numpy) on the way to the result: automatic differentiation sees the '
      'whole forward model. The interaction functions, propagators, '
      'measurements and losses likewise pass gradients to each differentiable '
      'argument (wavefields, probe, object, translations, background, '
      'simulated intensities), the integer part of a translation excepted.',
      ['inputs', 'configurations'],
      'all parameter values and option settings, all dimensionalities',
      'a reconstruction with a missing or partial gradient still runs and '
      'lowers the loss; tests never look at gradients',
      [S + 'models/simple_ptycho.py', S + 'models/fancy_ptycho.py',
       S + 'models/multislice_ptycho.py', S + 'models/bragg_2d_ptycho.py',
       S + 'models/rpi.py', S + 'models/base.py',
       S + 'tools/interactions/interactions.py',
       S + 'tools/measurements/measurements.py',
       S + 'tools/losses/losses.py',
       S + 'tools/propagators/propagators.py'],
      [('__init__ (Parameter, register_buffer, requires_grad)', S + 'models'),
       ('forward and all it calls', S + 'models, ' + S + 'tools')],
      'abstract interpretation of constructor and forward model, then '
      'reachability on the value graph along differentiable edges; detaching '
      'operations on a differentiable path are violations'),
    P('C15', 'Dataset operations keep every per-exposure and per-pixel field in step',
      'Ptycho2DDataset keeps what it is given (patterns, translations, mask, '
      'background, qe_mask, intensities, wavelength, geometry, metadata '
      'dictionaries copied), masks every pixel that is NaN in any exposure and '
      'then zeroes it. len is the number of exposures; dataset[i] is ((i, '
      'translations[i]), patterns[i]) moved as get_as asked. to moves '
      'patterns, translations, mask (which stays boolean), background and '
      'qe_mask. split gives two independent datasets which partition the '
      'exposures by one fixed selection. remove_translations_mask and '
      'crop_translations (bounds inclusive, in either order) drop the same '
      'exposures from patterns, translations and intensities. pad (an int, a '
      '(rows, columns) pair or four margins) pads patterns with the value, '
      'the mask with the mask value, the background with zero, the qe_mask '
      'with one and moves the detector corner out by the padded pixels; '
      'downsample sums patterns and background, bins the mask and qe_mask '
      'and enlarges the pixels. Fields an operation is not about are left '
      'alone, and optional fields which are absent stay absent.',
      ['inputs', 'configurations'],
      'all datasets, with each optional field present or absent; all argument '
      'forms',
      'a field left behind by an operation silently mis-aligns patterns, '
      'translations and masks in the reconstruction',
      [S + 'datasets/base.py', S + 'datasets/ptycho_2d_dataset.py'],
      [('CDataset.__init__/to/get_as/__getitem__', S + 'datasets/base.py'),
       ('Ptycho2DDataset.__init__/to/split/pad/downsample/'
        'remove_translations_mask/crop_translations',
        S + 'datasets/ptycho_2d_dataset.py')],
      'abstract interpretation of each operation to the symbolic final value '
      'of every field, compared with a reference; selections compared as '
      'truth tables over their comparison atoms'),
    P('C16', 'Everything works on the device the model and its data are on',
      'On the forward path, in the losses, propagators, interactions, '
      'measurements, backward propagation, corrected_translations, '
      'center_probes, tidy_probes, get_probe_intensities, the object '
      'initialisations of RPI, sim_to_dataset, save_results and the plot '
      'functions, only values on the same device are combined: whatever is '
      'created on the way is created on, or moved to, the device of the '
      'model or of the arguments. Every tensor a model keeps and later '
      'combines with the others is registered, so that it moves along with '
      'the model; parameters which are rewritten in place stay where they '
      'were. Results of tools are on the device of their arguments. What is '
      'read as a numpy array, shown in a plot or saved has been moved to the '
      'CPU first.',
      ['inputs', 'configurations'],
      'all devices; all constructor configurations of every shipped model; '
      'all option combinations of the tools',
      'a tensor left on the CPU only fails on machines with an accelerator, '
      'which the tests never use, usually at the end of a long run '
      '(saving, plotting)',
      [S + 'models', S + 'tools', S + 'datasets'],
      [('register_buffer / .to(device=...)', S + 'models'),
       ('tools.interactions', S + 'tools/interactions/interactions.py'),
       ('tools.measurements', S + 'tools/measurements/measurements.py'),
       ('tools.plotting', S + 'tools/plotting/plotting.py')],
      'abstract interpretation of every method and tool into value graphs '
      'over which a device (moved along, CPU, numpy, number) is propagated; '
      'a mix or a numpy read of a moved value is a violation'),
    P('C17', 'Image processing finds and applies shifts, for every shape',
      'sinc_subpixel_shift moves an image by exactly the shift asked for '
      '(the phase ramp of each axis is scaled with the length of that axis). '
      'centroid and centroid_sq return the intensity-weighted mean index of '
      'the last axes, in their order, for any number of leading axes. '
      'find_pixel_shift, find_subpixel_shift and find_shift return the '
      'position of the maximum of the phase correlation of the first image '
      'with the second, wrapped into [-n/2, n/2) of each axis, to the '
      'resolution asked for, around the position asked for. convolve_1d '
      'convolves circularly along the axis asked for with the kernel, '
      'centered if so. fourier_upsample pads around the zero frequency, so '
      'the image stays where it is, and preserves the mean if asked to. '
      'hann_window is the window of the shape of the image; center moves '
      'the centroid of the (squared) modulus of a stack to the center, '
      'shifting each image the same way, as often as asked.',
      ['inputs'],
      'all images, shifts, resolutions, factors, axes; even and odd, square '
      'and non-square shapes; any leading axes',
      'the tests use even, mostly square images and single shifts; a wrong '
      'axis or shift direction only shows on odd or non-square ones',
      [S + 'tools/image_processing'],
      [('centroid', S + 'tools/image_processing/image_processing.py'),
       ('sinc_subpixel_shift', S + 'tools/image_processing/image_processing.py'),
       ('find_shift', S + 'tools/image_processing/image_processing.py'),
       ('fourier_upsample', S + 'tools/image_processing/image_processing.py')],
      'interpretation of each function and of a reference written from its '
      'documentation into value graphs with symbolic shapes, compared in '
      'algebraic normal form'),
    P('C18', 'The reconstruction metrics are the quantities they document',
      'product_svd and orthogonalize_probes return orthogonal modes that '
      'describe the same light (probes, optionally mixed by a weight '
      'matrix, and the weights re-expressed for them); the mode power '
      'fractions, von Neumann entropy, fidelity, RMS error and generalized '
      'RMS error are their documented formulas, over the last dims axes, '
      'with the documented phase alignment and normalization. calc_frc, '
      'calc_generalized_frc, the PRTF and the spectral signal-to-noise '
      'information bin by the spatial frequency belonging to each axis of '
      'the array, up to the limit asked for, with the documented threshold '
      'curves. standardize, synthesize_reconstructions, remove_phase_ramp, '
      'remove_amplitude_exponent and the standardize_reconstruction_* '
      'functions only remove the degeneracies they name, with the opposite '
      'correction of probe, object and weights, align each object with the '
      'first, and report the metrics of exactly the aligned objects. NumPy '
      'arrays and tensors give the same result, of the kind they came in.',
      ['inputs'],
      'all arrays, symbolic shapes, tensors and NumPy arrays, every '
      'combination of the options listed in checks/c18.py; lists of one, two '
      'and three reconstructions',
      'the tests compute some of the metrics for one random square array and '
      'check little more than that the call succeeds; a swapped basis axis, '
      'normalisation or conjugation there does not show',
      [S + 'tools/analysis'],
      [('orthogonalize_probes', S + 'tools/analysis/analysis.py'),
       ('calc_frc', S + 'tools/analysis/analysis.py'),
       ('calc_generalized_rms_error', S + 'tools/analysis/analysis.py'),
       ('standardize_reconstruction_set', S + 'tools/analysis/analysis.py')],
      'interpretation of each function and of a reference written from its '
      'documentation into value graphs with symbolic shapes, compared in '
      'algebraic normal form; numerical decompositions and optimisers stay '
      'uninterpreted functions of what they are given'),
    P('C19', 'Initial guesses match the data and the geometry they are made '
             'from',
      'exit_wave_geometry gives the real space basis reciprocal to the '
      'detector basis for any, also non-orthogonal or non-square, detector; '
      'calc_object_setup gives an array that holds the probe at every '
      'translation, with the padding on both sides. gaussian and '
      'gaussian_probe are the documented Gaussians, at the documented '
      'center, with the width and curvature of each axis in its own pixels '
      'and the intensity of the average pattern. The SHARP and STEM style '
      'probes are computed from the masked average pattern with the '
      'background removed, go to the plane of the probe, sit centered in the '
      'oversampled array for any size, and are propagated with the pixel '
      'spacing of that array. generate_subdominant_modes gives the '
      'documented sequence of modes, each with the intensity of the dominant '
      'one. This holds for datasets with and without mask and background.',
      ['inputs'],
      'all arrays, detector geometries and datasets, with symbolic shapes; '
      'every combination of the options and optional dataset entries listed '
      'in checks/c19.py',
      'the tests check one orthogonal detector and one dataset with a mask; '
      'the near field, STEM style and subdominant modes are not tested at '
      'all, and an off-center probe or a swapped axis only makes '
      'reconstructions worse',
      [S + 'tools/initializers'],
      [('exit_wave_geometry', S + 'tools/initializers/initializers.py'),
       ('calc_object_setup', S + 'tools/initializers/initializers.py'),
       ('SHARP_style_probe', S + 'tools/initializers/initializers.py'),
       ('generate_subdominant_modes',
        S + 'tools/initializers/initializers.py')],
      'interpretation of each initializer and of a reference written from '
      'its documentation into value graphs over a symbolic dataset, compared '
      'in algebraic normal form'),
    P('C20', 'Reading does not write: tools and read-only methods leave '
             'their inputs unchanged',
      'A tool function never changes the arrays, lists or dictionaries it is '
      'given. Simulating, measuring, computing a loss, inspecting, plotting, '
      'saving and comparing never change the model parameters, the buffers '
      'of the model or the data of the dataset: every method of a model or '
      'dataset other than those that are documented to change it (the '
      'optimizers, tidy_probes, corrections, masks, crop, downsample, '
      'transforms) leaves the storage behind every attribute as it found it, '
      'also through views such as tensor.detach().cpu().numpy(). Building a '
      'model from a dataset does not change the dataset.',
      ['inputs', 'histories'],
      'all arrays; every tool function with the argument forms the other '
      'checks use, every read-only method and every plot of every model in '
      'every configuration of C13, every read-only method of the dataset',
      'an in-place operation on a view gives the right result for the first '
      'call; the damage shows in the second call, in a later epoch or in the '
      'saved file, which the tests do not compare',
      [S + 'tools', S + 'models', S + 'datasets'],
      [('center', S + 'tools/image_processing/image_processing.py'),
       ('FancyPtycho.save_results', S + 'models/fancy_ptycho.py'),
       ('FancyPtycho.get_probe_intensities', S + 'models/fancy_ptycho.py'),
       ('Ptycho2DDataset.inspect', S + 'datasets/ptycho_2d_dataset.py')],
      'effect analysis: every in-place operation found by the interpreter is '
      'resolved to the storage it writes through views and helper calls'),
    P('C21', 'Simulated datasets, probe maintenance and RPI guesses '
             'follow their definitions',
      'A dataset simulated from a model holds exactly the patterns that the '
      'forward model predicts for the given exposures, in their order and '
      'whatever the size of the pieces it is calculated in, detached from '
      'the graph, with the translations, the wavelength, the mask and the '
      'detector geometry of the model and an orientation that describes its '
      'surface normal. center_probes centers the probe in real space also '
      'when it is stored in Fourier space. tidy_probes replaces the modes by '
      'the orthogonal modes of all exposures and expresses the weights of '
      'every exposure in them, so that no exposure changes. '
      'get_probe_intensities and get_rhos return the intensity and the '
      'density matrix of every exposure. The initial guesses of RPI have the '
      'requested shape and number of modes and are drawn from the ranges '
      'they are documented with.',
      ['inputs', 'histories'],
      'all parameter values, numbers of exposures, piece sizes and numbers of '
      'modes, for all models that simulate and all that have several modes, '
      'with and without weight matrices and fourier_probe',
      'the tests look at plots of the results; a wrong orientation of a '
      'simulated dataset, a lost last exposure or a changed normalization of '
      'the modes is only seen by later analyses',
      [S + 'models/fancy_ptycho.py', S + 'models/multislice_ptycho.py',
       S + 'models/bragg_2d_ptycho.py', S + 'models/rpi.py'],
      [('FancyPtycho.sim_to_dataset', S + 'models/fancy_ptycho.py'),
       ('FancyPtycho.tidy_probes', S + 'models/fancy_ptycho.py'),
       ('MultislicePtycho.center_probes', S + 'models/multislice_ptycho.py'),
       ('FancyPtycho.get_probe_intensities', S + 'models/fancy_ptycho.py'),
       ('RPI.init_obj', S + 'models/rpi.py')],
      'value graph of each method against a reference method, with the '
      'package tools uninterpreted; graph membership by provenance of the '
      'stored patterns'),
    P('C22', 'Models built from a dataset start from the documented '
             'initial guess',
      'from_dataset hands the constructor exactly the geometry and the '
      'initial guesses that its options describe: the probe and object '
      'bases (including the magnification of near-field geometries, the '
      'oversampling and the crop of the probe in Fourier space), the object '
      'size and its view crop, the pixel translations with their offset, '
      'the surface normal, the probe guess with the share and number of its '
      'incoherent modes, the object guess, background, mask, support, '
      'weights and the propagators together with their inverses. What the '
      'caller leaves out is taken from the dataset, and from the documented '
      'default otherwise. RPI starts from the requested kind of guess, with '
      'the support that the threshold defines on the probe.',
      ['inputs'],
      'all datasets, detector shapes, translations and values of the '
      'options, for all five models, with each option given or left out and '
      'the combinations that interact',
      'a wrong basis, weight or starting point still reconstructs the '
      'simple datasets of the tests after enough epochs; most options are '
      'used by no test',
      [S + 'models/fancy_ptycho.py', S + 'models/multislice_ptycho.py',
       S + 'models/bragg_2d_ptycho.py', S + 'models/simple_ptycho.py',
       S + 'models/rpi.py'],
      [('FancyPtycho.from_dataset', S + 'models/fancy_ptycho.py'),
       ('MultislicePtycho.from_dataset', S + 'models/multislice_ptycho.py'),
       ('Bragg2DPtycho.from_dataset', S + 'models/bragg_2d_ptycho.py'),
       ('SimplePtycho.from_dataset', S + 'models/simple_ptycho.py'),
       ('RPI.from_dataset', S + 'models/rpi.py')],
      'value graph of every argument that reaches the constructor against a '
      'reference construction, with the package tools uninterpreted'),
    P('C23', 'Plots show what they say: the documented quantity in stated '
             'units',
      'The plotting functions hand matplotlib the documented quantity of '
      'the tensor they are given (real part, imaginary part, amplitude, '
      'phase, or the colorized complex field), for the indices the sliders '
      'stand at, with the documented extent, axis labels and color limits '
      'in the requested units and basis, and keep the limits the caller '
      'gave when a slider moves. The plots each model offers show the '
      'quantity in their title from the current parameters of that model, '
      'in its own basis and units; inspect shows those whose condition and '
      'plot level allow it. compare and the dataset browser show the '
      'simulated and measured patterns that belong to the index of the '
      'slider, and their masked difference.',
      ['inputs', 'history'],
      'all tensor values, shapes with up to two extra axes, units, bases, '
      'limits and slider positions; every entry of plot_list and '
      'plot_panel_list of five models',
      'no test looks at the content of a plot: the tests only open the '
      'figures, most plots of the models are never opened, and no slider is '
      'ever moved',
      [S + 'tools/plotting/plotting.py', S + 'models/base.py',
       S + 'models/fancy_ptycho.py', S + 'models/multislice_ptycho.py',
       S + 'models/bragg_2d_ptycho.py', S + 'models/simple_ptycho.py',
       S + 'models/rpi.py', S + 'datasets/ptycho_2d_dataset.py'],
      [('plot_image', S + 'tools/plotting/plotting.py'),
       ('plot_translations', S + 'tools/plotting/plotting.py'),
       ('plot_nanomap', S + 'tools/plotting/plotting.py'),
       ('CDIModel.inspect', S + 'models/base.py'),
       ('CDIModel.compare', S + 'models/base.py'),
       ('FancyPtycho.plot_wavefront_variation',
        S + 'models/fancy_ptycho.py'),
       ('Ptycho2DDataset.inspect', S + 'datasets/ptycho_2d_dataset.py')],
      'value graph of the arguments of the matplotlib calls against a '
      'reference construction from the documentation'),
    P('C24', 'An argument that is left out takes its documented value',
      'Where the documentation of a function or method states the default of '
      'an argument (learning rates, betas, calculation widths and threading '
      'of the optimizers, oversampling, resolutions, iterations, '
      'normalization and alignment flags, numbers of dimensions, padding '
      'values, color maps and plot conventions), leaving that argument out '
      'is the same as passing that value. The Adam, LBFGS and SGD optimize '
      'methods of a model use the same values for options that are left out '
      'as the reconstructors they run.',
      ['inputs'],
      'every call, for 100 documented defaults of 62 functions and all '
      'options of the three optimizers',
      'tests pass the options they depend on, or only check that a result is '
      'reasonable, which it is for many values of an option',
      [S + 'models/base.py', S + 'reconstructors/*.py', S + 'tools/**/*.py',
       S + 'datasets/ptycho_2d_dataset.py'],
      [('CDIModel.Adam_optimize', S + 'models/base.py'),
       ('AdamReconstructor.optimize', S + 'reconstructors/adam.py'),
       ('calc_frc', S + 'tools/analysis/analysis.py'),
       ('find_subpixel_shift',
        S + 'tools/image_processing/image_processing.py'),
       ('amplitude_mse', S + 'tools/losses/losses.py')],
      'constant folding of the defaults in the signatures (and of what '
      'replaces None in the body) against the values of the docstrings'),
]
