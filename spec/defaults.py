"""The values the docstrings state for arguments that are left out."""

STATED = {
    ('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset.downsample'):
        {'factor': 2},
    ('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset.from_cxi'):
        {'cut_zeros': True},
    ('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset.plot_mean_pattern'):
        {'log_offset': 1},
    ('cdtools.datasets.ptycho_2d_dataset', 'Ptycho2DDataset.pad'):
        {'value': 0, 'mask': True},
    ('cdtools.models.base', 'CDIModel.Adam_optimize'):
        {'lr': 0.005, 'betas': (0.9, 0.999), 'thread': True, 'calculation_width': 10},
    ('cdtools.models.base', 'CDIModel.LBFGS_optimize'):
        {'thread': True, 'calculation_width': 10},
    ('cdtools.models.base', 'CDIModel.SGD_optimize'):
        {'thread': True, 'calculation_width': 10},
    ('cdtools.models.base', 'CDIModel.__init__'):
        {'panel_plot_mode': False, 'plot_level': float('inf')},
    ('cdtools.models.base', 'CDIModel.compare'):
        {'logarithmic': False},
    ('cdtools.models.base', 'CDIModel.inspect'):
        {'replot_all': False},
    ('cdtools.models.base', 'CDIModel.plot_loss_history'):
        {'clear_fig': True},
    ('cdtools.models.base', 'CDIModel.save_figures'):
        {'extension': '.pdf'},
    ('cdtools.models.fancy_ptycho', 'FancyPtycho.from_dataset'):
        {'panel_plot_mode': True},
    ('cdtools.models.fancy_ptycho', 'FancyPtycho.center_probes'):
        {'iterations': 4},
    ('cdtools.reconstructors.adam', 'AdamReconstructor.adjust_optimizer'):
        {'lr': 0.005, 'betas': (0.9, 0.999)},
    ('cdtools.reconstructors.adam', 'AdamReconstructor.optimize'):
        {'lr': 0.005, 'betas': (0.9, 0.999), 'thread': True, 'calculation_width': 10},
    ('cdtools.reconstructors.base', 'Reconstructor.optimize'):
        {'batch_size': 1, 'thread': True, 'calculation_width': 10},
    ('cdtools.reconstructors.base', 'Reconstructor.run_epoch'):
        {'calculation_width': 10},
    ('cdtools.reconstructors.lbfgs', 'LBFGSReconstructor.adjust_optimizer'):
        {'lr': 0.005},
    ('cdtools.reconstructors.lbfgs', 'LBFGSReconstructor.optimize'):
        {'lr': 0.1, 'thread': True, 'calculation_width': 10},
    ('cdtools.reconstructors.sgd', 'SGDReconstructor.adjust_optimizer'):
        {'lr': 0.005},
    ('cdtools.reconstructors.sgd', 'SGDReconstructor.optimize'):
        {'lr': 2e-07, 'thread': True, 'calculation_width': 10},
    ('cdtools.tools.analysis.analysis', 'calc_fidelity'):
        {'dims': 2},
    ('cdtools.tools.analysis.analysis', 'calc_frc'):
        {'limit': 'side'},
    ('cdtools.tools.analysis.analysis', 'calc_generalized_rms_error'):
        {'normalize': False, 'dims': 2},
    ('cdtools.tools.analysis.analysis', 'calc_mode_power_fractions'):
        {'n_probe_dims': 2, 'assume_preorthogonalized': False},
    ('cdtools.tools.analysis.analysis', 'calc_rms_error'):
        {'align_phases': True, 'normalize': False, 'dims': 2},
    ('cdtools.tools.analysis.analysis', 'orthogonalize_probes'):
        {'n_probe_dims': 2},
    ('cdtools.tools.analysis.analysis', 'standardize'):
        {'correct_ramp': False},
    ('cdtools.tools.analysis.analysis', 'standardize_reconstruction_set'):
        {'correct_phase_offset': True, 'correct_phase_ramp': True,
         'correct_amplitude_exponent': False},
    ('cdtools.tools.analysis.analysis', 'standardize_reconstruction_pair'):
        {'correct_phase_offset': True, 'correct_phase_ramp': True,
         'correct_amplitude_exponent': False},
    ('cdtools.tools.analysis.analysis', 'synthesize_reconstructions'):
        {'use_probe': False, 'correct_ramp': False},
    ('cdtools.tools.data.data', 'get_data'):
        {'cut_zeros': True},
    ('cdtools.tools.image_processing.image_processing', 'center'):
        {'image_dims': 2, 'use_power': True, 'iterations': 4},
    ('cdtools.tools.image_processing.image_processing', 'centroid'):
        {'dims': 2},
    ('cdtools.tools.image_processing.image_processing', 'centroid_sq'):
        {'dims': 2, 'comp': False},
    ('cdtools.tools.image_processing.image_processing', 'convolve_1d'):
        {'dim': 0, 'fftshift_kernel': True},
    ('cdtools.tools.image_processing.image_processing', 'find_shift'):
        {'resolution': 10},
    ('cdtools.tools.image_processing.image_processing', 'find_subpixel_shift'):
        {'search_around': (0, 0), 'resolution': 10},
    ('cdtools.tools.initializers.initializers', 'SHARP_style_near_field_probe'):
        {'oversampling': 1},
    ('cdtools.tools.initializers.initializers', 'SHARP_style_probe'):
        {'oversampling': 1},
    ('cdtools.tools.initializers.initializers', 'STEM_style_probe'):
        {'oversampling': 1},
    ('cdtools.tools.initializers.initializers', 'exit_wave_geometry'):
        {'oversampling': 1},
    ('cdtools.tools.initializers.initializers', 'gaussian'):
        {'amplitude': 1},
    ('cdtools.tools.initializers.initializers', 'gaussian_probe'):
        {'propagation_distance': 0},
    ('cdtools.tools.initializers.initializers', 'generate_subdominant_modes'):
        {'circular': True},
    ('cdtools.tools.interactions.interactions', 'ptycho_2D_linear'):
        {'shift_probe': True},
    ('cdtools.tools.interactions.interactions', 'ptycho_2D_sinc'):
        {'shift_probe': True, 'shift_back_ew': False},
    ('cdtools.tools.interactions.interactions', 'ptycho_2D_sinc_s_matrix'):
        {'shift_probe': True, 'padding': 10},
    ('cdtools.tools.losses.losses', 'amplitude_mse'):
        {'use_sum': False},
    ('cdtools.tools.losses.losses', 'intensity_mse'):
        {'use_sum': False},
    ('cdtools.tools.losses.losses', 'poisson_nll'):
        {'subtract_min': False},
    ('cdtools.tools.measurements.measurements', 'incoherent_sum'):
        {'oversampling': 1},
    ('cdtools.tools.measurements.measurements', 'intensity'):
        {'oversampling': 1},
    ('cdtools.tools.measurements.measurements', 'quadratic_background'):
        {'oversampling': 1},
    ('cdtools.tools.plotting.plotting', 'plot_amplitude'):
        {'cmap': 'viridis'},
    ('cdtools.tools.plotting.plotting', 'plot_imag'):
        {'cmap': 'viridis'},
    ('cdtools.tools.plotting.plotting', 'plot_image'):
        {'cmap': 'viridis', 'show_cbar': True, 'updateable_colorbar': True},
    ('cdtools.tools.plotting.plotting', 'plot_nanomap'):
        {'cmap': 'viridis', 'convention': 'probe', 'invert_xaxis': True},
    ('cdtools.tools.plotting.plotting', 'plot_phase'):
        {'cmap': 'cividis'},
    ('cdtools.tools.plotting.plotting', 'plot_real'):
        {'cmap': 'viridis'},
    ('cdtools.tools.plotting.plotting', 'plot_translations'):
        {'invert_xaxis': True, 'clear_fig': True},
}

# a method that is documented to run another one, with the same options
SAME = [
    (('cdtools.models.base', 'CDIModel.%s_optimize' % n),
     ('cdtools.reconstructors.' + n.lower(), n + 'Reconstructor.optimize'))
    for n in ('Adam', 'LBFGS', 'SGD')]
