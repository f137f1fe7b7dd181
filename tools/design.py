"""Writes DESIGN.md from design_head.md, props.py, the notes below,
seeded/*/meta.json and known_findings.txt."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import PROPS, NOT_APPLICABLE                            # noqa: E402

NOTES = {
    'C01': ('all combinations of optional fields present or absent, for the '
            'path and the open-file forms of to_cxi and from_cxi, for the '
            'base class and Ptycho2DDataset, and each add_/get_ pair of '
            'tools/data',
            'the identity: reading after writing gives the very term that '
            'was written; and the documented cxi layout (paths, attributes, '
            'units, signs, transpositions), so that changing both sides '
            'alike is seen as well; spec/cxi.py for files that describe '
            'their geometry in another way',
            'none; casts are those documented'),
    'C02': ('constructor, save_results, the .h5 leg and from_results_dict of '
            'each model, with every option and with each optional argument '
            'absent',
            'the identity per tensor and per option; the documented list of '
            'results', 'none'),
    'C03': ('save_checkpoint composed with load_checkpoint, with and without '
            'a live optimizer; a script with several checkpoints run as jobs '
            '0 to 5; save_on_exit and save_on_exception on every exit path',
            'the identity of the reloaded state; the job protocol (skip what '
            'is done, compute one section, stop)',
            'job count; the file system is an abstract store'),
    'C04': ('run_epoch of each reconstructor, whole batches and pieces',
            'each exposure of the batch contributes exactly once, with its '
            'weight', 'none: sizes are symbolic'),
    'C05': ('the reconstruction loop with and without a thread, with skipped '
            'epochs, over several successive calls',
            'the specified final heap and sequence of yields',
            'two or three epochs are unrolled'),
    'C06': ('worker body and waiting loop, each statement with its '
            'exceptional successors',
            'typestate of the worker: stopped and joined on every exit, '
            'errors re-raised exactly once',
            'the two threads are analysed separately, with the events and '
            'queue between them as protocol'),
    'C07': ('every parameter of the reconstructors and of the *_optimize '
            'methods of the models as a distinct symbol',
            'a table: option and the place it controls', 'none'),
    'C08': ('from_dataset and from_calibration of each model, every option '
            'on its own and chosen pairs',
            'spec/construction.py and a table of what each constructor '
            'argument stands for', 'the guesses themselves are in C19'),
    'C09': ('all options of the measurement functions, single and many '
            'exposures and modes', 'spec/measurements.py', 'none'),
    'C10': ('each loss and normalizer with and without a mask, and their use '
            'by each model', 'spec/losses.py; noninterference of masked '
            'pixels', 'normalizer histories of one to three batches'),
    'C11': ('all of tools/interactions but the broken legacy '
            'ptycho_2D_sinc_s_matrix', 'spec/interactions.py', 'none'),
    'C12': ('all of tools/propagators', 'spec/propagators.py, and inverse '
            'pairs composed', 'none'),
    'C13': ('every method on the forward path of each model and option, with '
            'the tools uninterpreted and again inlined', 'spec/models.py',
            'up to three slices and modes where these are Python loops'),
    'C14': ('constructor and forward path of each model and option, each '
            'argument of each tool function',
            'reachability along differentiable edges; a cut (detach, data, '
            'item, no_grad) on a differentiable path is a violation', 'none'),
    'C15': ('each dataset operation with each optional field absent in turn',
            'spec/datasets.py; truth tables over the comparison atoms for '
            'selections', 'none'),
    'C16': ('every method and tool named, in every configuration; each value '
            'that is computed, kept, returned or handed to a library call',
            'the device lattice {moved along, CPU, numpy, number}; CPU and '
            'moved values meet only in assignments into existing arrays',
            'devices are one abstract accelerator and the CPU; two different '
            'accelerators are not told apart'),
    'C17': ('all ten functions of tools.image_processing, for 2D images and '
            'stacks of symbolic shape, and each combination of options',
            'spec/image_processing.py, written from the documentation',
            'shapes, shifts, factors and resolutions symbolic; center up to '
            'its default of 4 iterations; the sign convention of find_shift '
            'is the one the tests fix'),
    'C18': ('the nineteen functions of tools.analysis with the options, kinds '
            'of arrays and numbers of reconstructions listed in the check',
            'spec/analysis.py, written from the documentation',
            'shapes, bases, windows and bin numbers symbolic; svd, qr, '
            'eigvalsh, histogram, minimize and ConvexHull are uninterpreted '
            'functions of their arguments; find_shift, hann_window (C17) and '
            'the metrics are opaque where another function combines them; '
            'how well a fit converges is not decided'),
    'C19': ('exit_wave_geometry, calc_object_setup, gaussian, gaussian_probe, '
            'the SHARP and STEM style probes and generate_subdominant_modes',
            'spec/initializers.py, written from the documentation and the '
            'conventions the propagators and models use',
            'shapes, bases and data symbolic; 1, 2, 3 and 6 subdominant '
            'modes; one loop iteration per pattern of the dataset in general '
            'form; RPI_spectral_init (undocumented) and the polarized branch '
            'of gaussian_probe are not analysed'),
    'C20': ('every tool function with the argument forms of C09-C12 and '
            'C17-C19; every read-only method and every plot of every model; '
            'from_dataset of every model; the read-only methods of '
            'Ptycho2DDataset',
            'the rule itself: storage that belongs to an argument, the '
            'dataset or an attribute of the model is not written to. Views '
            '(indexing with basic indices, detach, numpy, real, reshape, as '
            'long as NumPy and torch return a view) keep the identity of '
            'their storage, copies and arithmetic do not',
            'torch.as_tensor of an array of another type and .cpu() on a GPU '
            'copy: the case in which they share memory is analysed. '
            'reshape of a non-contiguous array is taken as a view only where '
            'the interpreter can tell. Third party functions outside the '
            'table of in-place functions are taken not to write'),
    'C21': ('sim_to_dataset of Fancy, Multislice and Bragg models, '
            'center_probes, tidy_probes, get_probe_intensities and get_rhos '
            'of the two multi-mode models with vector and matrix weights, '
            'and the initial guesses of RPI',
            'spec/maintenance.py, written from the documentation; the '
            'forward model, far_field, center, orthogonalize_probes and '
            'svd are uninterpreted (decided by C08, C12, C17, C18)',
            'sizes are symbolic and distinct. The device a result lands on '
            'and random numbers are not compared, only the ranges they are '
            'drawn from. svd is not known to be unique up to phases: the '
            'reference uses the same decomposition'),
    'C22': ('from_dataset of FancyPtycho, MultislicePtycho, Bragg2DPtycho, '
            'SimplePtycho and RPI, for every option given and left out and '
            'the combinations that interact; every constructor argument is '
            'an obligation',
            'spec/guesses.py, written from the docstrings; the initializers, '
            'propagators and coordinate transforms are uninterpreted (decided '
            'by C04, C05, C07, C20)',
            'the dataset, the options and all sizes are symbolic; where sizes '
            'have to be counted (number of modes, slices) they are small '
            'constants. Devices, dtypes and print output are not compared'),
    'C23': ('the image, point, color and comparison plots of '
            'tools.plotting with each option given and left out and after a '
            'move of the sliders, every entry of plot_list and '
            'plot_panel_list of five models, CDIModel.inspect and compare '
            'and Ptycho2DDataset.inspect; every value given to a matplotlib '
            'call is an obligation',
            'spec/plots.py, written from the docstrings and the titles of '
            'the plots; matplotlib itself is trusted to draw what it is '
            'given',
            'tensors are symbolic with up to two extra axes; number of '
            'modes, slices and sliders are small constants. The layout of '
            'figures, save_figures, the key bindings and the values of the '
            'colormap are not compared'),
    'C24': ('the signature of every function of the package whose docstring '
            'states a default, and the signatures of the three optimize '
            'methods of models against those of the reconstructors',
            'the docstrings, and spec/defaults.py, the values they state at the '
            'pinned commit',
            'defaults that do not fold to a constant are undecided, as is a '
            'None that the body does not replace in one recognised place; '
            'defaults without a documented value are not compared'),
}

TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()


def main():
    out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read(),
           '\n## Properties\n']
    for p in PROPS:
        i = p['id']
        if i in NOT_APPLICABLE:
            out.append('### %s %s\n\nNot applicable: %s\n' % (
                i, p['title'], NOT_APPLICABLE[i]))
            continue
        a, o, b = NOTES[i]
        out.append('### %s %s\n\nMethod: %s.\nAnalysed: %s.\nOracle: %s.\n'
                   'Bounds: %s.\n' % (i, p['title'], p['technique'], a, o, b))
        out.append('Why tests cannot settle it: %s.\n' % (
            p['why_tests_cant'],))
    out.append('\n## Planted bugs\n\nEach passes the stable tests; each is '
               'caught by the check of its property.\n\n')
    sd = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        out.append('* `%s` (%s): %s. Needs: %s.%s\n' % (
            n, m['property'], m['what_it_breaks'], m['needs'],
            ' NOT caught.' if m.get('missed') else ''))
    out.append('\n## Defects found and repaired\n\n')
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        if line.startswith('fixed:'):
            w = line.split()
            out.append('* %s `%s`: %s\n' % (
                w[1].split('=')[1], w[2], ' '.join(w[3:])))
        elif line.startswith('known:'):
            out.append('* NOT repaired: %s\n' % line[6:].strip())
    out.append('\n' + TAIL)
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))


if __name__ == '__main__':
    main()
