from . import config, purity, synth, synth2, coords, errors, times, files, spectra, loaders, optional, induction, refusals, wholenumbers, figures, notices, defaults, building, interface  # noqa
