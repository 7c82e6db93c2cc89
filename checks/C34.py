import vb
H = [dict(name='mcgen', main='C34_mcgen.cc', srcs=[vb.SIM + 'MonteCarloGeneration', vb.UTL + 'compareFloatingPoint/src'], main_flags=['-fno-access-control'], soft=True, flags=['-O1'], timeout=20, max_seconds=100, max_seconds_thorough=850, asan=True,
     ldflags=['-Wl,--wrap=system'],
     bounds='real MonteCarloGeneration model: every value of each random variable kind for 4 seeds x parameter sets x truncations (3 types x 3 calls x 6 limits) x units x 5 draws; files of up to 3 (4 thorough) lines of 7 x end of line x up to 2 (3) variables x 4 columns x 2 first columns x 3 skips x 5 draws; campaigns of every ordered selection of up to 2 (3) of 13 variables x {0, 1, 2, 3, 11} runs x padding x summary x meta data x an older campaign in the directory; histories of up to 3 (5) calls of add, remove, set_num_runs and switching the generation off and on, then execute')]
ASSUMPTIONS = ['random values are those of the C++ standard library generators named in the documentation (mt19937 with uniform, integer and normal distributions)', 'values are compared to 15 digits']
