import vb
_vt = ['-D%s=vt_%s' % (f, f) for f in 'tc_init tc_error tc_blockio tc_accept_ tc_connect_ tc_read_ tc_write_ tc_disconnect gettimeofday fork waitpid kill alarm sigaction mkdir'.split()]
H = [dict(name='mc', main='C25_mc.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject ThreadBase Clock MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler MonteCarlo'.split()] + [vb.UTL + 'trick_adt/src', vb.UTL + 'math/src/trick_gsl_rand.c'],
     parsers=True, main_flags=['-fno-access-control'], src_flags=_vt, soft=True, flags=['-O1'], timeout=20, max_seconds=100, max_seconds_thorough=850, asan=True,
     ldflags=['-Wl,--wrap=TMM_declare_var_s', '-Wl,--wrap=TMM_resize_array_1d_a', '-Wl,--wrap=ref_attributes', '-Wl,--wrap=exit', '-Wl,--wrap=freopen', '-Wl,--wrap=freopen64', '-Wl,--wrap=system'],
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lrt', '-lm', '-ldl'],
     bounds='real MonteCarlo master: 1-2 slaves (3 thorough) x 1-3 runs x max_tries 0-2 x 4 sets of ranges x every sequence of at most 2 (3 thorough; one more for one slave and at most 2 runs) deviations from a healthy course, at any round, out of: each of 7 answers, cut introductions and answers, silence, death, stop, start, 70 or 130 s passing, nothing, a connection with garbage or an unknown id; likewise with values that run out, the number of runs changed at run time, a failing job, a disabled slave, a dry run (0-3 runs); real slave: up to 3 (4) runs x 9 last commands x 3 inputs x 5 endings of the child x limits x what the child meets; all command lines of up to 6 (8) words of 6; calculated values of 12 types x 7, 12 fixed values, files of up to 3 (4) lines of 6')]
ASSUMPTIONS = ['sockets, fork, waitpid, system, exit and the clock are stand-ins: a message arrives whole, cut or not at all; no real network', 'a stopped slave and a silent one that nobody starts again are outside the promise that the campaign ends']
