import vb
_vt = ['-D%s=vt_%s' % (f, f) for f in 'clock_gettime setitimer sigaction sem_open sem_wait sem_trywait sem_post sem_unlink nanosleep'.split()]
H = [dict(name='realtime', main='C23_realtime.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler RealtimeSync Timer'.split()] + [vb.UTL + 'trick_adt/src'],
     parsers=True, main_flags=['-fno-access-control'], src_flags=_vt, soft=True, flags=['-O1'], timeout=20, max_seconds=100, max_seconds_thorough=850,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lrt', '-lm', '-ldl'],
     bounds='frames of .1 s (and 1, 1.001, 2.5 s); four (thorough five) frame durations out of {.3,.95,1.3,3.2}, signals on time or 15 ms late, waits interrupted, seven limit settings; three (four) commands out of 12 in successive frames; two (four) limit changes; freezes of up to three (four) freeze frames entered at three places with two commands; starts at four times, four alignments, two ratios; two (three) commands in the middle of frames; 1000 and 1000000 tics per second')]
ASSUMPTIONS = ['the tic length and the clock object are not changed after initialization', 'a clock read takes 100 us (500 us, 1 ms in long frames), everything else no time', 'the clock is CLOCK_REALTIME and does not jump']
