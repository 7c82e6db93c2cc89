import vb
H = [dict(name='modes', main='C03_modes.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler'.split()] + [vb.UTL + 'trick_adt/src'], parsers=True, main_flags=['-fno-access-control'], soft=True, flags=['-O1'], timeout=20, max_seconds=60, max_seconds_thorough=1500,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='every placement of up to 2 (thorough 3) commands out of 10 (freeze at the frame end, freeze at a time, at the present, run, stop, stop at a time ahead, now or past, a new period of a freeze job) over all calls of nine controlling jobs, in run and in freeze mode, with and without freezing on frame boundaries, started running, frozen or with two freeze times set')]
ASSUMPTIONS = ['one thread; no realtime pacing', 'commands are issued by the simulation thread']
