import vb
H = [dict(name='schedule', main='C01_schedule.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler'.split()] + [vb.UTL + 'trick_adt/src'], parsers=True, main_flags=['-fno-access-control'], soft=True, flags=['-O1'], timeout=20, max_seconds=60, max_seconds_thorough=1200,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='two jobs over 4 classes x 2 phases x 3 cycles x 3 starts x 4 stops on the same or different sim objects, three jobs over a reduced menu, input-processor calls between jobs, four start times, six time-tic values with 60 (thorough 400) decimal periods, the tic changed after declaration')]
ASSUMPTIONS = ['one thread; no realtime pacing', 'job start, stop and cycle are whole numbers of time tics']
