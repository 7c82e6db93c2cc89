import vb
H = [dict(name='jobs', main='C02_jobs.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler'.split()] + [vb.UTL + 'trick_adt/src'], parsers=True, main_flags=['-fno-access-control'], soft=True, flags=['-O1'], timeout=20, max_seconds=60, max_seconds_thorough=1500,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='every placement of up to 2 (thorough 3) run-time commands out of 19 (job on/off, new period, by tag, sim object on/off, all jobs of an object on/off, remove and add objects, new software frame) over all calls of five controlling jobs (input processor, top of frame, first and last scheduled class, end of frame) in 6 steps, four job layouts, two frame sizes')]
ASSUMPTIONS = ['one thread; no realtime pacing', 'objects are added from the input processor, top-of-frame or end-of-frame jobs', 'commands are issued by the simulation thread']
