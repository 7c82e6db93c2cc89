import vb
H = [dict(name='events', main='C12_events.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler EventManager'.split()] + [vb.UTL + 'trick_adt/src'] + [vb.SIM + 'InputProcessor/' + x + '.cpp' for x in 'IPPythonEvent InputProcessor MTV MTV_c_intf input_processor_ext'.split()],
     parsers=True, main_flags=['-fno-access-control'], soft=True, flags=['-O1'], timeout=20, max_seconds=100, max_seconds_thorough=850, ldflags=['-rdynamic'],
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='one event with up to three conditions (statement, variable, job; off, held), any/all, up to three actions, over three or four evaluations with every truth value at each and one (thorough: two) commands out of 15 at every time; two events in the real executive in every pair of placements (cyclic in the main or another thread, before, after, on several jobs) with up to two (thorough: three inside) commands from a job or from inside an action; up to three timed statements at seven times and in two threads plus one more from a job; three events on one job with up to two changes from inside a call; five tic lengths changed to five others; cycles of 1..400 (2000) tics in decimal; thirteen types of condition variables; up to 250 events')]
ASSUMPTIONS = ['one thread runs the jobs, events of another thread are processed by its own processor in it', 'checkpoints are not taken', 'an event does not fire itself manually from its own action', 'cycles are whole numbers of tics', 'the input language is replaced by one with the same interface whose statements are named by index']
