import vb, glob, os
E7 = vb.SRC + 'er7_utils/'
H = [dict(name='integ', main='C27_integ.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler Integrator/src'.split()] + [vb.UTL + 'trick_adt/src', E7 + 'integration/*/src/*.cc', E7 + 'interface/src/*.cc', E7 + 'math/src/*.cc', E7 + 'trick/integration/src/*.cc'],
     parsers=True, main_flags=['-fno-access-control', '-include', vb.VERIF + '/checks/plain_alloc.h'], src_flags=['-include', vb.VERIF + '/checks/plain_alloc.h'], soft=True, asan=False, flags=['-O1'], timeout=60, max_seconds=120, max_seconds_thorough=850,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='ten integrators x four ways of passing states x 1..4 states x every sequence of 3 (ABM 7 with up to two changes) steps out of three sizes x four start times against textbook tableaux; one and two loops (plain and multi-rate) over bodies with all five job classes in the real executive: every choice of cycles, up to two (thorough: three) changes of cycle, rate or membership at enumerated times, made between calls and from inside the loop; dynamic events of up to three bodies at every combination of slopes, crossings and constraints')]
ASSUMPTIONS = ['loops run in the main thread and are not checkpointed', 'cycles and rates are whole numbers of tics', 'members are changed between the calls of a loop, not by the jobs it is calling', 'an object is integrated by one loop at a time from the start', 'the cycle of a loop is changed through its own functions', 'events of one body do not influence the motion of other bodies of that loop', 'a body has at most one event per call of its loop, not within tolerance of its end', 'copies of integrators are not covered']
