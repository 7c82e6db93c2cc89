import vb
H = [dict(name='threads', main='C04_threads.cc', srcs=[vb.SIM + x for x in 'Executive ScheduledJobQueue SimObject Clock ThreadBase Message CommandLineArguments MemoryManager CheckPointAgent UdUnits UnitsMap Scheduler'.split()] + [vb.UTL + 'trick_adt/src'], parsers=True, main_flags=['-fno-access-control'], soft=True, flags=['-O1'], src_flags=['-fsanitize=thread', '--param=tsan-distinguish-volatile=1'], timeout=20, max_seconds=100, max_seconds_thorough=1200,
     libs=['-ludunits2', '-lxml2', '-lgsl', '-lgslcblas', '-lpython3.12', '-lrt', '-lm', '-ldl'],
     bounds='17 configurations of 1 or 2 child threads (synchronous, must-finish, asynchronous with and without cycle; dependencies, phases, classes, stop times, a freeze, a thread disabled and enabled again) x mutex, flag, eventfd, futex triggers x nap: every schedule with at most 2 (thorough 3) deviations from round-robin at synchronisation operations, sleeps, accesses to completion flags and triggers, and a point inside every job; one spurious wake-up')]
ASSUMPTIONS = ['threads are coroutines under the controlled scheduler of lib/sched.hh, memory is sequentially consistent', 'a dependency on a job of a must-finish or asynchronous thread is not claimed within its frame', 'asynchronous threads with a cycle are only started at times the main thread stops at']
