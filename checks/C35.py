import vb, glob
MM = vb.MM
R = vb.SIM + 'RealtimeInjector/'
H = [dict(MM, name='rti', main=['C35_rti.cc', 'mm/io_mm_types.cpp'], srcs=MM['srcs'] + sorted(glob.glob(R + '*.cpp')),
     flags=['-O1'], asan=False, soft=True, main_flags=MM['main_flags'] + ['-fno-access-control'], src_flags=MM['src_flags'] + ['-fsanitize=thread', '--param=tsan-distinguish-volatile=1'], timeout=20, max_seconds=100, max_seconds_thorough=850,
     bounds='8 configurations of 1-2 client threads (and the main thread as a client, a second executor thread, frame multiple and offset) with 5 frames: every schedule with at most 2 (3 in two of them; thorough 3 in all with two threads) deviations from round-robin at locks, list accesses and between commands; every history of 5 (thorough 6) of 12 commands; every scalar type and bit-field x 19 integer and 6 real values')]
ASSUMPTIONS = ['sequentially consistent memory between scheduling points', 'out-of-range values are not converted (their C++ conversion is undefined or implementation defined)']
