import vb
MM = vb.MM
VS = vb.SIM + 'VariableServer/'
import glob, os
C = vb.UTL + 'comm/src/'
H = [dict(MM, name='vs', main=['C15_vs.cc', 'mm/io_mm_types.cpp', 'mm/io_mm_stl_types.cpp', 'mm/io_vs_types.cpp'], asan=True,
     srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp'] + [f for f in sorted(glob.glob(VS + '*.cpp')) if not f.endswith('var_server_ext.cpp')] + [vb.UTL + 'connection_handlers', vb.SIM + 'ThreadBase', vb.SIM + 'SimObject/JobData.cpp', vb.SIM + 'Executive/ExecutiveException.cpp',  C + 'trick_byteswap.c'], flags=['-O1'], timeout=600, max_seconds=100, max_seconds_thorough=840,
     bounds='71 variables of every attribute type x 8 sets of values x 3 formats x byte order x 6 ways of asking x every unit of the variable; references whose pointers, strings and containers change 3 (thorough 4) times between sends; lists of variables around the 8192-byte message limit; every history of 4 (thorough 5) of 32 commands of one session; two sessions with up to 2 (thorough 3) of 24 commands placed anywhere in 5 (6) job steps of a stepping simulation with a freeze; files of 8 sizes x 4 contents x 6 failing writes')]
ASSUMPTIONS = ['connection, executive clock and thread identity are stand-ins; jobs are called in the order of the standard simulation objects', 'sessions are driven from one thread (interleavings of session threads with the simulation are C17)', 'units are converted within the range of the variable type; conversions are compared to 1e-14 (double) and 3e-7 (float) relative', 'arrays of strings, whole STL containers and pointer-to-array members are not sent as one value']
