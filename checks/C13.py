import vb
MM = vb.MM
D = vb.SIM + 'DataRecord/'
H = [dict(MM, name='dr', main=['C13_dr.cc', 'mm/io_mm_types.cpp', 'mm/io_mm_stl_types.cpp', 'mm/io_vs_types.cpp'], asan=True,
     srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp', D + 'DataRecordGroup.cpp', D + 'DRAscii.cpp', D + 'DRBinary.cpp', vb.SIM + 'SimObject'], flags=['-O1'], timeout=600, max_seconds=100, max_seconds_thorough=840,
     bounds='every variable of 52 of every recordable type (and 12 which must be refused) x alias x column x 2 formats x buffer size, three rows with pointers and containers which vanish and move; every group of 3 frequencies x 3 bufferings x 5 buffer sizes x 5 rate mixes x 5 watched variables with up to 2 (thorough 3) of 8 commands placed anywhere in 6 (8) job steps; 40 file size limits x buffering; every cycle of 1..1000 (thorough 10000) tics at 3 tic values')]
ASSUMPTIONS = ['executive clock and command line are stand-ins; recording jobs are called in their order, the writer thread is run at chosen points by the driver','fields of a text log contain no delimiter or control character','variables are registered before the group is initialized']
