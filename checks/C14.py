import vb
MM = vb.MM
D = vb.SIM + 'DataRecord/'
L = vb.SRC + 'data_products/Log/'
H = [dict(MM, name='logs', main=['C14_logs.cc', 'mm/io_mm_types.cpp', 'mm/io_mm_stl_types.cpp', 'mm/io_vs_types.cpp'], asan=True,
     srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp', vb.SIM + 'UdUnits/map_trick_units_to_udunits.cpp', D + 'DataRecordGroup.cpp', D + 'DRAscii.cpp', D + 'DRBinary.cpp', vb.SIM + 'SimObject'] + [L + x + '.cpp' for x in ('DataStream', 'DataStreamFactory', 'DataStreamGroup', 'Csv', 'TrickBinary', 'Delta', 'ExternalProgram', 'MatLab', 'MatLab4', 'trick_byteswap')], flags=['-O1', '-I' + vb.SRC + 'data_products'], timeout=600, max_seconds=100, max_seconds_thorough=840,
     bounds='every variable of 40 recordable types x 8 forms of binary logs (byte order, Trick-07, single precision time) and CSV x column x values; every history of 4 (thorough 6) of get, peek, step, begin, end and value-at-time on logs of 0-3 rows; every truncation of a log; names asked for against logs of every subset of 6 variables; 1 to 2100 columns; differences of all pairs of subsets of 5 times')]
ASSUMPTIONS = ['logs are written by the DRBinary and DRAscii of the tree; other byte order and version forms are derived from them by the harness','values are read as double','columns of single characters are not read from text logs']
