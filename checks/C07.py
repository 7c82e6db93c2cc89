import vb
MM = vb.MM
H = [dict(MM, name='ckpt', main=['C07_ckpt.cc', 'mm/io_mm_types.cpp', 'mm/io_mm_stl_types.cpp'], srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp'], flags=['-O2'], timeout=600, max_seconds=100, max_seconds_thorough=2400,
     bounds='every value of a menu (limits, special characters, all 256 characters, all pairs of special characters and long strings, infinities, NANs, denormals, undefined enumeration values) and every pair and triple of adjacent values for 17 scalar types, in local and external variables and as members of structures and bit-fields; every combination of 6 pointers of a node graph over null, named, anonymous, interior and array targets, every pair of 25 pointers of 12 types (pointers to pointers, to arrays, to members of inherited and nested objects, strings) over all targets of their type; reduced, full, hexadecimal, expanded and commented checkpoints, checkpoints of selected variables, restored into an emptied, a fresh and a live manager whose external objects were changed')]
ASSUMPTIONS = ['decimal checkpoints keep 8 (float) and 16 (double) significant digits, hexadecimal ones everything but the sign of zero', 'strings contain no NUL character', 'character pointers are strings: their contents are kept, not what they share', 'pointers refer to memory the manager knows or are character pointers']
