import vb
MM = vb.MM
H = [dict(MM, name='stl', main=['C08_stl.cc', 'mm/io_mm_types.cpp', 'mm/io_stl8_types.cpp'], srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp'], flags=['-O1'], main_flags=['-fno-access-control'] + MM.get('main_flags', []), timeout=600, max_seconds=100, max_seconds_thorough=850,
     bounds='57 flat container members (vectors of 22 element types, lists, deques, sets, maps, multimaps, pairs, queues, stacks, priority queues, arrays of numbers, enumerations, strings, structures, pointers): every content of up to 3 (maps 2) elements of a 3 (5 thorough) value menu, pointers over null, named, interior and anonymous targets; 36 nestings up to depth 3 with every shape of 2 elements per level; local and external, over empty and other previous contents; every pair of members (a third of them per format when quick); arrays of 1, 2 and 3 dimensions, nested, inherited, pointed-to, shared and anonymous owners x 7 contents; two checkpoints of two contents restored in every order of up to 2 (3) over filled and empty containers and written again; permissions; static members; names which meet; reduced, full and hexadecimal checkpoints into emptied, fresh and live managers')]
ASSUMPTIONS = ['attributes generated by this repository\'s trick-ICG and committed in checks/mm', 'containers inside structures inside containers are documented as unsupported']
