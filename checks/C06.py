import vb
MM = vb.MM
H = [dict(MM, name='refs', main=['C06_refs.cc', 'mm/io_mm_types.cpp', 'mm/io_mm_stl_types.cpp'], srcs=MM['srcs'] + [vb.SIM + 'CheckPointRestart/stl_type_name_convert.cpp'], flags=['-O1'], timeout=600, max_seconds=120, max_seconds_thorough=1500,
     bounds='every expression of up to 6 and 7 (thorough 8 and 9) index, member and arrow steps from 21 variables (structures, nested and multi-dimensional arrays, pointers, pointers to pointers and to arrays, bit-fields, multiple inheritance, namespaces, an external object) under 4 pointer configurations (null, array starts, interiors, anonymous and unmanaged storage), with indices below, inside, at and beyond every bound, unknown members and malformed text; resolved paths followed again after the pointers moved; the address of every cell named and resolved back; elements of vectors, deques and arrays of 0..3 elements, their members and what they point to')]
ASSUMPTIONS = ['a pointer index past the object it points into but inside its allocation may be refused or resolved']
