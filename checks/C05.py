import vb
MM = vb.MM
H = [dict(MM, name='life', main=['C05_life.cc', 'mm/io_mm_types.cpp'], asan=True, flags=['-O1'], timeout=30, max_seconds=60, max_seconds_thorough=1500,
     bounds='all sequences of 3 (thorough 4) operations out of declare (14 types and shapes, 2 names or anonymous, by declaration or by element and count), map external (2 buffers), resize, clear, clear all, delete (by name, by address, unknown, interior), rename, duplicate string and reset; every live allocation, name and storage cell is compared after every operation')]
ASSUMPTIONS = ['one thread', 'no two live external declarations overlap', 'dimensions are positive and at most 8']
