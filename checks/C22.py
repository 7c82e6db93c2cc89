import vb
H = [dict(name='bitfield', main='C22_bitfield.cc', srcs=[vb.SIM + 'MemoryManager/extract_bitfield.c', vb.SIM + 'MemoryManager/extract_unsigned_bitfield.c', vb.SIM + 'MemoryManager/insert_bitfield.c'],
          flags=['-O1'], timeout=120,
          bounds='every (size,start,width) with size 1,2,4 bytes; size 1: every storage byte x every value; size 2: every storage word x value alphabet (thorough: every value up to width 10); size 4: pattern alphabet; real compiler layouts for all 2- and 3-field partitions')]
ASSUMPTIONS = ['little-endian host with the System V bit-field layout', 'PUT_BITFIELD/GET_BITFIELD as used by the memory manager, checkpoint agents and variable server']
