import vb
C = vb.UTL + 'comm/src/'
H = [dict(name='bswap', main='C19_bswap.cc', srcs=[C + 'trick_byteswap.c', C + 'trick_bswap_buffer.c', C + 'trick_bswap_single_parameter.c'], asan=True, flags=['-O1', '-Wno-error'], timeout=60,
          bounds='every structure of up to 3 (thorough 4) members over 16 member kinds (1/2/4/8-byte scalars and arrays of up to 3 dimensions, bit-field groups, nested structures and arrays of structures), each member also alone; scalars: every 16-bit value, pattern sets for wider ones')]
ASSUMPTIONS = ['little-endian host; bit-fields of 1 to 31 bits in 4-byte storage units, described as the interface code generator describes them', 'signalling NaN bit patterns pass through the C double parameter unchanged (SSE)']
