import vb
H = [dict(name='text', main='C21_text.cc', srcs=[vb.UTL + 'unicode/src', vb.SIM + 'MemoryManager/wcs_ext.c'], asan=True, flags=['-O1'], timeout=100,
          bounds='every Unicode code point (plus the first 4096 beyond) through every conversion; every string up to length 4 (thorough 5) over a 17-byte alphabet of ASCII, escape, continuation and lead bytes with every destination size; every wide string up to length 3 over 13 units')]
ASSUMPTIONS = ['destination size at least 1', 'the C locale', 'structurally well-formed sequences that encode surrogates, overlong forms or values above U+10FFFF are only checked for memory safety']
