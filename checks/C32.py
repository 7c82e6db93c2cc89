import vb
H = [dict(name='bin', main='C32_bin.cc', srcs=[vb.UTL + 'var_binary_parser/src/var_binary_parser.cc'], asan=True, flags=['-O1'], timeout=30, max_seconds=90, max_seconds_thorough=900,
          bounds='every message of 0..2 (thorough 3) variables over 17 types, element counts 0,1,2,3,9, 4 bit patterns and 4 names, both byte orders, with and without names, all message types and invalid ones; of each: every truncation (with and without a matching size), extensions, every count, size, type and name-length field replaced by 17 values, and combination with a second message')]
ASSUMPTIONS = ['little-endian host', 'the value of a variable with several elements is its first element, as the parser has it', 'booleans are sent as 0 or 1']
