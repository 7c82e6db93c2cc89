import vb
A = vb.UTL + 'trick_adt/src'
H = [dict(name='adt', main='C20_adt.cc', srcs=[A], asan=True, flags=['-O1'], timeout=60, max_seconds=45, max_seconds_thorough=900,
          bounds='all operation sequences: list depth 5 (thorough 6), stack and queue depth 8 (11), tree depth 6 over 5 keys (8) plus every insertion order of 7 keys with every 3 (5) deletions, string map depth 5 over 4 colliding keys and table sizes 1..3, record array depth 5; bubble sort of every list up to length 6 over 4 values')]
ASSUMPTIONS = ['malloc does not fail', 'string-map iterators are not used across modifications']
