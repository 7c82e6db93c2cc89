import vb
H = [dict(name='math', main='C30_math.cc', srcs=[vb.UTL + 'math/src'], flags=['-O1'], libs=['-lgsl', '-lgslcblas', '-lm'], timeout=60, max_seconds=120, max_seconds_thorough=800,
          bounds='vector routines and macros on every pair of 129 vectors, 3x3 and n x n matrix routines on every pair of 55 matrices, linear solvers on 60 (thorough 400) systems of each order 1..5 (6), eigenvalue routines on 60 (600) problems of order 1..4, six Euler sequences in matrix and quaternion form on 13 x 28 x 13 angles including the singular angles and their surroundings with and without previous values, products of every pair of 255 quaternions, rotations about 125 axes by 13 angles and between every pair of directions, 7 wave forms x 756 parameter sets x 340 times, rounding, S-function and transfer functions')]
ASSUMPTIONS = ['results are compared with long double evaluation of the definition within 1e-7..1e-14 of the magnitudes involved', 'matrices to be inverted are regular with moderate condition, eigenvalue problems symmetric positive definite', 'routines which state that they did not converge are not wrong', 'random number generators and noise wave forms are not covered']
