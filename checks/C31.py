import vb
H = [dict(name='near', main='C31_near.cc', srcs=[vb.UTL + 'compareFloatingPoint/src/compareFloatingPoint.cpp', vb.UTL + 'interpolator/src/Interpolator.cpp'], asan=True, flags=['-O1'], timeout=30,
          bounds='near: every ordered pair of 70 boundary values (zeros, subnormals, smallest normals, neighbours of 1, 2 and 1e18, largest, infinities, NaN, both signs) with 30 tolerances, double and float; interpolation: every table of 1..3 (thorough 4) dimensions of 2..6 breakpoints over 4 breakpoint sets and 3 tables, queried at every grid point, interior points, neighbours of the ends and outside')]
ASSUMPTIONS = ['breakpoints are strictly ascending, at least two per parameter', 'values whose difference is within one rounding of the tolerance may compare either way', 'infinities and NaN are near nothing, subnormal values count as zero and tolerances below DBL_MIN/DBL_EPSILON (FLT_) count as that, as the code documents']
