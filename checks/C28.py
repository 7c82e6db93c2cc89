import vb
A = vb.UTL + 'SAIntegrator/'
H = [dict(name='sai', main='C28_sai.cc', srcs=[A + 'src'], asan=True, add_mismatch=1, flags=['-O1', '-I' + A + 'include', '-Wno-vla'], timeout=60, max_seconds=120, max_seconds_thorough=850,
          bounds='17 integrators: every history of depth 4 (thorough 5) over integrate, load, step, unload, undo, set time, change state, load from output, copy, assign, self-assign, other input and output variables, after 0, 1 or 5 steps, against textbook tableaux and Adams coefficients; polynomial problems of degree 0..5 x 3 start times x 4 steps x 1..4 states x undo of any step; RKF45 error control on 60 problems; root finder on every piecewise linear function of 5 (7) values out of 7 x 3 slope constraints; 1..3 roots at every combination of 5 places in the step x constraints x 6 integrators x undo; bouncing balls; leaks')]
ASSUMPTIONS = ['the root error function re-initialises the finder at each root, as documented, and consecutive roots are at least a step apart (a step that hides two crossings cannot be seen by sampling)', 'a crossing counts once the finder has sampled a point before it']
