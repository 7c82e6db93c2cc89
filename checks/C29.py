import vb
H = [dict(name='units', main='C29_units.cc', srcs=[vb.SIM + 'UdUnits/UdUnits.cpp', vb.SIM + 'UdUnits/map_trick_units_to_udunits.cpp', vb.SRC + 'trick_swig/swig_convert_units.cpp'], asan=True, flags=['-O1'], timeout=60, libs=['-ludunits2'],
          bounds='54 units in old-style and standard spelling and some 900 products, quotients and powers of them: every expression translated, every ordered pair of compatible expressions and a sixteenth (thorough: all) of the incompatible pairs converted with 5 real and 17 integer values, every triple of compatible single units, 17 malformed specifications on either side')]
ASSUMPTIONS = ['units are defined by the installed udunits-2 database (slug and ounce-force to 6 digits)', 'temperatures with an offset only occur alone', 'a number without units is taken to be in the units of the variable']
