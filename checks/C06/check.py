BOUNDS = 'every 32-bit value / every Unicode scalar value / every pair of 64-bit words; buffer capacities 0..5'
ASSUMPTIONS = ['oracle: core::char and integer methods of the pinned toolchain, encoded from the same linked IR',
               'isize additions and subtractions are compared where they do not overflow (C++ signed overflow is undefined)']
UNITS = [Unit('scalar', cc=['scalar.cc', '/repo/support/rs_std/char.cc'], rust='rust')]
