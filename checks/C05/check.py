BOUNDS = ('every byte string of length 0..7 (thorough 0..9); every placement of an arbitrary 4-byte window in an '
          'otherwise ASCII string of 12 and 20 (thorough 40) bytes')
ASSUMPTIONS = ['oracle: core::str::from_utf8 of the pinned toolchain, encoded from the same linked IR']
UNITS = [Unit('utf8', cc=['utf8.cc'], rust='rust')]
