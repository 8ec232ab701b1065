BOUNDS = 'slices and strings of 0..4 elements (thorough 0..7) of five element types; every element value, start offset, index and length argument (null slices: every 64-bit length)'
ASSUMPTIONS = ['oracle: the Rust slice and str operations of the pinned toolchain, encoded from the same linked IR', 'str contents are ASCII here; which byte strings are UTF-8 is property C05']
UNITS = [Unit('slices', cc=['slices.cc', '/repo/support/internal/check_no_mutable_aliasing.cc'], rust='rust')]
