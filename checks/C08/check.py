BOUNDS = ('every placement and length of up to 5 references in one call: (mutable, shared) counts (1,0..4) (2,0..4) (3,0..3) '
          '(4,0..1) (5,0) (0,n), thorough also (3,4) (4,2) (4,3) (1,5); addresses 1..2^62 and lengths 0..2^62, except that '
          'quick limits both to 2^7 for the counts (1,3) (1,4) (2,4) (4,1) (5,0)')
ASSUMPTIONS = ['references are valid: aligned, non-null, not wrapping around the address space',
               'the two code paths of the implementation (unrolled up to 3x3, sorted spans beyond) are both inside the bound']
UNITS = [Unit('alias', cc=['alias.cc', '/repo/support/internal/check_no_mutable_aliasing.cc'])]
