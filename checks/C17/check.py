import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = ('vectors of 0 to 3 elements with spare capacity 0 to 2, a second vector of up to 2 or 3 (append, comparison), every index in range, '
          'counts 0 to 4, all element values; three element types (plain, owning, 32-aligned); 38 operations, each followed by C++ push and erase')
ASSUMPTIONS = ["std::vector is libstdc++'s, with the three-pointer representation of libc++; vector<bool> is outside",
               'operations do not panic (a panicking callback aborts here)']
UNITS = [Unit('vector', cc=['vector.cc'], rust='rust', incs=[D, D + '/inc'], flags=['-fsized-deallocation'])]
