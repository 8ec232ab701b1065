import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = ('all pointee values; six ways of making a shared object (C++ and Rust), histories of 2 (thorough 3) operations on three handles with or without '
          'a weak reference; unique_ptr over plain and 64-aligned owners and over virtual bases, null included')
ASSUMPTIONS = ["libc++'s control block is a stand-in with its layout and counting rules (libc++ is not installed)",
               'counts are not contended: threads are outside']
UNITS = [Unit('ptr', cc=['ptr.cc'], rust='rust', incs=[D, D + '/inc'], flags=['-fsized-deallocation'])]
