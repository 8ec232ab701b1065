import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = ('all strings of up to 4 bytes (pairs 3, Display 3, thorough 4; Debug up to 2 bytes plus 7 fixed characters), null and non-null empty views')
ASSUMPTIONS = ["libc++'s std::string is a stand-in of the same size for new_string; string_wrapper uses libstdc++'s",
               'OsStr/Path are those of Unix']
UNITS = [Unit('string', cc=['string.cc'], rust='rust', incs=[D]),
         Unit('new_string', cc=['new_string.cc'], rust='rust', incs=[D + '/standin', D])]
