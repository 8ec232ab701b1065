import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = ('disp: complete for 9 classes and enums of one header formatted by AbslStringify or operator<<: every field value, texts of up to 4 bytes of any value, flush and endl on or off, '
          'a writer that fails at any point; lossy: every byte string of up to 3 bytes written whole, in two pieces at any point, as slices or strings or single bytes, with flushes between; '
          'leads E0, E5, ED, F0, F1 and F4 with any continuation bytes and what follows; fills of up to 4 of any byte after six beginnings; writers with room for any number of bytes; thorough: longer strings and splits')
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py, which finds the formatters by name; std::ostream is checks/C15/inc's stand-in (no locale, width or buffering of the "
               "standard library's own), absl is rsgen/inc's declarations"]
UNITS = [RsE2E('disp', 'disp.h', 'disp_h.rs', ['disp.cc'], deps=['lossy_formatter', 'lossy_formatter_for_bindings'], incs=[D + '/inc']), Unit('lossy', rust='rust')]
