BOUNDS = 'all values held by the objects; fixed sequences of up to about 12 operations per class, 11 classes'
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py for this header; formatting is skipped and ::cxx is a stub", 'no exception or panic during an operation']
UNITS = [RsE2E('life', 'life.h', 'life_h.rs', ['life.cc'], features='supported,wrapper,experimental,oo_casting')]
