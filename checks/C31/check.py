BOUNDS = 'complete for the 30 records of recs.h and virt.h: every bit of every field; virtual bases in three most-derived classes'
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py, which takes layouts from clang for these headers; formatting is skipped and ::cxx is a stub"]
UNITS = [RsE2E('recs', 'recs.h', 'recs_h.rs', ['recs.cc'], features='supported,wrapper,experimental,oo_casting'),
         RsE2E('virt', 'virt.h', 'virt_h.rs', ['virt.cc'], features='supported,wrapper,experimental,oo_casting')]
