BOUNDS = 'complete for the functions of bri.h: every value of every parameter, every combination of present/absent'
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py; std::optional, std::pair and the user's class templates reach the generator as bridged records", "::cxx is a stub and formatting is skipped"]
UNITS = [RsE2E('bri', 'bri.h', 'bri_h.rs', ['bri.cc', 'own.cc'], extra='bri_types.rs')]
