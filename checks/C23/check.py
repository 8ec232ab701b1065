BOUNDS = 'complete for the functions of call.h: every value of every argument and captured word, each listed way of moving, keeping, returning or dropping'
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py", "::cxx is a stub and formatting is skipped",
               "absl::AnyInvocable and FunctionToCall are stand-ins with the numbering Crubit relies on (the installed Abseil predates it)", "a Rust panic aborts"]
UNITS = [RsE2E('call', 'call.h', 'call_h.rs', ['call.cc', 'own.cc'], deps=('dyn_callable_rs',), incs=['/verif/rsgen/inc'])]
