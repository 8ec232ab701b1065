BOUNDS = ('complete for the ~35 functions and members of lib.h: every bit of every scalar, vectors of up to 5 elements (numbers, bytes, structs, owners, vectors, '
          'owning pointers) built on either side and read, grown, shrunk, moved, cloned and released on the other; owning pointers null or not, to numbers, owners, '
          'pinned objects and polymorphic bases; atomics of three widths and of a pointer; one sequential thread')
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py; cc_std is /verif/crates/cc_std: the repository's vector.rs, unique_ptr.rs and allocator, without the "
               "generated bindings of the standard library's headers; the C++ side is libstdc++'s std::vector, std::unique_ptr and std::atomic, compiled with the thunks"]
UNITS = [RsE2E('lib', 'lib.h', 'lib_h.rs', ['lib.cc', 'tok.cc'], deps=['cc_std'], incs=['/verif/rsgen/inc'], flags=['-fsized-deallocation'])]
