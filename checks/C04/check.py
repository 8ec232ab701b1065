BOUNDS = ('every payload and discriminant; histories of 3 operations (thorough 4) over two owning Options; Options of every integer and float type, bool, char, pointers, references, slices, '
          'strings, structs, Vec, Result and Option, passed, returned and as fields; enums annotated cpp_enum of every representation')
ASSUMPTIONS = ['the sample crate fixes which API shapes are covered; the generator (built from /repo on every run) is run on it concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('en', [('en', 'en.rs')], 'en_ref.rs', ['en.cc']), E2E('opt', [('opt', 'opt.rs')], 'opt_ref.rs', ['opt.cc']), E2E('comp', [('comp', 'comp.rs')], 'none_ref.rs', ['comp.cc']),
         E2E('cpe', [('cpe', 'cpe.rs')], 'none_ref.rs', ['cpe.cc'])]
