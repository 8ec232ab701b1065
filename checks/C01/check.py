BOUNDS = ('every value of every argument (8/16/32/64-bit integers, char, bool, f32/f64 bit patterns, pointers to objects of symbolic content); strings and slices up to 4 elements; re-exported, renamed and swapped functions, types, constants and aliases of four nested modules and a dependency')
ASSUMPTIONS = ['the sample crate fixes which API shapes are covered; the generator (built from /repo on every run) is run on it concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('funcs', [('funcs', 'funcs.rs')], 'funcs_ref.rs', ['funcs.cc']),
         E2E('mods', [('ext', 'ext.rs'), ('mods', 'mods.rs')], 'mods_ref.rs', ['mods.cc'])]
