BOUNDS = ('every value; every history of up to 4 operations (construct, copy, move, assign, swap, pass, return) over the owning sample types as listed per harness')
ASSUMPTIONS = ['the sample crate fixes which API shapes are covered; the generator (built from /repo on every run) is run on it concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('life', [('life', 'life.rs')], 'life_ref.rs', ['life.cc'])]
