BOUNDS = ('every value of every field and argument of the sample types; arrays of up to 4 elements, nesting to depth 3')
ASSUMPTIONS = ['the sample crate fixes which API shapes are covered; the generator (built from /repo on every run) is run on it concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('lay', [('lay', 'lay.rs')], 'lay_ref.rs', ['lay.cc'])]
