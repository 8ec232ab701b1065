BOUNDS = 'every value of every argument of 100 methods of 18 traits over 8 types'
ASSUMPTIONS = ['the sample crates fix which traits and implementations are covered; the generator (built from /repo on every run) is run on them concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('trt', [('base', 'base.rs'), ('trt', 'trt.rs')], 'none_ref.rs', ['trt.cc']), E2E('more', [('more', 'more.rs')], 'none_ref.rs', ['more.cc'])]
