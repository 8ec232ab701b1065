import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = 'every operand value of the sample implementations; ranges of 0 to 3 elements, abandoned at every position; every operand of the sample From and Into conversions; Display text of every value of four types, with texts of up to 4 characters'
ASSUMPTIONS = ['the sample crate fixes which trait implementations are covered; the generator (built from /repo on every run) is run on it and on the toolchain\'s core crate concretely', 'panicking Rust code and allocation failure are outside (panic=abort)']
UNITS = [E2E('tr', [('tr', 'tr.rs')], 'tr_ref.rs', ['tr.cc'], std=('core',)),
         E2E('disp', [('disp', 'disp.rs')], 'none_ref.rs', ['disp.cc'], std=('core', 'alloc'), incs=[os.path.join(os.path.dirname(D), 'C15', 'inc')]),
         E2E('conv', [('conv', 'conv.rs')], 'none_ref.rs', ['conv.cc'])]
