import os
D = os.path.dirname(os.path.abspath(__file__))
BOUNDS = ('bridge: every leaf value and every variant over 12 nested shapes (up to 12 elements, three levels of options), buffers of exactly the '
          'stated size; bridged: every argument value over 30 generated functions and methods taking, returning and storing bridged types, and 40 over generic ones')
ASSUMPTIONS = ['the pairing of a C++ type and ABI with a Rust ABI is fixed by the samples; their converters are the harness\'s',
               'types with an owning pointer may be relocated, as the ABI requires']
UNITS = [Unit('bridge', cc=['bridge.cc'], rust='rust'),
         E2E('bridged', [('bridged', 'bridged.rs')], 'bridged_ref.rs', ['bridged.cc'], incs=[D]),
         E2E('gener', [('gener', 'gener.rs')], 'none_ref.rs', ['gener.cc'], incs=[D])]
