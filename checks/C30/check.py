BOUNDS = ('complete for the headers checked (calls.h, meth.h, more.h, conv.h, idx.h: about 240 functions): every bit of every scalar argument, floats bit for bit, pointers null '
          'or valid')
ASSUMPTIONS = ["the Clang-based importer is replaced by rsgen/mkir.py, which computes the same intermediate representation for these headers from clang's AST; "
               'formatting by clang-format and rustfmt is skipped and ::cxx is a stub']
UNITS = [RsE2E('conv', 'conv.h', 'conv_h.rs', ['conv.cc', 'tok.cc'], features='supported,wrapper,experimental,assume_this_lifetimes', extra='conv_types.rs'),
         RsE2E('calls', 'calls.h', 'calls_h.rs', ['calls.cc']), RsE2E('meth', 'meth.h', 'meth_h.rs', ['meth.cc'], features='supported,wrapper,experimental,oo_casting'),
         RsE2E('meth_thunkless', 'meth.h', 'meth_h.rs', ['meth.cc'], features='supported,wrapper,experimental,oo_casting,thunkless_accessors'),
         RsE2E('more', 'more.h', 'more_h.rs', ['more.cc'], features='supported,wrapper,experimental,oo_casting'),
         RsE2E('idx', 'idx.h', 'idx_h.rs', ['idx.cc'], features='supported,wrapper,experimental,oo_casting')]
