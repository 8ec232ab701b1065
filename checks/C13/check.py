BOUNDS = 'wrap: every pair of values of every type and every operation and conversion (thorough: multiplication and division of 32 and 64 bits); C strings of up to 3 bytes'
ASSUMPTIONS = ['Display and Debug text is not covered']
UNITS = [E2E('fnum', [('ffi_11', '/repo/support/ffi_11/src/lib.rs'), ('fnum', 'fnum.rs')], 'empty_ref.rs', ['fnum.cc'], std=('core',)), Unit('wrap', rust='rust')]
