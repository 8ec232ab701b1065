BOUNDS = ('every outcome (success, failure, error value) of each step and every value; combinator chains of two arbitrary steps (thorough: three), '
          'Slot histories of three operations (thorough: five), structs of up to four fields')
ASSUMPTIONS = ['no unwinding: crates are encoded with panic=abort', 'macro and derive expansions are those of the sample types in checks/C14/rust']
UNITS = [Unit('ctor', rust='rust')]
