BOUNDS = ('comments of up to 3 (thorough 4) and literal texts of up to 3 characters from quotes, backslash, newline, tab, letters and one non-ASCII letter; every '
          'sequence of 3 (thorough 4) of words, literals, colons, path separators and groups; 3 placeholders in a row; up to 2 captures')
ASSUMPTIONS = ['rustfmt and clang-format are not run', 'punctuation other than colons is printed without spaces between: the generators never put two pieces next to each other that would join']
UNITS = [Unit('print', rust='rust')]
