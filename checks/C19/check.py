BOUNDS = ('pairs of names of up to 2 (thorough 3) arbitrary ASCII characters, or with one of six others among them; a name against every other that its escaped form could be mistaken for, whole and by halves; '
          'every C++ keyword and alternative token up to C++23, with any one character changed or added')
ASSUMPTIONS = ['of the characters outside ASCII, six stand for their classes (identifier start, identifier continuation, neither; two, three and four bytes long)']
UNITS = [Unit('names', rust='rust')]
