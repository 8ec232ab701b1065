BOUNDS = 'every element of arrays of 4, every subslice of 4 elements, vectors of up to 3 with any capacity up to 3, every value of what is pointed at'
ASSUMPTIONS = ['which casts exist is a finite list of pairs of types, decided at compile time and checked as constants']
UNITS = [Unit('unstable', rust='rust'), Unit('stable', rust='stable')]
