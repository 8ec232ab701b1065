BOUNDS = ('every value; histories of 3 operations (thorough 4) over two rs::Movable of one class, for five kinds of class (copyable, move-only, '
          'relocatable, relocatable and copyable, copyable without assignment); Slots of a value and of an array of three')
ASSUMPTIONS = ['the five classes stand for the classes that generated bindings and users have; their memory is the C++ heap', 'no exceptions']
UNITS = [Unit('movable', cc=['movable.cc'])]
