BOUNDS = ('every graph of 3 nodes (self-dependencies included, thorough) and every acyclic graph of 4 with every preference order (ties included for 3), cycles of 4 nodes; dependencies given once or twice; '
          'three arrangements of the hash table')
ASSUMPTIONS = ["the standard library's hash map runs with fixed SipHash keys; its arrangement is varied through the nodes' hashes"]
UNITS = [Unit('topo', rust='rust')]
