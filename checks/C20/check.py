BOUNDS = ('acyclic: every dependency graph of 4 queries and every sequence of 2 (thorough 3) of them; cycles: every graph of 3 queries, asked for in every order; 3 calls with any pair of arguments; '
          'two databases alternating over 3 calls')
ASSUMPTIONS = ["the standard library's hash map runs with fixed SipHash keys", 'fewer than 256 databases are made in one process (their index is 8 bits wide)', 'one thread']
UNITS = [Unit('memo', rust='rust')]
