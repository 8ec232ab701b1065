// Oracle: `code()` methods of the sample crate, and the harness itself.
