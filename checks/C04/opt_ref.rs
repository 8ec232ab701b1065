// Oracle: the sample crate itself.
