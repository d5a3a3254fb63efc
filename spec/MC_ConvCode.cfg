SPECIFICATION Spec
INVARIANT Linear Numbering Terminates Systematic
