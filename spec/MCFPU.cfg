SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Sane
CONSTRAINT Short
CHECK_DEADLOCK FALSE
