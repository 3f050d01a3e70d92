SPECIFICATION Spec
INVARIANTS Same Means
