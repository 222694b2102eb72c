SPECIFICATION Spec
INVARIANTS AsComposed AllPass FirstFails Emitted
CHECK_DEADLOCK FALSE
