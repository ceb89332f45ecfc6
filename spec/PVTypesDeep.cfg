CONSTANT Deep = TRUE
SPECIFICATION Spec
INVARIANTS TypeLaws ValueLaws MaskLaws
CHECK_DEADLOCK FALSE
