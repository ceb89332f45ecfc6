CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS TypeLaws ValueLaws MaskLaws
CHECK_DEADLOCK FALSE
