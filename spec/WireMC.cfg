SPECIFICATION Spec
CONSTANTS NB = 8
 WB = 2
 BB = 2
INVARIANTS RoundTrip Injective Canonical Perm SizeLaw SizeUnique SizePrefixFree TruncatedSize StrLaw SliceLaw
