CONSTANTS Wide = TRUE
SPECIFICATION Spec
INVARIANT TypeOK AnyOrder EveryElement Narrower ScaleFree Packs
CHECK_DEADLOCK FALSE
