SPECIFICATION Spec
CONSTANT Forms = {"const", "var", "elem"}
INVARIANTS NoPromotion ResultKind OnlyInts OnlyVectors SameTypes Emit
CHECK_DEADLOCK FALSE
