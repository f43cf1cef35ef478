SPECIFICATION Spec
CONSTANT N = 3
CONSTANT SmallHid = TRUE
INVARIANTS ReachIsChain ReachXLaw Antitone DominosLaw DominosTogether ImDomLaw ReferrersLaw
CHECK_DEADLOCK FALSE
