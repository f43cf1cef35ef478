SPECIFICATION Spec
CONSTANT N = 3
CONSTANT SmallHid = FALSE
INVARIANTS ReachIsChain ReachXLaw Antitone DominosLaw DominosTogether ImDomLaw ReferrersLaw Additive
CHECK_DEADLOCK FALSE
