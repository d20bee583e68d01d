SPECIFICATION Spec
INVARIANTS HexLaws MipLaws FlagLaws ColorLaws VerLaws
CONSTANT Vs = {0, 1, 2}
