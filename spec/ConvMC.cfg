CONSTANT
    Tgts <- WorldTgts
    Names <- WorldNames
INIT Init
NEXT Next
INVARIANT Checked
CHECK_DEADLOCK FALSE
VIEW view
