CONSTANT
    Tgts <- WorldTgts
    Names <- WorldNames
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
VIEW view
