INIT Init
NEXT NextOrDone
VIEW RunView
INVARIANTS TypeOK PassesAgree ImageOK RestIsZero NoCallsLeft LocsOK Conforms
ALIAS Where
