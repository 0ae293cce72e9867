INIT Init
NEXT Next
VIEW RunView
INVARIANTS TypeOK OnlyOutput Listed
ALIAS Where
