INIT Init
NEXT Next
VIEW RunView
INVARIANTS TypeOK OnlyOutput Conforms
ALIAS Where
