INIT DInit
NEXT DNext
VIEW RunView
INVARIANTS TypeOK PassesAgree Reached Conforms
ALIAS Where
