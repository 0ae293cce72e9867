INIT Init
NEXT Next
VIEW RunView
INVARIANTS TypeOK FieldsApart RestIsZero AllFields NothingOnError Conforms
ALIAS Where
