SPECIFICATION TSpec
POSTCONDITION Accepted
