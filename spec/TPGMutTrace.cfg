SPECIFICATION TSpec
CONSTANT Known <- GrantedNow
POSTCONDITION Accepted
