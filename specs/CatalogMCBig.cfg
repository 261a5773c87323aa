CONSTANTS MaxRows = 1 MaxQueries = 1 AllTogether = TRUE
SPECIFICATION Spec
INVARIANTS NotThere Same Loaded Right Fewer Named Parsed Culgoora
CHECK_DEADLOCK FALSE
