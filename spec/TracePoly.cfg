SPECIFICATION TraceSpec
CONSTANTS NP = 8
 NT = 4
 Strict = TRUE
ALIAS TBAlias
