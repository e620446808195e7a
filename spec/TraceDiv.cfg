SPECIFICATION TraceSpec
ALIAS TBAlias
