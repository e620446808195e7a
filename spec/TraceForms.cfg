SPECIFICATION TraceSpec
CONSTANT N = 201
ALIAS TBAlias
