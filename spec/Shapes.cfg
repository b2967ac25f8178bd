INIT Init
NEXT Next
INVARIANTS ParseReadsGen EmitWritesGen JsonSaysGen XmlSaysGen
CHECK_DEADLOCK FALSE
