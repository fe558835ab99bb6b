-------------------------------- MODULE MCPool --------------------------------
EXTENDS Pool, IOUtils
Model == JsonDeserialize(IOEnv.MODEL)
ProcsV == 1..Model.procs
CfgV == Model.cfg
ClosersV == {Model.closers[i] : i \in 1..Len(Model.closers)}
===============================================================================
