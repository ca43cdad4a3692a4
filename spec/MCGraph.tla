------------------------------- MODULE MCGraph -------------------------------
EXTENDS Graph
AllTargets == SUBSET Nodes \ {{}}
OneTarget == {{1}, {1, 2}}
=============================================================================
