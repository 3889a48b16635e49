----------------------------- MODULE SvbDispatchMC ----------------------------
EXTENDS SvbDispatch
TNeeds == [put |-> {"avx"}, get |-> {"avx", "avx2"}]
===============================================================================
