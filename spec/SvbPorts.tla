------------------------------- MODULE SvbPorts -------------------------------
(* What the library exports on every platform, and when it builds.             *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

ApiEncode == [GetMode |-> "func() shared.PerformanceMode",
         Put4uint32DeltaScalar |-> "func([]uint32, []byte, uint32) uint8",
         Put4uint32Scalar |-> "func([]uint32, []byte) uint8",
         Put8uint32 |-> "func([]uint32, []byte) uint16",
         Put8uint32Delta |-> "func([]uint32, []byte, uint32) uint16",
         Put8uint32DeltaFast |-> "func([]uint32, []byte, uint32) uint16",
         Put8uint32DeltaScalar |-> "func([]uint32, []byte, uint32) uint16",
         Put8uint32Fast |-> "func([]uint32, []byte) uint16",
         Put8uint32Scalar |-> "func([]uint32, []byte) uint16",
         PutUint32DeltaScalar |-> "func([]uint32, []byte, int, uint32) uint8",
         PutUint32Scalar |-> "func([]uint32, []byte, int) uint8"]
ApiDecode == [Get4uint32DeltaScalar |-> "func([]byte, []uint32, uint8, uint32)",
         Get4uint32Scalar |-> "func([]byte, []uint32, uint8)",
         Get8uint32 |-> "func([]byte, []uint32, uint16)",
         Get8uint32Delta |-> "func([]byte, []uint32, uint16, uint32)",
         Get8uint32DeltaFast |-> "func([]byte, []uint32, uint16, uint32)",
         Get8uint32DeltaScalar |-> "func([]byte, []uint32, uint16, uint32)",
         Get8uint32Fast |-> "func([]byte, []uint32, uint16)",
         Get8uint32Scalar |-> "func([]byte, []uint32, uint16)",
         GetMode |-> "func() shared.PerformanceMode",
         GetUint32DeltaScalar |-> "func([]byte, []uint32, uint8, int, uint32) int",
         GetUint32Scalar |-> "func([]byte, []uint32, uint8, int) int"]
ApiReader == [ReadAll |-> "func(int, []byte, []uint32)",
         ReadAllDelta |-> "func(int, []byte, []uint32, uint32)",
         ReadAllDeltaFast |-> "func(int, []byte, []uint32, uint32)",
         ReadAllDeltaScalar |-> "func(int, []byte, []uint32, uint32)",
         ReadAllFast |-> "func(int, []byte, []uint32)",
         ReadAllScalar |-> "func(int, []byte, []uint32)"]
ApiWriter == [WriteAll |-> "func([]uint32) []byte",
         WriteAllDelta |-> "func([]uint32, uint32) []byte",
         WriteAllDeltaFast |-> "func([]uint32, uint32) []byte",
         WriteAllDeltaScalar |-> "func([]uint32, uint32) []byte",
         WriteAllFast |-> "func([]uint32) []byte",
         WriteAllScalar |-> "func([]uint32) []byte"]
ApiShared == [ControlByteToSize |-> "func(uint8) int", ControlByteToSizeTwo |-> "func(uint16) int"]
Api == ("encode" :> ApiEncode) @@ ("decode" :> ApiDecode) @@ ("stream/reader" :> ApiReader)
       @@ ("stream/writer" :> ApiWriter) @@ ("shared" :> ApiShared)

(* e: one package on one platform: errors of the compiler's front end, funcs   *)
(* exported with their signatures.                                             *)
Builds(e)  == e.errors = <<>>
Exports(e) == e.pkg \in DOMAIN Api =>
                \A f \in DOMAIN Api[e.pkg] : f \in DOMAIN e.funcs /\ e.funcs[f] = Api[e.pkg][f]
===============================================================================
