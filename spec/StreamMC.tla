------------------------------ MODULE StreamMC ------------------------------
(* Exhaustive checking of Stream over small geometries: every division of
   the byte stream into the given append sizes, every order of writing the
   parts of a layer, the end at every point, and optionally every fault. *)
EXTENDS Stream

CONSTANTS MCConfigs, MaxBytes, WithFaults

Dim(s, c, h) == [n |-> "d", ty |-> "space", s |-> s, c |-> c, h |-> h]
TDim(c, h) == [n |-> "t", ty |-> "time", s |-> 0, c |-> c, h |-> h]
CDim(s, c, h) == [n |-> "c", ty |-> "channel", s |-> s, c |-> c, h |-> h]
V == [add |-> 1, mul |-> 1, step |-> 1, off |-> 0, m |-> 97]
Cfg(v, ms, fs, dims) == [v |-> v, ms |-> ms, fs |-> fs, bpp |-> 1, dims |-> dims, val |-> V]

SmallDims ==
    { <<TDim(2, 2), Dim(2, 2, 1), Dim(3, 2, 2)>>,
      <<TDim(1, 2), Dim(3, 2, 1), Dim(2, 1, 2)>>,
      <<TDim(1, 1), Dim(2, 3, 1), Dim(2, 2, 1)>>,
      <<TDim(1, 3), Dim(2, 1, 2), Dim(1, 1, 1)>> }
DeepDims ==
    { <<TDim(1, 2), CDim(2, 1, 2), Dim(2, 2, 1), Dim(2, 1, 2)>>,
      <<TDim(2, 1), Dim(3, 2, 1), Dim(1, 1, 1), Dim(2, 2, 1)>>,
      <<TDim(1, 2), CDim(2, 1, 1), Dim(2, 1, 2), Dim(1, 1, 1), Dim(2, 2, 1)>> }
PyramidDims ==
    { <<TDim(1, 2), Dim(4, 2, 2), Dim(3, 2, 1)>>,
      <<TDim(2, 1), Dim(2, 1, 2), Dim(4, 2, 1)>>,
      <<TDim(1, 1), Dim(2, 1, 1), Dim(2, 1, 1)>> }

CfgSmall == {Cfg(v, FALSE, fs, d) : v \in {2, 3}, fs \in BOOLEAN, d \in SmallDims}
CfgDeep == {Cfg(v, FALSE, fs, d) : v \in {2, 3}, fs \in BOOLEAN, d \in DeepDims}
CfgPyramid == {Cfg(v, TRUE, fs, d) : v \in {2, 3}, fs \in BOOLEAN, d \in PyramidDims}
CfgTiny == {Cfg(v, ms, fs, d) : v \in {2, 3}, ms \in BOOLEAN, fs \in BOOLEAN,
              d \in {<<TDim(1, 2), Dim(2, 1, 1), Dim(1, 1, 1)>>,
                     <<TDim(2, 2), Dim(2, 1, 2), Dim(1, 1, 1)>>}}

Init == \E c \in MCConfigs : InitWith(c)

\* append sizes: a byte, most of a frame, a frame, more than a layer
AppendSizes == {0, 1, FB, FB + 1, 2 * FB - 1, FB * FramesPerLayer(cfg.dims) + 1}
Env == \/ \E n \in AppendSizes : total + n <= MaxBytes * FB /\ AppendBegin(n)
       \/ DestroyBegin
Next == Internal \/ Env \/ (WithFaults /\ Faults)

Spec == Init /\ [][Next]_vars /\ WF_vars(Internal)

\* every call returns
Returns == (pc # "idle") ~> (pc \in {"idle", "closed"})
=============================================================================
