------------------------------ MODULE Additive ------------------------------
(***************************************************************************)
(* Additive secret sharing: the leader holds what is left of the secret    *)
(* when the others' masks are taken away.                                  *)
(***************************************************************************)
EXTENDS Fields, FiniteSets

AddShares(F, s, masks) == TLCEval(<<FSub(F, s, VSum(F, masks))>> \o masks)
=============================================================================
