------------------------------- MODULE Export -------------------------------
(* Writes the syntax tables for the driver. *)
EXTENDS Syntax, Json, IOUtils

ASSUME JsonSerialize(IOEnv.SYNTAX_OUT,
         [header |-> [syn |-> HeaderSyn, init |-> Header0],
          commands |-> CmdSyntax, descriptors |-> DescSyntax,
          subtypes |-> SubSegmentTypes])
=============================================================================
