------------------------------- MODULE MC_Mix -------------------------------
EXTENDS EvmProg
MCOut == OutEnv
Menu == <<<<4, "sstore">>, <<3, "sload">>, <<2, "tstore">>, <<2, "tload">>, <<5, "call">>, <<2, "callcode">>, <<3, "delegate">>,
  <<2, "static">>, <<2, "create">>, <<2, "create2">>, <<2, "createcall">>, <<3, "log">>, <<2, "account">>, <<1, "extcopy">>, <<3, "env">>,
  <<1, "gas">>, <<1, "msize">>, <<2, "copy">>, <<1, "retcopy">>, <<2, "mstore">>, <<1, "mload">>, <<1, "keccak">>, <<1, "destruct">>, <<1, "die">>>>
MCCase(i) == RandBlock(i, Menu, 7, 2)
=============================================================================
