"""Which specifications decide which property, and how their behaviours reach the code."""

COMMON_ASSUMPTIONS = [
    "TLC explores the specification correctly; keccak-256 and ECDSA of the crates the harness uses are right",
    "the property is decided up to the stated bounds of the configurations",
]


def U(name, module, cfg, replay, **kw):
    return dict(name=name, module=module, cfg=cfg, replay=replay, **kw)


def hist(cmd):
    h = [U("hist_small", "MC_MptHist", "MC_MptHist_small", [[cmd]])]
    for i, c in enumerate(("big", "uneven", "long")):
        h.append(U("hist_" + c, "MC_MptHist", "MC_MptHist_" + c, [[cmd]], simulate=(250, 61), salt=i,
                   deep=dict(simulate=(4000, 61))))
    return h


def evm(name, module, last, deep, replay="evm-exec", cfg="Evm", most=1, **env):
    """Blocks 1..last of a module of cases; the seed shifts the pseudo-random ones.
    At least the given part of them must be replayed."""
    return U(name, module, cfg, [[replay]], xss="200m", mem="10g", timeout=3000, limit=3000, min_traces=int(last * most),
             env=dict(env, FIRST=1, LAST=last), deep=dict(env=dict(env, FIRST=1, LAST=deep), min_traces=int(deep * most)))


def corners(group, n):
    return evm("corners", "MC_Corners", n, n, GROUP=group)


PLAN = {
    "M01": dict(note="All 6561 maps over 8 keys and 2 values with every insert/delete edge, all histories of depth 4 on two clones, and sampled long histories on three clones with deep, uneven and full-length keys; lookups, enumeration and delete results compared after every observation.",
        units=[U("state", "MC_MptState", "MC_MptState", [["mpt-state-map"]])] + hist("mpt-hist-map")),
    "M02": dict(note="Same behaviours as M01; every root compared with the specification's Yellow-Paper encoding (keccak from a library), and every node structure with the canonical trie.",
        units=[U("state", "MC_MptState", "MC_MptState", [["mpt-state-root"]])] + hist("mpt-hist-root")),
    "M03": dict(note="Every hiding of every subtree of every trie over two key sets (6 keys flat, 5 keys deep), every get/insert/delete on it, both trie kinds and both orphan modes; sizes around the 32-byte limit by two value lengths.",
        units=[U("ops_" + c, "MC_MptPartial", f"MC_MptPartial_{c}_Ops", [["mpt-partial-ops"]]) for c in ("wide", "deep")]),
    "M04": dict(note="Every partial trie as in M03 with every request of up to two keys (present, absent) and all keys; the produced subset is compared node for node with the specification's.",
        units=[U("sub_" + c, "MC_MptPartial", f"MC_MptPartial_{c}_Subsets", [["mpt-partial-subsets"]]) for c in ("wide", "deep")]),
    "M05": dict(note="All pairs of strings over 3 digits up to length 4 and selected strings up to 64 nibbles, every operation compared with plain sequences.",
        units=[U("nib_" + c, "MC_Nibbles", f"MC_Nibbles_{c}", [["nibbles"]]) for c in ("short", "long")]),
    "M06": dict(note="Paths of every key in every partial trie, and comparison of every partial trie with a spread of other tries; reported points are checked to be real differences.",
        units=[U("path_" + c, "MC_MptPartial", f"MC_MptPartial_{c}_Paths", [["mpt-partial-paths"]]) for c in ("wide", "deep")]),
    "S01": dict(note="Every map over 7 keys and 2 values with every set edge, embedded at several bit offsets of 256-bit keys (adjacent, limb-crossing, last bit), and sampled histories of 60 operations; values, lookups, store and Poseidon root compared with a specification of the canonical tree.",
        units=[U("set", "MC_SmtState", "MC_SmtState_set", [["smt-state"]]),
               U("hist", "MC_SmtHist", "MC_SmtHist", [["smt-hist"]], simulate=(300, 61), deep=dict(simulate=(4000, 61)))]),
    "S02": dict(note="Every hiding of every subtree of every tree over 6 keys, serialised and read back, with every root; sampled histories serialised at each observation, pruned to each requested key set.",
        units=[U("hide", "MC_SmtState", "MC_SmtState_hide", [["smt-ser"]]),
               U("hist", "MC_SmtHist", "MC_SmtHist", [["smt-hist"]], simulate=(300, 61), deep=dict(simulate=(4000, 61)))]),
}

_EVM_NOTE = ("Blocks written by the executable specification Evm.tla (Cancun; every opcode of the family with its gas) are signed, "
             "given to the kernel with the specification's roots and gas as claims, and must be accepted; invariants of the "
             "specification are checked in every state. ")
PLAN.update({
    "E01": dict(note=_EVM_NOTE + "Pseudo-random sequences of transactions of all types with boundary gas, value, fee and nonce.",
        units=[evm("tx", "MC_E01", 60, 1500), corners("E01", 7)]),
    "E02": dict(note=_EVM_NOTE + "Trees of calls and creations in which frames revert, halt and run out of gas after all kinds of effects.",
        units=[evm("trees", "MC_E02", 60, 1500), evm("mix", "MC_Mix", 40, 1500)]),
    "E03": dict(note=_EVM_NOTE + "All orders of original/current/new values and sampled sequences across calls, reverts and gas limits.",
        units=[evm("sstore", "MC_E03", 60, 1500)]),
    "E04": dict(note=_EVM_NOTE + "All call kinds with boundary gas, value, input and output areas, static frames and depths.",
        units=[evm("calls", "MC_E04", 60, 1500)]),
    "E05": dict(note=_EVM_NOTE + "Creations by all three means with every kind of outcome, before and after other effects.",
        units=[evm("creates", "MC_E05", 100, 2500), corners("E05", 11)]),
    "E06": dict(note=_EVM_NOTE + "Self-destructions of old and new contracts to all kinds of recipients, in reverted and surviving frames.",
        units=[evm("destroys", "MC_E06", 100, 2500), corners("E06", 8)]),
    "E07": dict(note=_EVM_NOTE + "Transient reads and writes across calls, reverts, delegation, self-destruction and transactions.",
        units=[evm("transient", "MC_E07", 60, 1500)]),
    "E08": dict(note=_EVM_NOTE + "Accesses of all kinds in all orders with access lists and reverted frames; the gas of each is logged.",
        units=[evm("access", "MC_E08", 36, 1000)]),
    "E09": dict(note=_EVM_NOTE + "All pairs of boundary operands (sampled in the quick check) and pseudo-random ones for every word operation.",
        units=[evm("words", "MC_E09", 30, 450)]),
    "E10": dict(note=_EVM_NOTE + "Programs of memory reads, writes and copies at awkward offsets and lengths.",
        units=[evm("memory", "MC_E10", 60, 1500)]),
    "E11": dict(note=_EVM_NOTE + "Every opcode at every stack height of interest, jumps into all kinds of bytes, random bytes as code.",
        units=[evm("control", "MC_E11", 64, 1200)]),
    "E12": dict(note=_EVM_NOTE + "Logs of all shapes from trees of frames; one block with 131 transactions.",
        units=[evm("logs", "MC_E12", 30, 800)]),
    "E13": dict(note=_EVM_NOTE + "Every range of transactions is a payload of its own, with the tries, counters and claims at its ends; empty payloads; withdrawals; beacon roots.",
        units=[evm("cuts", "MC_E13", 60, 1000, replay="evm-cuts"), evm("mixcuts", "MC_Mix", 16, 600, replay="evm-cuts")]),
    "E14": dict(note="Claims.tla: parts of specified blocks become payloads with true claims; then one thing is falsified (each claimed account, receipt, transaction, counter; each input; codes and storage that do not match the tries) and what came out is run by the specification, which says whether the claims are still true. The kernel must accept exactly those.",
        units=[evm("claims", "MC_E14", 8, 150, replay="evm-claims", cfg="Claims")]),
    "E15": dict(note=_EVM_NOTE + "All environment and block queries in outer, inner, delegated and init frames under varied headers.",
        units=[evm("env", "MC_E15", 12, 300)]),
    "E16": dict(note=_EVM_NOTE + "All precompiled contracts on valid, almost valid, cut and extended inputs with exact gas or one too little, by every kind of call and by transactions. Elliptic-curve points are small multiples of the generators; the specification computes with their logarithms.",
        units=[evm("precompiles", "MC_E16", 100, 2000)]),
})

_D_NOTE = ("Traces.tla watches the executable specification run blocks of up to six transactions and writes what a tracer reports about each; "
           "the reports go through the decoder as direct and compact pre-images, whole and pruned, with every batch size. ")
PLAN.update({
    "D01": dict(note=_D_NOTE + "Contents, order, counters, gas, roots and withdrawals of the payloads chain and cover the block.",
        units=[evm("chain", "MC_D", 60, 900, replay="decode-chain", cfg="Traces", most=0.6)]),
    "D02": dict(note=_D_NOTE + "Roots after each payload are those of the worlds that the reports describe, true reports and falsified ones.",
        units=[evm("roots", "MC_D", 60, 900, replay="decode-roots", cfg="Traces", most=0.6)]),
    "D03": dict(note=_D_NOTE + "Partial tries have the roots before the batch, and the kernel runs each payload with what it contains.",
        units=[evm("suffices", "MC_D", 50, 500, replay="decode-run", cfg="Traces", most=0.6)]),
})

PLAN.update({
    "W01": dict(note="Wire.tla writes pseudo-random state and storage tries (branches, extensions, all kinds of leaves, hidden parts, code) as compact witnesses; the decoder must rebuild the same tries, accounts and code. Then instructions are dropped, doubled, swapped, retyped, cut or get bad fields; the specification runs the stack machine on the result, and the decoder must accept it with the same meaning or return an error.",
        units=[U("witness", "MC_W01", "Wire", [["wire"]], xss="200m", mem="8g", min_traces=50, env=dict(FIRST=1, LAST=150, DAMAGES=60),
                 deep=dict(env=dict(FIRST=1, LAST=900, DAMAGES=200)))]),
    "T01": dict(tables=True, note="Memory.tla: all histories of two operations over three values and of three over two (with pruned contexts, preinitialized and zero-initialized segments), and sampled long ones; the generated tables must be accepted and carry exactly the specified memory into the next segment, attacks on them must be rejected, and of all tables of five rows over a small universe exactly those of legal histories may be accepted.",
        units=[U("two", "MC_Memory", "MC_Memory_two", [["mem-honest", "1"], ["mem-tables"]], min_traces=1000),
               U("three", "MC_Memory", "MC_Memory_three", [["mem-honest", "1"], ["mem-tables"]], min_traces=1000),
               U("wide", "MC_Memory", "MC_Memory_wide", [["mem-honest", "1"], ["mem-honest", "37"]], simulate=(6, 54), min_traces=100,
                 deep=dict(simulate=(60, 54)))]),
    "T02": dict(tables=True, note="Alu.tla: pseudo-random and boundary operands of every operation of the arithmetic, logic and byte-packing tables; the generated tables must be accepted and claim exactly what is specified, and rows forged from them (cells changed, parts exchanged with other operations, quotients and remainders falsified, results changed with another cell solved to fit) must be rejected unless what they claim is true.",
        units=[U("ops", "MC_Alu", "MC_Alu", [["alu-honest"], ["alu-forge", "5", "1"]], xss="200m", min_traces=80, env=dict(FIRST=1, LAST=100),
                 deep=dict(env=dict(FIRST=1, LAST=600), limit=3000, replay=[["alu-honest"], ["alu-forge", "60", "4"]]))]),
})

HOOKS = dict(guard="verif_hooks (rustc --cfg)", enable="RUSTFLAGS='--cfg verif_hooks' for the second build of the harness (bin/check.py, function build), with its feature 'tables'", source_commits=["51e9fab", "f9b95a3"])
NOT_APPLICABLE = {}
