"""What each check runs.

mc: (module, configuration) to model-check; gen: (module, configuration, number
of generated sequences in quick, harness command, trace specification); rec:
(harness command, number of random histories, trace specification); need: kinds
of steps which must have been validated, or the check says nothing.
"""
LEVEL = "model_checking"
ASSUME = ["X25519, HMAC-SHA256, HKDF and AES of Go's standard library and x/crypto are correct",
          "message keys which the specification distinguishes differ in the library (no collisions)"]

TECH = "TLA+ specification checked with TLC; behaviours generated from it replayed in the library, and histories recorded from the library validated against it"
NOTE = ("The specification satisfies the property for all histories within small bounds (TLC). The library is shown to follow the "
        "specification on every generated and recorded history; this is not a proof for histories outside those. Trusts TLC, Go's crypto, and the harness's observation of the stores.")

S = "SessionTrace"


def sess(count, gens, mcs, need, deep=()):
    return dict(mc=[("SessionMC", m) for m in mcs], mc_deep=[("SessionMC", m) for m in deep],
                gen=[("SessionGen", g, n, "gen", S) for g, n in gens], rec=[("trace", count, S)], need=need)


G = "GroupTrace"


def grp(count, gens, mcs, need, deep=()):
    return dict(mc=[("GroupMC", m) for m in mcs], mc_deep=[("GroupMC", m) for m in deep],
                gen=[("GroupGen", g, n, "groupgen", G) for g, n in gens], rec=[("group", count, G)], need=need)


def both(a, b):
    out = {}
    for k in ("mc", "mc_deep", "gen", "gen_deep", "rec", "need"):
        out[k] = a.get(k, []) + b.get(k, [])
    return out


STATELESS = {"WireTrace", "PaddingTrace", "FingerprintTrace", "KeysTrace", "ConcurrentTrace"}     # each line is a history of its own
WK = ["signal", "prekey", "senderkey", "distribution"]

PLANS = {
    "C01": sess(350, [("one", 300), ("long", 400), ("api2", 300)], ["one", "long", "api2"], ["ini/.*/ok", "dec/new/ok", "dec/skip/ok", "dec/jump/ok", "dec/prev/ok", "dec/step/ok"], ["big_long", "big_windows"]),
    "C02": sess(350, [("one", 400), ("three", 200)], ["one", "both"], ["dec/old/dup", "dec/prev/dup", "dec/missing/inv"], ["big_both", "big_three"]),
    "C03": sess(350, [("forge", 100), ("three", 300)], ["one", "forge"], ["dec/mac/inv", "dec/none/inv", "dec/new/inv"], ["big_three"]),
    "C04": sess(350, [("one", 300), ("ident", 300)], ["one", "ident"], ["dec/mac/inv", "enc/enc/nos"], ["big_ident"]),
    "C05": sess(350, [("ident", 700), ("api", 150)], ["ident", "api"], ["dec/.*/unt", "enc/.*/unt", "bun/.*/unt"], ["big_ident"]),
    "C06": sess(350, [("both", 300), ("one", 200), ("ident", 200), ("api", 300)], ["one", "both", "api"], ["bun/bundle/ok", "bun/.*/inv", "dec/new/ok", "ppk/new/ok", "ppk/known/ok", "ini/.*/ok"], ["big_both", "big_api"]),
    "C07": sess(350, [("opk", 500), ("api", 200)], ["one", "opk", "api"], ["dec/missing/inv", "dec/new/ok", "ppk/new/ok", "ppk/missing/inv"], ["big_opk", "big_three"]),
    "C08": both(sess(350, [("long", 400), ("both", 200)], ["one", "long"], ["enc/enc/ok", "dec/step/ok", "dec/jump/ok"], ["big_both", "big_long"]),
                grp(200, [("one", 200)], ["one"], ["genc/.*/ok"], ["big_rotate"])),
    "C09": sess(150, [], ["one", "long"], ["cmp/read", "cmp/derivable", "dec/prev/ok"], ["big_both", "big_long"]),
    "C10": sess(250, [("windows", 300)], ["long"], ["dec/far/inv", "dec/skip/ok", "dec/jump/ok"], ["big_windows", "windows"]),
    "C11": sess(250, [("both", 600), ("api2", 300)], ["both", "api2"], ["ini/.*/ok", "dec/prev/ok", "enc/enc/nos"], ["big_both"]),
    "C16": both(sess(350, [("three", 300)], ["one"], ["dec/new/ok"], ["three"]),
                grp(350, [("groups", 200), ("members", 200)], ["groups"], ["gdec/.*/ok"], ["members"])),
    "C17": both(sess(350, [], ["one"], [".*/fault"], ["big_long"]), grp(350, [], ["one"], ["g.*/fault"], ["big_rotate"])),
    "C23": dict(both(sess(300, [("long", 300), ("both", 200)], ["one", "long"], ["terms/session"], ["big_long"]),
                     grp(300, [("rotate", 200)], ["one"], ["terms/group", "terms/dists"], ["big_rotate"])), terms=True),
    "C24": sess(350, [("both", 200), ("one", 200)], ["one"], ["dec/prev/ok"], ["big_both"]),
    "C12": grp(500, [("one", 400), ("members", 300), ("windows", 200)], ["one", "windows", "members"], ["gdec/next/ok", "gdec/skip/ok", "gdec/jump/ok"], ["big_windows", "big_members"]),
    "C13": grp(500, [("one", 500), ("rotate", 400)], ["one", "rotate"], ["gdec/old/dup"], ["big_rotate"]),
    "C14": grp(500, [("forge", 600), ("groups", 200)], ["forge", "groups"], ["gdec/sig/inv", "gdec/none/.*"], ["big_members"]),
    "C15": grp(400, [("windows", 400), ("rotate", 400)], ["windows", "rotate"], ["gdec/far/inv", "gprc/.*/ok", "grot/.*/ok"], ["big_windows", "big_rotate"]),
    "C18": both(both(sess(150, [("forge", 50)], ["one"], ["dec/.*/inv"]), grp(150, [("forge", 100)], ["one"], ["gdec/.*/inv"])),
                dict(mc=[("WireMC", k) for k in WK] + [("WireMC", "edit_" + k) for k in WK], mc_deep=[("WireMC", "big_" + k) for k in WK],
                     gen=[("WireGen", k, 0, "wiregen", "WireTrace") for k in WK], rec=[("wire", 900, "WireTrace")],
                     gen_deep=[("WireGen", "two_" + k, 1500, "wiregen", "WireTrace") for k in WK],
                     need=["%s/%s/ok" % (e, k) for k in WK for e in ("case", "build")] + ["case/%s/err" % k for k in WK + ["plaintext", "key", "idkey", "uuid", "uuidtext"]])),
    "C22": grp(500, [("forge", 400), ("one", 300)], ["one", "forge"], ["gdec/sig/inv"], ["big_members"]),
    "C25": grp(300, [], ["one", "forge"], ["gcmp/read", "gcmp/derivable"], ["big_members"]),
    "C26": both(both(sess(60, [], ["one"], ["dec/.*/ok"]), grp(60, [], ["one"], ["gdec/.*/ok"])),
                dict(mc=[("PaddingMC", "small")], mc_deep=[("PaddingMC", "big")], gen=[("PaddingGen", "blocks", 0, "padgen", "PaddingTrace")],
                     rec=[("pad", 1500, "PaddingTrace")], need=["enc/ok", "enc/err", "dec/ok", "dec/err"])),
    "C19": dict(mc=[("FingerprintMC", "small")], mc_deep=[("FingerprintMC", "big")], gen=[("FingerprintGen", "codes", 0, "fpgen", "FingerprintTrace")],
                rec=[("fp", 900, "FingerprintTrace")],
                need=["fp/ok", "fp/err", "pair/match/same", "pair/no/other", "pair/err/same", "cmp/match", "cmp/no", "cmp/err", "new/ok", "new/err"]),
    "C20": dict(mc=[("KeysMC", "small")], mc_deep=[("KeysMC", "big")], gen=[("KeysGen", "claims", 0, "keysgen", "KeysTrace")],
                rec=[("keys", 600, "KeysTrace")],
                need=["ver/yes", "ver/no", "alt/yes", "alt/no", "non/", "dh/ok", "dh/err", "dhs/", "eq/yes", "eq/no", "can/yes", "can/no", "priv/ok", "priv/err", "pair/ok", "pair/err", "make/ok", "make/err"]),
    "C28": dict(race=True, mc=[("ConcurrentMC", "small")], mc_deep=[("ConcurrentMC", "big")], mc_bad=[("ConcurrentMC", "bad_scratch"), ("ConcurrentMC", "bad_cache")],
                gen=[("ConcurrentGen", "rounds", 0, "concgen", "ConcurrentTrace")], rec=[("conc", 120, "ConcurrentTrace")],
                need=[k + "/" + h for k in ("bundle", "encrypt", "decrypt", "first", "archive", "distribute", "process", "gencrypt", "gdecrypt", "parse",
                                            "sign", "agree", "keys", "compare", "fingerprint", "cipher", "prekey") for h in ("shared", "cold")]),
    "C21": dict(mc=[("StoresMC", k) for k in ("sessions", "groups", "keys", "ids")], mc_deep=[("StoresMC", "big_" + k) for k in ("sessions", "groups", "keys", "ids")],
                gen=[("StoresGen", k, n, "storesgen", "StoresTrace") for k, n in (("sessions", 0), ("groups", 0), ("keys", 0), ("ids", 0))],
                rec=[("stores", 400, "StoresTrace")],
                need=[e + "/" + v for e in ("sload", "gload", "pload", "nload", "iload") for v in ("none", "some")] + ["iclear/none", "pdel/none", "istore/some", "itrust/some", "kp/some", "reg/some"]),
    "C27": dict(mc=[("StoresMC", k) for k in ("states", "records", "senders")], mc_deep=[("StoresMC", "big_" + k) for k in ("states", "records", "senders")],
                gen=[("StoresGen", k, n, "storesgen", "StoresTrace") for k, n in (("states", 600), ("records", 0), ("senders", 0))],
                rec=[("stores", 300, "StoresTrace")],
                need=["chg/mk/some", "chg/mk/none", "chg/smk/none", "chg/rcv/none", "chg/rck/err", "old/none", "promo/none", "has/some", "arch/none", "gchg/add/none", "gchg/mk/some", "gchg/rm/some", "gchg/rmall/some"]),
}

# Faulty variants of the specification, which TLC must find to violate the
# invariant: module, configuration.
_BAD = {
    "C01": ["one_TakeForget", "both_ArchiveDrops", "api2_GivesUpOnDup"],
    "C02": ["one_TakeStay", "long_TakeStay", "forge_CanonicalAll"],
    "C03": ["forge_MacAny"],
    "C05": ["ident_PinNot", "ident_TrustAll"],
    "C07": ["opk_ConsumesNever"],
    "C08": ["one_AdvanceNot", "g:one_AdvanceNot"],
    "C09": ["one_TakeKeep", "one_HealsEarly"],
    "C10": ["long_KeepAll"],
    "C11": ["both_ArchiveCopies", "both_ArchiveDrops", "api2_GivesUpOnDup"],
    "C12": ["g:one_SkipNot"],
    "C13": ["g:one_AfterNot"],
    "C14": ["g:forge_SignedAny", "g:forge_SignedIgnoresKey"],
    "C15": ["g:windows_SkipAll"],
    "C25": ["g:one_WithoutNot", "g:rotate_ResetNot", "g:rotate_TopFirst"],
}
for _pid, _names in _BAD.items():
    PLANS[_pid].setdefault("mc_bad", []).extend(
        ("GroupBad", n[2:]) if n.startswith("g:") else ("SessionBad", n) for n in _names)
