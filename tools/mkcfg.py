"""Writes the configurations of SessionMC and SessionGen (spec/*.cfg)."""
import os, sys
here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
INV = "InvAtMostOnce InvKeysUnique InvAuthentic InvOpkOnce InvPastSafe InvSentSafe InvBounded InvDelivery InvReplayIsDup InvPinned InvCurrent InvRatchetFresh InvConverge InvHeals InvCommands"
ALL = '{"bad", "unwrap", "alias", "evilbase", "evilid", "noopk", "rewrap", "low", "far", "other"}'
base = dict(MaxJumps=2, MaxKeys=2, MaxChains=3, MaxArchived=3, Addrs='{"a", "b"}', Starters="<- StartAB", OpkIds='{"5"}',
            NoOpk="TRUE", MaxBundles=1, MaxMsgs=3, MaxDec=4, Batch="{1}", Muts='{"bad", "unwrap", "alias"}', Extra='{"arc"}', MaxExtra=1)
cfgs = {
    "one": {},
    "both": dict(Starters="<- StartBoth", OpkIds="{}", MaxBundles=2, MaxMsgs=3, MaxDec=3, Muts='{"bad"}', Extra="{}", MaxExtra=0),
    "ident": dict(OpkIds='{"5"}', NoOpk="FALSE", MaxBundles=2, MaxMsgs=2, MaxDec=2, Muts='{"evilid", "bad"}', Extra='{"tru", "clr", "badsig"}', MaxExtra=2),
    "long": dict(NoOpk="FALSE", MaxMsgs=5, MaxDec=5, Muts="{}", Extra="{}", MaxExtra=0),
    "forge": dict(MaxBundles=1, MaxMsgs=2, MaxDec=3, Muts=ALL, Extra="{}", MaxExtra=0),
    "three": dict(Addrs='{"a", "b", "c"}', Starters="<- StartAC", MaxBundles=2, MaxMsgs=3, MaxDec=3, NoOpk="TRUE", Muts='{"rewrap"}', Extra="{}", MaxExtra=0),
    "opk": dict(Addrs='{"a", "b", "c"}', Starters="<- StartAC", MaxBundles=2, MaxMsgs=2, MaxDec=3, NoOpk="FALSE", OpkIds='{"5", "6"}', Muts='{"noopk", "bad"}', Extra="{}", MaxExtra=0),
    "big_opk": dict(Addrs='{"a", "b", "c"}', Starters="<- StartAC", MaxBundles=2, MaxMsgs=3, MaxDec=4, NoOpk="TRUE", OpkIds='{"5"}', Muts='{"noopk", "bad"}', Extra="{}", MaxExtra=0),
    "windows": dict(NoOpk="FALSE", MaxJumps=2, MaxKeys=1, MaxChains=2, MaxArchived=1, MaxMsgs=6, MaxDec=5, Batch="{1, 2, 3}", Muts="{}", Extra="{}", MaxExtra=0),
    "api": dict(NoOpk="FALSE", MaxBundles=1, MaxMsgs=3, MaxDec=3, Muts='{"noopk"}', Extra='{"ppk", "ini"}', MaxExtra=1),
    "api2": dict(NoOpk="FALSE", OpkIds="{}", MaxBundles=0, MaxMsgs=4, MaxDec=4, Muts='{"bad", "alias"}', Extra='{"ini"}', MaxExtra=2),
    # model checking only
    "big_both": dict(Starters="<- StartBoth", OpkIds="{}", MaxBundles=2, MaxMsgs=4, MaxDec=4, Muts='{"bad", "unwrap", "alias", "rewrap"}', Extra='{"arc"}', MaxExtra=1),
    "big_api": dict(Starters="<- StartBoth", MaxBundles=2, MaxMsgs=3, MaxDec=4, Muts='{"noopk", "evilbase"}', Extra='{"ppk", "ini", "arc"}', MaxExtra=1),
    "big_long": dict(MaxMsgs=6, MaxDec=6, Muts='{"unwrap"}', Extra='{"arc"}', MaxExtra=1),
    "big_three": dict(Addrs='{"a", "b", "c"}', Starters="<- StartAC", MaxBundles=2, MaxMsgs=3, MaxDec=4, Muts=ALL, Extra="{}", MaxExtra=0),
    "big_ident": dict(Starters="<- StartBoth", MaxBundles=2, MaxMsgs=3, MaxDec=3, Muts='{"evilid", "evilbase"}', Extra='{"tru", "clr", "arc"}', MaxExtra=2),
    "big_windows": dict(NoOpk="FALSE", MaxJumps=3, MaxKeys=2, MaxChains=2, MaxArchived=1, MaxBundles=1, MaxMsgs=7, MaxDec=6, Batch="{1, 2, 4}", Muts="{}", Extra="{}", MaxExtra=0),
}
def constants(d):
    return "CONSTANTS\n" + "".join("  %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v) for k, v in d.items())


# smaller bounds for generating behaviours
gen = {
    "three": dict(MaxMsgs=2, MaxDec=3),
    "opk": dict(MaxBundles=2, MaxMsgs=2, MaxDec=3, OpkIds='{"5"}'),
    "windows": dict(MaxMsgs=5, MaxDec=4),
}
for name, c in cfgs.items():
    d = dict(base); d.update(c)
    body = constants(d)
    with open(os.path.join(here, "SessionMC_%s.cfg" % name), "w") as f:
        f.write("SPECIFICATION Spec\n" + body + "INVARIANTS " + INV + "\nPROPERTIES PinStable OpkStable\nCHECK_DEADLOCK FALSE\n")
    if not name.startswith("big_"):
        d.update(gen.get(name, {}))
        body = constants(d)
        with open(os.path.join(here, "SessionGen_%s.cfg" % name), "w") as f:
            f.write("SPECIFICATION GenSpec\n" + body + "VIEW State\nCHECK_DEADLOCK FALSE\n")

# groups
GINV = "InvAtMostOnce InvKeysUnique InvBounded InvPastSafe InvSentSafe InvOnlyOwnerSigns InvDelivery InvDuplicate InvAuthentic InvRekeyHeals InvCommands"
gbase = dict(MaxJumps=2, MaxKeys=2, MaxStates=2, Addrs='{"a", "b"}', Senders='{"a"}', Dids='{"g1"}', MaxKeysMade=1, MaxDists=2, MaxMsgs=4,
             MaxDec=4, MaxProc=2, MaxReset=0, Batch="{1}", Muts='{"bad"}', DMuts="{}")
gcfgs = {
    "one": {},
    "windows": dict(MaxMsgs=7, MaxDec=4, Batch="{1, 3}", Muts="{}", MaxDists=1, MaxProc=1, MaxKeys=1),
    "rotate": dict(MaxKeysMade=3, MaxDists=3, MaxReset=2, MaxMsgs=3, MaxDec=2, MaxProc=3, Muts="{}"),
    "forge": dict(MaxDists=1, MaxMsgs=2, MaxDec=3, MaxProc=3, Muts='{"bad", "evil", "it"}', DMuts='{"sk", "seed"}'),
    "groups": dict(Dids='{"g1", "g2"}', MaxKeysMade=2, MaxDists=2, MaxMsgs=3, MaxDec=2, MaxProc=2, Muts='{"did"}'),
    "members": dict(Addrs='{"a", "b", "c"}', Senders='{"a", "c"}', MaxKeysMade=2, MaxDists=2, MaxMsgs=3, MaxDec=3, MaxProc=3, Muts="{}"),
    "big_rotate": dict(MaxKeysMade=4, MaxDists=4, MaxReset=3, MaxMsgs=3, MaxDec=2, MaxProc=4, Muts="{}"),
    "big_windows": dict(MaxMsgs=9, MaxDec=6, Batch="{1, 2, 4}", Muts="{}", MaxDists=2, MaxProc=2, MaxJumps=3),
    "big_members": dict(Addrs='{"a", "b", "c"}', Senders='{"a", "c"}', MaxKeysMade=2, MaxDists=2, MaxMsgs=3, MaxDec=4, MaxProc=4, Muts='{"bad"}'),
}
ggen = {"rotate": dict(MaxProc=2), "members": dict(MaxMsgs=2, MaxDec=2, MaxProc=2)}
for name, c in gcfgs.items():
    d = dict(gbase); d.update(c)
    body = constants(d)
    with open(os.path.join(here, "GroupMC_%s.cfg" % name), "w") as f:
        f.write("SPECIFICATION Spec\n" + body + "INVARIANTS " + GINV + "\nPROPERTIES NoRewind\nCHECK_DEADLOCK FALSE\n")
    if not name.startswith("big_"):
        d.update(ggen.get(name, {}))
        body = constants(d)
        with open(os.path.join(here, "GroupGen_%s.cfg" % name), "w") as f:
            f.write("SPECIFICATION GenSpec\n" + body + "VIEW State\nCHECK_DEADLOCK FALSE\n")

# Faults of SessionBad and GroupBad: configuration, fault, operator it
# replaces ("" for none: the invariant itself is too strong), invariant which
# must be violated, changes to the configuration.
faults = [
    ("one", "TakeStay", "Take", "InvAtMostOnce", {}),
    ("one", "TakeKeep", "Take", "InvPastSafe", {}),
    ("one", "TakeForget", "Take", "InvDelivery", {}),
    ("one", "AdvanceNot", "Advance", "InvKeysUnique", {}),
    ("one", "HealsEarly", "", "HealsEarly", {}),
    ("long", "TakeStay", "Take", "InvReplayIsDup", {}),
    ("long", "KeepAll", "LastN", "InvBounded", {}),
    ("both", "ArchiveCopies", "Archive", "InvCurrent", dict(Extra='{"arc"}', MaxExtra=1)),
    ("both", "ArchiveDrops", "Archive", "InvDelivery", {}),
    ("forge", "CanonicalAll", "Canonical", "InvAtMostOnce", {}),
    ("forge", "MacAny", "MacHolds", "InvCommands", {}),
    ("ident", "PinNot", "Pin", "InvCommands", {}),
    ("ident", "TrustAll", "Trusts", "InvCommands", {}),
    ("api2", "GivesUpOnDup", "GivesUp", "InvDelivery", {}),
    ("opk", "ConsumesNever", "Consumes", "InvOpkOnce", dict(OpkIds='{"5"}', MaxBundles=2, MaxMsgs=2, MaxDec=2, Muts="{}")),
]
gfaults = [
    ("one", "AdvanceNot", "Advance", "InvKeysUnique", {}),
    ("one", "AfterNot", "After", "InvAtMostOnce", {}),
    ("one", "SkipNot", "Skip", "InvDelivery", {}),
    ("one", "WithoutNot", "TakeOut", "InvPastSafe", {}),
    ("windows", "SkipAll", "Skip", "InvBounded", {}),
    ("rotate", "ResetNot", "Reset", "InvRekeyHeals", {}),
    ("rotate", "TopFirst", "Top", "InvRekeyHeals", {}),
    ("forge", "SignedAny", "Signed", "InvCommands", {}),
    ("forge", "SignedIgnoresKey", "Signed", "InvCommands", {}),
]
for module, b, table, fs in (("SessionBad", base, cfgs, faults), ("GroupBad", gbase, gcfgs, gfaults)):
    for cfg, fault, op, inv, more in fs:
        d = dict(b); d.update(table[cfg]); d.update(more)
        body = constants(d)
        if op:
            body = body.replace("CONSTANTS\n", "CONSTANTS\n  %s <- %s\n" % (op, fault))
        with open(os.path.join(here, "%s_%s_%s.cfg" % (module, cfg, fault)), "w") as f:
            f.write("SPECIFICATION Spec\n" + body + "INVARIANTS " + inv + "\nCHECK_DEADLOCK FALSE\n")
