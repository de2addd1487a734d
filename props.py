"""What each property's check runs."""

COMMON_ASSUMPTIONS = [
    "the Java evaluators of the primitive operators (java/gv/Prims.java) compute the standard functions",
    "the harness records what the library returned",
    "bounded: only the scenarios that the generators enumerate are replayed",
]


def simple(*mods):
    def run(c):
        for m in mods:
            m = m if isinstance(m, tuple) else (m, "Gen")
            c.conform(c.generate(m[0], cfg=m[1]))
    return run


def features(c):
    """C19: the same scenarios on processors with fewer features."""
    import json
    cfgs = [json.loads(l) for l in open(c.generate("GenFeatures"))]
    full = c.tier == "thorough"
    for m, keep in (("GenHash", 1), ("GenSha3", 3), ("GenHmac", 1), ("GenAead", 1), ("GenX25519", 3), ("GenEcdh", 4), ("GenEcdsaSign", 1), ("GenEcdsaVerify", 3),
                    ("GenEd25519", 1), ("GenRsaVerify", 2), ("GenRsaSign", 1), ("GenMlKem", 2), ("GenRecords", 2), ("GenTickets", 2), ("GenTlsKx", 3), ("GenTlsKeys", 3)):
        c.agree(c.generate(m), cfgs if not full or m in ("GenHash", "GenHmac") else [x for x in cfgs if len(x["without"]) in (1, 7) or x["may"]], keep=None if full else keep)


def conc(c):
    """C24: threads; the first uses in processes of their own."""
    c.conform(c.generate("GenConc", {"part": "first"}), fresh=2, repeat=25, label="first uses")
    c.conform(c.generate("GenConc", {"part": "share"}), repeat=30, jobs=2, label="shared objects")
    c.conform(c.generate("GenConc", {"part": "tickets"}), jobs=2, label="tickets")


def silent(c):
    """C25: runs that differ only in secrets, as an observer of the processor sees them."""
    small, heavy = {"small": 1}, {"small": 0}
    c.silent(c.generate("GenLeak", heavy), "release", label="public-key operations, as optimised for release")
    c.silent(c.generate("GenLeak", small), "release", label="symmetric operations, as optimised for release")
    c.silent(c.generate("GenLeak", small), "dev", label="symmetric operations")
    for cpu in c.processors():
        c.silent(c.generate("GenLeak", small), "dev", cpu, label="symmetric operations, other processors")


PROPS = {
    "C25": {"run": silent, "technique": "TLA+ noninterference specification over pairs of runs; TLC-generated scenarios single-stepped in the code; recorded observations validated by TLC"},
    "C26": {"run": simple("GenPair"), "technique": "TLA+ specification of TLS 1.2/1.3 connections; TLC-generated histories run between two real endpoints; recorded wire traces validated by TLC"},
    "C01": {"run": simple("GenHash")},
    "C02": {"run": simple("GenSha3")},
    "C03": {"run": simple("GenHmac")},
    "C04": {"run": simple("GenAead")},
    "C06": {"run": simple("GenX25519")},
    "C07": {"run": simple("GenEcdh")},
    "C08": {"run": simple("GenEcdsaSign")},
    "C09": {"run": simple("GenEcdsaVerify")},
    "C10": {"run": simple("GenEd25519")},
    "C11": {"run": simple("GenRsaVerify")},
    "C12": {"run": simple("GenRsaSign")},
    "C13": {"run": simple("GenRsaGen")},
    "C15": {"run": simple("GenContainers")},
    "C17": {"run": simple("GenRng")},
    "C14": {"run": simple("GenMlKem")},
    "C20": {"run": simple("GenRecords")},
    "C21": {"run": simple("GenTickets")},
    "C22": {"run": simple("GenTlsKx")},
    "C23": {"run": simple("GenTlsKeys")},
    "C19": {"run": features},
    "C18": {"run": simple("GenWipe")},
    "C24": {"run": conc},
    "C16": {"run": simple("GenHostile")},
    "C05": {"run": simple(("GenForge", "GenForge"))},
}

# properties that are also laws of the specification's operators (spec/Laws.tla)
LAWS = {"C%02d" % i for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 26)}

NA = {}
NOTE = ("Bounded: every scenario the TLA+ generators enumerate is executed on the code built from /repo and its trace "
        "must be a behaviour of the TLA+ specification (exact outputs). Trusts TLC, the Java evaluators of the primitive "
        "operators, and the recording harness.")
