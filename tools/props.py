"""What each property's check runs."""
from lib import *
import r1cs

LEVEL = {}


def C01(r):
    nd = r.drive("space", "c01")
    r.model("BigNumLaws")
    r.model("MC_Codec")
    r.trace("T_C01", nd)


def space_life(r, judge):
    """all histories of a space, from the specification, replayed into the code"""
    scn = os.path.join(r.tmp, "life.scn")
    r.model("MC_SpaceLife", env={"SCENARIOS": scn}, workers="1")
    nd = r.drive("space", "life", env={"SCENARIOS": scn, "JUDGE": judge})
    r.trace("T_Space", nd)


def C02(r):
    space_life(r, "prepare")
    nd = r.drive("space", "c02")
    r.model("MC_PoSpace", "MC_PoSpace2.cfg")
    r.trace("T_Space", nd)


def C03(r):
    space_life(r, "mark")
    nd = r.drive("space", "c03")
    r.model("MC_PoSpace", "MC_PoSpace2.cfg")
    r.model("MC_PoSpace", "MC_PoSpace3.cfg")
    r.trace("T_Space", nd)


def C04(r):
    space_life(r, "respond")
    nd = r.drive("space", "c04")
    r.model("MC_PoSpace", "MC_PoSpace2.cfg")
    r.model("MC_PoSpace", "MC_PoSpace3.cfg")
    r.trace("T_Space", nd)


def C05(r):
    nd = r.drive("space", "c05")
    r.model("MC_MiMC", "MC_MiMC3.cfg" if THOROUGH else None)
    r.trace("T_C05", nd)


def circuits(r, name):
    nd = r.drive("space", name)
    r.trace("T_Circ", nd)
    r1cs.check(r, nd + ".circ", limit=200 if not THOROUGH else 1500)
    return nd


def C06(r):
    circuits(r, "c06")


def C07(r):
    circuits(r, "c07")


def C08(r):
    circuits(r, "c08")


def C09(r):
    nd = r.drive("space", "c09")
    r.trace("T_Circ", nd)
    # the same circuit over F7: with no bit cut off, the relation needs no knowledge of the witness
    all_ = r.drive("tiny", "c09t", features=["n256"], out="n256.nd", optional=True)
    if all_ is None:
        r.note("the circuit does not compile over the small field; explored over the real field only")
        return
    r.trace("T_Circ", all_)
    r1cs.check(r, all_ + ".circ", limit=200 if not THOROUGH else 1500)
    # with 20 of 256 bits kept, preimages and bits as located in the real-field witness
    cut = r.drive("tiny", "c09t", features=["n20"], out="n20.nd", optional=True)
    loc = {}
    for line in open(nd + ".loc"):
        x = json.loads(line)
        loc[(x["r"], x["nv"], x["ni"])] = x
    f = os.path.join(r.tmp, "bits.circ")
    with open(f, "w") as o:
        for line in open(cut + ".circ"):
            c = json.loads(line)
            x = loc.get((c["r"], c["nv"], c["ni"]))
            if x is None or (c["r"] > 1 and not THOROUGH):
                continue
            c.update(kind="space_bits", sec=x["sec"], bits=x["bits"], d=x["d"])
            if not THOROUGH:
                c["start"] = [[v, vals[:1]] for v, vals in c["start"]]
            o.write(json.dumps(c) + "\n")
    r1cs.check(r, f, limit=200 if not THOROUGH else 2500, heap="12g")



def C10(r):
    nd = r.drive("space", "c10")
    r.model("MC_SpaceProto")
    r.model("MC_SpaceProto", "MC_SpaceProto2.cfg")
    r.trace("T_Proto", nd)
    whole = r.drive("space", "c10s", optional=True)
    if whole is None:
        r.note("whole sessions not run: the driver does not build with this tree")
    else:
        r.trace("T_Proto", whole)


def C11(r):
    a = r.drive("space", "c11", out="space.nd")
    b = r.drive("storage", "c11", out="storage.nd")
    r.model("MC_Challenges", workers="1")
    r.trace("T_C11", a)
    r.trace("T_C11", b)


def C12(r):
    nd = r.drive("storage", "c12")
    r.model("MC_Sloth")
    r.trace("T_C12", nd)


def C13(r):
    nd = r.drive("storage", "c13")
    r.model("MC_Depend")
    r.trace("T_C13", nd)


def seal_models(r):
    r.model("MC_Seal")
    if THOROUGH:
        r.model("MC_Seal", "MC_Seal2.cfg")


def C14(r):
    scn = os.path.join(r.tmp, "seal.scn")
    r.model("MC_SealLife", env={"SCENARIOS": scn}, workers="1")
    nd = r.drive("storage", "c14", env={"SCENARIOS": scn})
    seal_models(r)
    r.trace("T_C14", nd)


def C15(r):
    nd = r.drive("storage", "c15")
    seal_models(r)
    r.trace("T_C15", nd)


def C16(r):
    a = r.drive("storage", "c16")
    b = r.drive("pool", "c16p", env={"SCHEDULED": "1"}, optional=True)
    r.model("MC_Pool")
    r.model("MC_Pool", "MC_PoolLive.cfg")
    if THOROUGH:
        r.model("MC_Pool", "MC_Pool3.cfg")
    r.trace("T_C16", a)
    if b is None:
        r.note("the code does not build with the stand-in thread pool; explored with real threads only")
    else:
        r.trace("T_C16", b)


def C17(r):
    nd = r.drive("storage", "c17")
    seal_models(r)
    r.trace("T_C17", nd)


def C18(r):
    nd = r.drive("storage", "c18")
    r.model("MC_Merkle", "MC_Merkle6.cfg" if THOROUGH else None)
    r.trace("T_C18", nd)


def C19(r):
    scn = os.path.join(r.tmp, "pub.scn")
    r.model("MC_PubLife", env={"SCENARIOS": scn}, workers="1")
    nd = r.drive("storage", "c19", env={"SCENARIOS": scn})
    r.model("MC_PubData")
    r.model("MC_PubData", "MC_PubData2.cfg")
    r.trace("T_C19", nd)


def C20(r):
    nd = r.drive("storage", "c20")
    r.model("MC_Units")
    r.trace("T_C20", nd)


def C21(r):
    scn = os.path.join(r.tmp, "audit.scn")
    r.model("MC_Audit", env={"SCENARIOS": scn}, workers="1")
    nd = r.drive("storage", "c21", env={"SCENARIOS": scn})
    r.trace("T_C21", nd)


def C22(r):
    nd = r.drive("space", "c22")
    r.model("MC_Fresh")
    r.trace("T_C22", nd)


def C23(r):
    scn = os.path.join(r.tmp, "round.scn")
    r.model("MC_Round", env={"SCENARIOS": scn}, workers="1")
    nd = r.drive("storage", "c23", env={"SCENARIOS": scn})
    r.trace("T_C23", nd)


HOOKS = ["2bebc81"]
NA = {}
T = "TLA+ specification checked with TLC; recorded executions validated against it by TLC"
TC = "TLA+ specification: TLC explores every satisfying assignment of the constraint systems the code generates; recorded assignments validated by TLC"
ABOUT = {
    "C01": (T, "MC_Codec: all bit/byte strings to 16 bits; trace T_C01: recorded conversions"),
    "C02": (T, "MC_SpaceLife: every history of one space to four steps, replayed into the code; MC_PoSpace: all prepare/mark/crash schedules for n=2; trace T_Space: file images after prepare for n to 20"),
    "C03": (T, "MC_SpaceLife: every history of one space to four steps, replayed into the code; MC_PoSpace: bit-by-bit marking for every delay function n=2,3; trace T_Space: file images before/after"),
    "C04": (T, "MC_SpaceLife: every history of one space to four steps, replayed into the code; MC_PoSpace: truthfulness on every marked space; trace T_Space: recorded responses recomputed"),
    "C05": (T, "MC_MiMC: every run of the rounds and chains over F5, F7; trace T_C05: recorded evaluations over five tiny fields and Fr recomputed from the MiMC specification"),
    "C06": (TC, "R1CS: every assignment of both circuits over F5/F7/F11; trace T_Circ: honest runs and all located deviations over Fr"),
    "C07": (TC, "R1CS: every assignment for up to two chained inputs over small fields; trace T_Circ: honest runs and deviations over Fr"),
    "C08": (TC, "R1CS: every assignment of both circuits over small fields; trace T_Circ: honest runs and deviations over Fr"),
    "C09": (TC, "R1CS: every assignment with 1-2 responses over F7 (256 and 20 kept bits); trace T_Circ: honest runs and deviations over Fr with 1-50 responses"),
    "C10": (T, "MC_SpaceProto: every presentation of every proof in the ideal proof system; trace T_Proto: real Groth16 proofs, honest and tampered, judged by the statement"),
    "C11": (T, "MC_Challenges: every run of both drawing procedures, all outcomes reached; trace T_C11: recorded draws over many parameters, with coverage and freshness judged over the whole history"),
    "C12": (T, "MC_Sloth: every prime = 3 mod 4 below 60, every value, up to 4 rounds; trace T_C12: recorded evaluations recomputed with big integers"),
    "C13": (T, "MC_Depend: well-foundedness of the rules for all small arguments; trace T_C13: recorded selections recomputed"),
    "C14": (T, "MC_SealLife: every history of two files to five steps, replayed into the code; MC_Seal: sealing and unsealing unit by unit in every configuration of a small field; trace T_C14: histories of (stacked) sealings and unsealings of real files"),
    "C15": (T, "MC_Seal as for C14; trace T_C15: every sealed block and identifier recomputed from the specification with BLAKE3 and big integers"),
    "C16": (T, "MC_Pool: every request, every interleaving of the workers, with termination; trace T_C16: real thread pools of six sizes and a stand-in pool with permuted schedules"),
    "C17": (T, "MC_Seal: every altered unit changes the audited block; trace T_C17: audits of intact and altered files judged by unsealing in the specification, every byte of the comparison"),
    "C18": (T, "MC_Merkle: every tree to five leaves, every proved and presented set, leaf values and root, ideal hash; trace T_C18: recorded trees and verifications recomputed with SHA-256"),
    "C19": (T, "MC_PubLife: every history of two parameter files to four steps, replayed into the code; MC_PubData: all save/load histories over any old content; trace T_C19: recorded generation, histories and presets, with saved values and past vectors as state"),
    "C20": (T, "MC_Units: every string to six base-4 digits, every unit length, every modulus; trace T_C20: recorded calls recomputed, file contents carried as state"),
    "C21": (T, "MC_Audit: every history of sealing, alterations, repairs and audits to five steps, replayed into the code; trace T_C21: verdicts predicted from the history and from the bytes on disk"),
    "C22": (T, "MC_Fresh: sessions against a prover that keeps all proofs; trace T_C22: recorded draws of parameters, setups and proofs, with everything drawn before as state"),
    "C23": (T, "MC_Round: every history of sealings, alterations, repairs and challenge rounds over four blocks to four steps, replayed into the code; trace T_C23: verdicts predicted from the history and from the bytes on disk"),
}
