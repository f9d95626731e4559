"""The exhaustive models checked for each property."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import tlc, ToolError, SPEC

SMALL = """  MB = 2
  SB = 3
  SSTEP = 2
  MaxChannels = 2
  MinRate = 1
  MaxRate = 2
  MinWinM = 2
  MinWinS = 3
  MinHistM = 1
  MinHistS = 2
  NoHistLimit = 1000
  NZero = 0
  AbsGate = 2
  NBins = 3
  Hop <- iHop
  MsFrames <- iMsFrames
  MsLt <- iMsLt
  CapHops <- iCapHops
  HistBlocks <- iHistBlocks
  HistStBlocks <- iHistStBlocks
  MayAlloc <- iMayAlloc
  NAdd <- iAdd
  NMulInt <- iMul
  NDivInt <- iDiv
  NLt <- iLt
  NIsNaN <- iIsNaN
  NNear <- iNear
  NWeight <- iWeight
  RelGate <- iRelGate
  RangeGate <- iRangeGate
  SortByEnergy <- iSort
  BinOf <- iBinOf
  BinCentre <- iBinCentre
  Unsure <- iUnsure
  SigEnergy <- iFilteredEnergy
  SigPeak <- iSamplePeakOf
  Oversampled <- iOversampled
  SigTruePeak <- iTruePeakOf
  Joins <- MCJoins
"""


def small(alphabet, calls, frames, invs, ch=1, rate=1, mode=63):
    text = ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + SMALL +
            f"  Calls <- {alphabet}\n  MaxCalls = {calls}\n  MaxFrames = {frames}\n  StartCh = {ch}\n  StartRate = {rate}\n"
            f"  StartMode = {mode}\nINVARIANTS {' '.join(invs.split())}\n")
    return ("MC", text, f"MC {alphabet} calls<={calls} frames<={frames} ch={ch} rate={rate} mode={mode}: {invs}")


def pair(calls, modes):
    text = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + SMALL +
            f"  MaxCalls = {calls}\n  Modes = {{{modes}}}\nINVARIANTS Independent AskedAgain OrderFree\n")
    return ("Pair", text, f"Pair calls<={calls} modes {modes}")


def plain(module, invs, consts=""):
    text = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + (f"CONSTANTS\n{consts}" if consts else "") + f"INVARIANTS {invs}\n"
    return (module, text, f"{module} {invs}")


def impl(alphabet, calls, ch=1, rate=1, mode=63):
    consts = SMALL.replace("MaxRate = 2", "MaxRate = 4")
    for x in ("Hop", "MsFrames", "CapHops", "MayAlloc", "Oversampled"):
        consts = consts.replace(f"  {x} <- i{x}\n", f"  {x} <- j{x}\n")
    invs = "CodesAgree SameSettings SameWindows SameBlocks SamePeaks SameCounters InBounds LoopKept"
    text = ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + consts +
            f"  Calls <- {alphabet}\n  MaxCalls = {calls}\n  StartCh = {ch}\n  StartRate = {rate}\n  StartMode = {mode}\nINVARIANTS {invs}\n")
    return ("Impl", text, f"Impl (ring buffer, counters, queues, wrapper) {alphabet} calls<={calls} ch={ch} rate={rate} mode={mode}: {invs}")


def bins(blocks, factor, rfactor):
    consts = SMALL.replace("NBins = 3", "NBins = 5")
    for a, b in (("BinOf <- iBinOf", "BinOf <- bBinOf"), ("BinCentre <- iBinCentre", "BinCentre <- bCentre"),
                 ("RelGate <- iRelGate", "RelGate <- bRelGate"), ("RangeGate <- iRangeGate", "RangeGate <- bRangeGate")):
        consts = consts.replace(a, b)
    text = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + consts + "  Bounds <- B5\n  Centres <- C5\n  Energies <- E5\n"
            f"  MaxBlocks = {blocks}\n  Factor = {factor}\n  RangeFactor = {rfactor}\n"
            "INVARIANTS SearchOK HistogramRangeOK QueueRangeOK GatedOK QuantisedOK\n")
    return ("Bins", text, f"Bins (search, prefix sums, gated bins, percentiles) blocks<={blocks} gates 1/{factor} 1/{rfactor}")


def chunks(levels, hops, rate, mode):
    text = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + SMALL +
            f"  Levels = {{{levels}}}\n  MaxHops = {hops}\n  Rate = {rate}\n  Mode = {mode}\n  Shown = FALSE\nINVARIANTS OnePass SameLoudness\n")
    return ("Chunks", text, f"Chunks levels {levels} hops<={hops} rate={rate} mode={mode}: OnePass SameLoudness")


def mirror(levels, calls, rate, mode):
    consts = SMALL
    for a, b in (("SigEnergy <- iFilteredEnergy", "SigEnergy <- mEnergy"), ("SigPeak <- iSamplePeakOf", "SigPeak <- mPeak"),
                 ("SigTruePeak <- iTruePeakOf", "SigTruePeak <- mTruePeak")):
        assert a in consts
        consts = consts.replace(a, b)
    text = ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + consts +
            f"  Levels = {{{levels}}}\n  MaxCalls = {calls}\n  Rate = {rate}\n  Mode = {mode}\nINVARIANTS Mirrored Isolated Silent\n")
    return ("Mirror", text, f"Mirror levels {levels} calls<={calls} rate={rate} mode={mode}: Mirrored Isolated Silent")


KW = plain("Kweight", "Published Sine997 Shape Stable UnitGain Symmetric Factors")
NUM = ("NumTest", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", "NumTest (fast arithmetic against its definitions)")


def models(pid, t):
    """t: 0 quick, 1 thorough"""
    S, H = "CallsStream", "CallsHistory"
    base = {
        "C01": [small(S, 4 + t, 9, "LawSplit LawEmpty CountersOK"), small(S, 4 + t, 9, "LawSplit LawEmpty", mode=127, rate=2),
                small("CallsWindow", 4 + t, 9, "LawSplit LawEmpty CountersOK")],
        "C02": [plain("Formats", "SameEverywhere")],
        "C03": [small("CallsWindow", 5 + t, 11, "WindowsOK FitsOK CountersOK"), small("CallsWindow", 5 + t, 11, "WindowsOK FitsOK", mode=1, rate=2),
                small("CallsChange", 3 + t, 9, "WindowsOK FitsOK CountersOK", ch=2)],
        "C04": [small("CallsRoles", 3 + t, 7, "WindowsOK SettingsOK PeaksOK LawRoles", ch=2), small("CallsRoles", 3 + t, 7, "WindowsOK BlocksOK SettingsOK LawRoles")],
        "C05": [small("CallsHistory", 5 + t, 11, "BlocksOK GatingOK CountersOK", mode=5), small("CallsChange", 3 + t, 9, "BlocksOK GatingOK", ch=2),
                small("CallsWindow", 4 + t, 9, "BlocksOK GatingOK", mode=7)],
        "C06": [small(H, 5 + t, 12, "StBlocksOK PercentileOK RangeOK", mode=11), small("CallsWindow", 4 + t, 11, "StBlocksOK PercentileOK"),
                small("CallsChange", 3 + t, 9, "StBlocksOK PercentileOK", ch=2)],
        "C07": [small(H, 5 + t, 11, "BlocksOK StBlocksOK GatingOK PercentileOK LawHistory LawTogetherBins", mode=127),
                small("CallsNaN", 4 + t, 8, "BlocksOK StBlocksOK GatingOK PercentileOK", mode=79)],
        "C08": [small("CallsSeed", 4 + t, 8, "PeaksOK", ch=2, mode=17), small("CallsChange", 3 + t, 9, "PeaksOK", ch=2), small("CallsNaN", 4 + t, 8, "PeaksOK", ch=2, mode=17)],
        "C09": [small("CallsSeed", 4 + t, 8, "PeaksOK", ch=2, mode=49), small("CallsChange", 3 + t, 9, "PeaksOK", ch=1, mode=49), small("CallsRoles", 3 + t, 7, "PeaksOK", ch=2, mode=49), KW],
        "C10": [small("CallsAll", 3 + t, 7, "LawReset"), small("CallsAll", 3, 7, "LawReset", ch=2, mode=127), small("CallsNaN", 4 + t, 8, "LawReset BlocksOK PeaksOK")],
        "C11": [small("CallsChange", 3 + t, 9, "LawChange LawSame SettingsOK BlocksOK StBlocksOK WindowsOK PeaksOK", ch=1),
                small("CallsChange", 3 + t, 9, "LawChange LawSame SettingsOK PeaksOK", ch=2, mode=127)],
        "C12": [small("CallsWindow", 4 + t, 9, "LawWindow LawSame SettingsOK WindowsOK FitsOK BlocksOK"), small("CallsWindow", 4 + t, 9, "LawWindow LawSame FitsOK", mode=5, rate=2)],
        "C13": [small(H, 5 + t, 11, "BlocksOK StBlocksOK BoundedOK LawHistory LawSame", mode=15), small(H, 5 + t, 11, "BlocksOK BoundedOK LawHistory", mode=5)],
        "C14": [pair(3 + t, "15, 79"), small(H, 4 + t, 9, "LawTogether", mode=15), small(H, 4 + t, 9, "LawTogetherBins", mode=79)],
        "C15": [small("CallsSeed", 4 + t, 8, "LawSeed WindowsOK BlocksOK PeaksOK"), small("CallsSeed", 3 + t, 8, "LawSeed WindowsOK PeaksOK", ch=2, mode=127)],
        "C16": [small("CallsAll", 3 + t, 7, "LawRefuse SettingsOK CountersOK FitsOK", ch=2), small("CallsAll", 3, 7, "LawRefuse FitsOK", mode=65)],
        "C17": [small("CallsAll", 3 + t, 7, "LawSame LawRefuse SettingsOK"), small("CallsAll", 3, 7, "LawSame LawRefuse", ch=2, mode=127)],
        "C18": [pair(3 + t, "15, 63"), pair(3, "127")],
        "C19": [plain("Fpu", "EnvKept Guarded", f"  Threads = {{1, 2}}\n  MaxParts = {2 + t}\n")],
        "C20": [small("CallsNaN", 4 + t, 8, "WindowsOK BlocksOK StBlocksOK PeaksOK LawContained LawReset"), small("CallsNaN", 3 + t, 8, "WindowsOK BlocksOK PeaksOK LawContained", ch=2, mode=127)],
        "C21": [KW, NUM],
        "C22": [chunks("1, 5, 9", 6 + t, 1, 5), chunks("1, 9", 5 + t, 2, 5), chunks("1, 5, 9", 6, 1, 69)],
        "C23": [mirror("2, 9", 3 + t, 1, 63), mirror("0, 9", 3, 2, 63), mirror("1, 9", 3, 1, 127)],
    }[pid]
    stream, change, roles, nan = impl("ImplStream", 4 + t), impl("ImplChange", 3 + t), impl("ImplRoles", 3 + t, 2), impl("ImplNaN", 4 + t)
    below = {"C01": [stream], "C03": [stream, change], "C04": [roles], "C05": [stream, bins(5, 2, 4)], "C06": [change, bins(7, 3, 8)],
             "C07": [impl("ImplStream", 4, mode=127), bins(5 + t, 2, 4), bins(7 + t, 3, 8)], "C08": [roles], "C09": [roles], "C10": [change, nan],
             "C11": [change], "C12": [change], "C13": [impl("ImplStream", 4 + t, mode=15)], "C15": [nan], "C16": [change], "C17": [change], "C20": [nan]}
    return base + below.get(pid, [])


def run_models(pid, tier, work, timeout, workers=4, at_once=2, mem="6g"):
    """Returns [(label, states, transitions)]; anything but a complete run without errors is an error of the specification."""
    def one(a):
        k, (module, text, label) = a
        cfg = os.path.join(work, f"model{k}.cfg")
        open(cfg, "w").write(text)
        meta = os.path.join(work, f"model{k}")
        rc, out = tlc(module, cfg, meta, timeout=timeout, workers=workers, mem=mem)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise ToolError(f"model {label}: rc={rc}\n" + out[-3000:])
        n = [int(x.replace(",", "")) for x in m.groups()]
        return (label, n[1], n[0])
    with ThreadPoolExecutor(at_once) as ex:
        return list(ex.map(one, enumerate(models(pid, 0 if tier == "quick" else 1))))


PROVED = {"C01", "C03", "C05", "C06"}


def proofs(pid, tier, work):
    """Hops for all rates, windows and sizes of calls: tlapm on HopsProof (thorough runs)."""
    if pid not in PROVED or tier == "quick":
        return []
    d = os.path.join(work, "proof")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("Hops.tla", "HopsProof.tla"):
        shutil.copy(os.path.join(SPEC, f), d)
    r = subprocess.run(["tlapm", "--threads", "4", "--cleanfp", "HopsProof.tla"], cwd=d, capture_output=True, text=True, timeout=3600)
    out = r.stdout + r.stderr
    m = re.search(r"All (\d+) obligations proved", out)
    if r.returncode or not m:
        raise ToolError("tlapm: " + out[-3000:])
    shutil.rmtree(d, ignore_errors=True)
    return [dict(theorems="HopsProof: Holds InBuffer Counts Index", obligations=int(m.group(1)))]
