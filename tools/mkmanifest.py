"""Writes /verif/MANIFEST.json (kept as a program so that the texts are easy to edit)."""
import json
import os

RUN = "runtime monitoring: whole simulations followed event by event by an online reference checker"
DRV = "runtime monitoring of the real routine under generated call sequences, judged by an independent oracle"
DIF = "runtime monitoring: recorded executions of related runs compared offline"
BASE = ("Says that no divergence was seen in the executions listed in the evidence; executions are chosen at random (reproducibly, "
        "by VERIF_SEED) among valid systems that the generator makes. Trusts the reference model in lib/shadow.py. ")
T = {
    "C01": (RUN + "; queue operations against a list model", "The queue is driven through random sequences of filing and removal and compared with an ordered list after every operation; in whole runs every removal and filing is matched (order, conservation, one successor of each kind)."),
    "C02": (RUN, "Hours, loads and year ends of whole runs (hourly and daily) are matched with a calendar computed from the input."),
    "C03": (RUN, "The ratings handed to every draw are compared with the input capacities of the season of that hour."),
    "C04": (RUN, "The outage table and the status handed to every draw are compared with the scheduled weeks. One known finding (automatic scheduling) is listed in known_findings.txt."),
    "C05": (RUN + "; statistics of long draws", "Every draw is recomputed from the observed random state; frequencies and correlations of long histories are tested at 6.5 sigma (deterministic streams, so the verdict repeats)."),
    "C06": (RUN + "; statistics of long draws", "As C05 for lines; in addition the admittances and capacities used by every network solution are those of the states drawn."),
    "C07": (RUN, "Random states before and after each hour show when something was drawn; states, line states and contracts used between draws are compared with those drawn last."),
    "C08": (RUN + "; direct calls with random owners", "Capacity of every area is recomputed unit by unit at every draw."),
    "C09": (RUN, "Loads of all hours, areas and tiers are recomputed from the shape and the annual peak, in the prepared data, in the network arguments and in recorded margins."),
    "C10": (DRV, "Daily, weekly and annual peaks are recomputed hour by hour, with contracts, ties and peaks at the ends of the year."),
    "C11": (RUN, "Deliveries in force each day are recomputed from the cards and compared with the prepared table and with those used at every draw and network solution."),
    "C12": (RUN, "Margins of every hour and tier are recomputed; what is recorded as a loss must be exactly what remains after help. Hours whose verdict depends on rounding are counted and left out (none so far)."),
    "C13": (RUN, "The one-area shortcut is recomputed from the capacities of the lines towards the area, in both outcomes."),
    "C14": (DRV + " (linear power flow)", "Margins returned fix the net exports; the flows these imply are computed independently and held against all limits, balance and the flows reported. Tolerance 1e-5 of the largest load."),
    "C15": (DRV + " (linear program solved by HiGHS)", "The total loss is compared with the optimum of an independently posed linear program, solved by HiGHS in another interpreter. Tolerance 1e-5 of the largest load."),
    "C16": (DRV, "Without sharing each loss is held against the own deficit; with sharing the losses must be proportional to the loads where the limits allow that."),
    "C17": (DRV + "; replay of each solution in a fresh state", "Each solution inside a history is compared with the one of a driver without history; tables and matrices with those before."),
    "C18": (RUN + "; random loss sequences against a tally", "Annual counters are compared with an independent tally after every recorded loss (direct) and every year (runs). Losses with a pool margin of exactly zero are not attributed (unspecified)."),
    "C19": (RUN + "; random loss sequences against a tally", "As C18 for the peak hour of each day, decided from the input loads; days whose pool peak is decided by rounding are left out."),
    "C20": (RUN + " with injected annual counters", "Random counters are put in place just before the year is closed, so that all counters and combinations occur; totals are compared with an independent bookkeeping. Real losses are used as well."),
    "C21": (RUN + " with injected annual counters", "Distributions after each year and as printed are compared with an independent count."),
    "C22": (RUN + " with injected annual counters", "The year a run ends with is compared with the stopping rule evaluated on the chosen statistic; values within 1e-9 (relative) of the threshold are left out."),
    "C23": (DIF + " (final tables against the recorded years)", "Every number of the final tables is recomputed from the recorded years and compared within its printed precision."),
    "C24": (DIF + " (annual tables against the recorded years)", "Every number of every annual table is recomputed; each run is repeated without the option."),
    "C25": (DIF + " after resuming from every snapshot", "Every snapshot is taken over by a new process (the program has a reader of snapshots but no driver for it; the harness puts the values read in place before the control loop) and continued; everything after it is compared."),
    "C26": (DIF, "The same input is run alone, repeatedly, after other runs, in other processes with other hash seeds and from other directories."),
    "C27": (RUN + " under extreme and hostile inputs; crash, hang and finiteness monitors", "A hang is 75 s of cpu time without any observed call or more events than the permitted years have."),
    "C28": (DIF + " (permuted cards) and reference model of the prepared data", "Cards are shuffled, renamed and renumbered; the arrays prepared and simulated runs are compared with the reference and with the ordered cards."),
    "C29": (DRV + " (linear program solved by HiGHS)", "The programs that network solutions pose are recorded from outside and solved again; made up ones, many degenerate, are added; feasibility, cost and independence from earlier programs are judged."),
    "C30": (DRV + " (direct convolution and enumeration)", "Tables are compared level by level within the cut-off 1e-8 per unit."),
    "C31": (RUN, "Peak, installed capacity and reserve are recomputed from the cards and compared with prepared data and the printed summary."),
    "C32": (DRV + " (matrices built from scratch)", "Matrices are rebuilt from the line data after every update and inside network solutions; solutions are repeated with every area as reference."),
    "C33": (DRV + " (factors multiplied back)", "Residuals are judged relative to size and condition; the first-pivot ambiguity of the interface is left out."),
    "C34": (DIF, "The same system is run with different printing options and snapshot intervals; each printed transmission result is read and compared with the states and flows of its hour."),
    "C35": (DRV + " (stream statistics)", "Streams are followed draw by draw; repeats, range, uniformity and correlations are tested at 6.5 sigma or more."),
    "C36": ("fault injection at the writing of snapshots, state of the directory judged afterwards", "A copy of the run's directory is given to a child that writes the snapshot and is killed at a statement, file operation or file size, or has the operation fail; the undisturbed snapshots are the oracle. Loss of power (data not yet on the disk) is not simulated."),
    "C37": (RUN + "; totals against the exact expectation by enumeration", "All states of units and lines of small systems are enumerated (one area, two areas with one line, more areas with unlimited lines); 6.5 standard deviations; with sharing and in more than two areas the rounding of losses to whole megawatts leaves bounds instead of a value, and only the pool is judged."),
    "C38": (RUN + "; screen against an independent bookkeeping of the years", "Losses of each year are made up as for C22; the screen is captured and read line by line."),
    "C39": (DRV + " (frequencies over many draws)", "Frequencies and correlations are tested at 6.5 sigma; impossible states, range, repetition and refusals exactly."),
}

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    assert props == list(T), set(props) ^ set(T)
    m = dict(version=1, setup_cmd="./check.sh selftest",
             checks=[dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                          technique=T[p][0], level="exploration", level_note=BASE + T[p][1]) for p in props],
             not_applicable=[],
             notes="No hooks in /repo: the monitors wrap the functions of the program from outside when it is loaded. "
                   "A check exits 2 when it could not observe enough to decide.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(props))
