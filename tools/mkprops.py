"""Writes /verif/properties.jsonl (kept as a program so that the texts are easy to edit)."""
import json
import os

MC = "reliabilityassessment/monte_carlo/"
DP = "reliabilityassessment/data_processing/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))


prop("C01", "The event calendar is a time-ordered queue that never loses an event",
     "Events leave the simulation calendar in order of time, an event filed at a time that is already present leaves before the ones filed earlier at that time, and every event filed leaves exactly once with the time and kind it was filed with. "
     "The calendar starts with one event for the first step, the first week, the end of the year and each of the four season changes, and every event handled files exactly one successor of its own kind: one step, one week (restarting with each year), one season cycle or one year later.",
     ["schedules", "histories"], "every sequence of insertions and removals the simulator can make, for every calendar of a run",
     "The tests insert into and remove from one hand-made list once; order, conservation and slot reuse over thousands of interleaved insertions are never seen.",
     [MC + "filem.py", MC + "remove.py", MC + "initl.py", MC + "initfl.py", MC + "contrl.py", MC + "hour.py", MC + "week.py", MC + "quartr.py", MC + "year.py"],
     [("linked list insertion", MC + "filem.py:filem"), ("removal of the head", MC + "remove.py:remove"), ("successor events", MC + "week.py, quartr.py, hour.py, year.py")],
     [("EVNTS", "array of cells (next, time, kind, -)", MC + "initfl.py")], ["filem/remove calls"])

prop("C02", "Every hour of every simulated year is evaluated exactly once, in order",
     "A run evaluates each hour of each simulated year exactly once and in order, using that hour's own load; in the daily-peak mode it evaluates each day of the year exactly once, at the hour in which the load of the whole pool peaks on that day. "
     "A year is closed after its last hour and before the first hour of the next, so that a year's results contain all of its hours and no others.",
     ["schedules", "inputs"], "every year of every run, both step sizes",
     "No test runs the loop hour by hour against a calendar; the integration test compares one output file for a two-year run.",
     [MC + "hour.py", MC + "contrl.py", MC + "events.py", MC + "year.py", MC + "findld.py", DP + "plhr.py"],
     [("hour index from the clock", MC + "hour.py"), ("load lookup", MC + "findld.py"), ("year event filed before the hour of the same time", MC + "initl.py")],
     [("JHOUR", "index of the simulated hour", MC + "hour.py")], ["transmission and statistics calls of an hour event"])

prop("C03", "Each unit has the capacity of the current season",
     "In every simulated hour each generating unit is rated at its input capacity of the season that the hour lies in, where the first three seasons end with their input end weeks and the fourth ends with the year; in particular the year starts with the first season.",
     ["inputs", "histories"], "all season end weeks, all units, all hours of all years",
     "Season changes are only exercised with one set of end weeks and never compared with the calendar.",
     [MC + "quartr.py", MC + "initl.py", MC + "narpMain.py", DP + "datax.py", MC + "events.py"],
     [("season index advanced by the season event", MC + "quartr.py"), ("season hours from the end weeks", DP + "datax.py")],
     [("RATING", "rating of each unit in force", MC + "narpMain.py")], ["ratings passed to the generator draw"])

prop("C04", "Units are on planned outage in exactly their scheduled weeks",
     "In every simulated hour exactly those units are on planned outage whose predetermined outage (beginning week and duration, up to two per unit, clipped at the end of the year) contains the week of that hour; such units have no capacity in those hours and all other units are unaffected. "
     "A unit with automatic scheduling is either given outage weeks inside its area's outage window or reported as not scheduled.",
     ["inputs", "histories"], "all outage tables, all weeks of all years",
     "The table is compared for one system; overlapping outages, outages at the ends of the year and the hour-by-hour effect are not tested.",
     [DP + "smaint.py", DP + "pmsc.py", MC + "week.py", DP + "datax.py"],
     [("outage table", DP + "smaint.py"), ("outage status set each week", MC + "week.py"), ("automatic schedule", DP + "pmsc.py")],
     [("PLNDST", "1 in service, 0 on planned outage", MC + "week.py"), ("JPLOUT", "units on outage in each week", DP + "smaint.py")], ["status passed to the generator draw"])

prop("C05", "Generator states follow the input outage rates",
     "Each time generator states are drawn, every unit is independently at full capacity, derated or out, with the probabilities one minus both outage rates, the derated outage rate and the forced outage rate of the input, and delivers all, one minus the percent derating, or none of its current rating.",
     ["inputs", "histories"], "all outage rates including 0 and 1, all draws of long runs, all units",
     "One test draws once for a few units; frequencies, extremes of the rates and dependence between units cannot be seen in one draw.",
     [MC + "gstate.py", DP + "datax.py", MC + "seeder.py"],
     [("cumulative comparison with the unit's own random number", MC + "gstate.py"), ("probabilities from rates", DP + "datax.py")],
     [("IGSEED", "random state of each unit", MC + "seeder.py")], ["states and capacities returned by the draw"])

prop("C06", "Line states follow the input state probabilities",
     "Each time line states are drawn, every line is independently in one of its six states with that state's input probability, and from then on has exactly the admittance and the forward and backward capacities of that state.",
     ["inputs", "histories"], "all probability tables including 0 and 1, all draws, all lines",
     "The stable tests never call the seeded line draw; capacities per state are only seen through one LP case.",
     [MC + "lstate.py", MC + "transm.py", DP + "datax.py"],
     [("cumulative comparison with the line's own random number", MC + "lstate.py"), ("state columns selected", MC + "transm.py")],
     [("LNSTAT", "state 1..6 of each line", MC + "lstate.py")], ["states returned by the draw, line data given to the network solution"])

prop("C07", "States are drawn at the requested cadence and held in between",
     "With hourly draws, or in the daily-peak mode, states of units and lines and the contracts in force are renewed in every evaluated hour; with daily draws they are renewed in the first hour of each day and stay unchanged through the other hours of that day. "
     "Each draw advances the random number of every unit and line exactly once.",
     ["configurations", "histories"], "all combinations of step and draw frequency, all hours",
     "The daily draw mode is not run by any test.",
     [MC + "hour.py", MC + "gstate.py", MC + "lstate.py"],
     [("condition on the hour and the frequency", MC + "hour.py"), ("states kept between draws", MC + "hour.py:_LAST_DRAW")],
     [("_LAST_DRAW", "states in force", MC + "hour.py")], ["draw calls per hour event"])

prop("C08", "Capacity is neither created nor lost when assigned to areas",
     "In every hour the capacity available in an area is the sum of the available capacities of the units located there, each area owns its percentage of every jointly owned unit and all of the other units located in it, and the difference between located and owned capacity is the power the area owes the others. "
     "When shares add up to one hundred percent the amounts owed cancel over the pool.",
     ["inputs"], "all unit locations, ownership tables and availabilities",
     "One small matrix is tested; joint ownership is never read from input in a test.",
     [MC + "sumcap.py", DP + "datax.py", DP + "readInputB.py"],
     [("sums by location and by share", MC + "sumcap.py"), ("ownership matrix", DP + "datax.py")],
     [("CAPOWN", "share of each unit owned by each area", DP + "datax.py")], ["sums returned, capacities given to the network solution"])

prop("C09", "Area load is the scaled load shape times the forecast-error tier",
     "The load of an area in an hour is its input load shape scaled so that the annual maximum equals the input annual peak, times one plus 2.5, 1, 0, -1 or -2.5 forecast standard deviations for the five forecast tiers. "
     "The unit of the load shape (whole numbers of up to five digits or decimals) has no influence, and an area without load in its shape has none. "
     "If no area has forecast uncertainty there is a single tier whose load is the unmodified load for all areas.",
     ["inputs"], "all load shapes, peaks and uncertainties, all hours and tiers",
     "Scaling is tested for one file and the tiers only as an array.",
     [DP + "xldnew.py", DP + "datax.py", MC + "findld.py"],
     [("normalisation and scaling", DP + "xldnew.py"), ("tier factors", DP + "datax.py"), ("tier applied", MC + "findld.py")],
     [("HRLOAD", "hourly load by area", DP + "xldnew.py")], ["load table after data preparation; loads given to the network solution"])

prop("C10", "Daily, weekly and pool peaks are the true maxima",
     "With firm contracts counted, the daily peak of an area is the largest of the day's 24 hourly loads and occurs at the hour reported, its annual peak day is the day with the largest daily peak, its weekly peak is the largest daily peak of the week (the 52nd week includes the last day of the year), and the pool peak hour of a day is the hour in which the loads of all areas together are largest. "
     "The first hour or day wins a tie, and the hourly loads are afterwards as they were without contracts.",
     ["inputs"], "all load tables and contracts, including ties and negative net loads",
     "Random small samples are tested against similar code; ties, the last week and the restoring of the loads are not.",
     [DP + "dpeak.py", DP + "wpeakf.py", DP + "plhr.py", DP + "xporta.py", DP + "xports.py", DP + "input_processing.py"],
     [("maxima over reshaped arrays", DP + "dpeak.py, wpeakf.py, plhr.py"), ("contracts added and removed", DP + "xporta.py, xports.py")],
     [("MXPLHR", "pool peak hour of each day", DP + "plhr.py")], ["arrays returned by data preparation"])

prop("C11", "Firm contracts are in force on exactly their days",
     "On every day from the first to the last day of a firm contract, both included, the sending area delivers and the receiving area receives the contracted power, contracts between the same areas add up, and outside those days nothing is exchanged. "
     "Contracted deliveries always sum to zero over the pool.",
     ["inputs", "histories"], "all sets of contracts, directions and periods, all days",
     "Contracts are only tested as ready-made matrices; the input cards are empty in all tests.",
     [DP + "datax.py", DP + "pind.py", DP + "readInputB.py", MC + "findtn.py", MC + "hour.py", DP + "xporta.py"],
     [("contract table by day", DP + "datax.py"), ("net transfers of the day", MC + "findtn.py")],
     [("INTCH", "contracted MW by contract and day", DP + "datax.py")], ["net transfers used in each hour"])

prop("C12", "Loss of load is recorded exactly when load cannot be served",
     "In each hour forecast tiers are examined from the highest load down: a tier without any deficit, or whose deficits the network removes, records nothing and ends the hour, and every other tier records one loss with the deficits that remain after help from other areas. "
     "If all areas are deficient their own deficits are recorded, because nobody can help.",
     ["inputs", "histories"], "all combinations of capacities, loads, line states and tiers",
     "The hourly decision is never tested on its own; only the yearly totals of one system are compared.",
     [MC + "hour.py", MC + "transm.py", MC + "hrstat.py"],
     [("tier loop", MC + "hour.py")],
     [("MARGIN", "capacity minus load by area", MC + "hour.py")], ["statistics calls of every hour event"])

prop("C13", "A single deficient area is helped by its direct neighbours first",
     "If exactly one area is deficient, each directly connected area with a surplus can give at most its surplus and at most the capacity, towards the deficient area, of the connecting line in its current state; if the sum covers the deficit the hour has no loss of load, and otherwise the network solution decides.",
     ["inputs"], "all topologies, line directions, line states and surpluses",
     "The decision is inside the hourly step, which no test calls with chosen inputs.",
     [MC + "hour.py", DP + "datax.py"],
     [("neighbour loop", MC + "hour.py"), ("line number matrix", DP + "datax.py")],
     [("LINENO", "line connecting two areas", DP + "datax.py")], ["network and statistics calls of every hour event"])

prop("C14", "Network solutions are feasible flows",
     "Every solution of the network has line flows within the forward and backward capacities of the lines' current states, area exports and imports within the area's limit on the sum of flows, and flows that follow the linear power-flow law of the line admittances and balance with every area's net export. "
     "Capacity, load and curtailment of the areas balance with the net exports.",
     ["inputs"], "all networks, line states, injections and limits, both sharing policies",
     "A handful of recorded cases are compared; feasibility of other solutions is never checked.",
     [MC + "tm2.py", MC + "transm.py", MC + "conls.py", MC + "connls.py", MC + "linp.py", MC + "net.py", MC + "flo.py", MC + "theta.py", MC + "assign.py"],
     [("proportional assignment and DC flow", MC + "tm2.py"), ("linear program", MC + "conls.py, connls.py, linp.py")],
     [], ["flows, injections and curtailments returned by each network solution"])

prop("C15", "The network serves as much load as physically possible",
     "The load left unserved after a network solution is the least possible for the capacities, loads, contracts, line states and limits of that hour under the chosen sharing policy: no feasible redispatch leaves less.",
     ["inputs"], "all networks, line states, injections and limits, both sharing policies",
     "Optimality needs an independent solver; tests compare a few stored solutions.",
     [MC + "tm2.py", MC + "transm.py", MC + "conls.py", MC + "connls.py", MC + "linp.py"],
     [("linear program with load curtailment costs", MC + "conls.py, connls.py"), ("simplex", MC + "linp.py")],
     [], ["curtailments returned by each network solution"])

prop("C16", "Losses are shared only under the sharing policy",
     "Without loss sharing an area that can serve its own load and its contracts never loses load to help others, and an area never loses more than its own deficit. "
     "With loss sharing and no binding network limit every area loses the same fraction of its load, and no area loses more than its load.",
     ["inputs", "configurations"], "all hours with deficits under both policies",
     "The two policies are only compared with stored numbers for single cases.",
     [MC + "transm.py", MC + "tm2.py", MC + "assign.py", MC + "connls.py", MC + "conls.py"],
     [("policy switch", MC + "transm.py"), ("proportional curtailment", MC + "assign.py")],
     [], ["curtailments returned by each network solution"])

prop("C17", "An hour's network result does not depend on earlier hours",
     "The result of the network solution for given capacities, loads, contracts and line states is the same whatever hours, line states or forecast tiers were solved before; in particular the network data, area limits and the base network matrices are unchanged by solving an hour.",
     ["histories"], "all sequences of hours with varying line states, limits and tiers",
     "Every test solves one case from fresh arrays.",
     [MC + "transm.py", MC + "tm2.py", MC + "tm1.py", MC + "hour.py"],
     [("matrices restored after use", MC + "tm2.py"), ("limits restored after use", MC + "transm.py")],
     [("BB, ZB", "base admittance matrix and its inverse", MC + "transm.py"), ("BN", "area injections and limits", MC + "transm.py")], ["results and arrays after each solution"])

prop("C18", "Hourly statistics count each loss once, for the right areas and cause",
     "Each recorded hourly loss adds one pool loss hour of its tier, one loss hour and the whole megawatts of its deficit for every deficient area and no other, and the same megawatts to the pool; it is attributed to transmission if the pool as a whole has a surplus and to generation if the pool is short.",
     ["inputs", "histories"], "all margins of all areas, all tiers, all hours",
     "Tests call the routine with two or three margin vectors.",
     [MC + "hrstat.py", MC + "hour.py"],
     [("counting", MC + "hrstat.py")],
     [("LOL.., MGN..", "annual hourly counters", MC + "hrstat.py")], ["annual arrays at the end of each year"])

prop("C19", "Peak statistics count the losses at the daily pool peak",
     "A loss recorded in the hour in which the pool load peaks on that day also counts, once, as a peak loss of the same tier, areas, megawatts and cause, and losses in other hours never do.",
     ["inputs", "histories"], "all losses of all days",
     "Tests call the routine with two or three margin vectors; which hours reach it is untested.",
     [MC + "pkstat.py", MC + "hour.py", DP + "plhr.py"],
     [("counting", MC + "pkstat.py"), ("peak hour condition", MC + "hour.py")],
     [("LOL..P, MGN..P", "annual peak counters", MC + "pkstat.py")], ["annual arrays at the end of each year"])

prop("C20", "Years are rolled up without loss, mixing or carry-over",
     "At the end of each year every annual counter is added to its multi-year total, by area and pool, tier, cause (generation, transmission and their sum), hourly and peak; forecast-weighted totals use the weights .0668, .2417, .383, .2417, .0668 (one if there is a single tier), and squared annual values accumulate for the deviations. "
     "All annual counters are then zero.",
     ["histories", "inputs"], "all sequences of annual results, any number of areas and tiers",
     "One call with one set of arrays is tested.",
     [MC + "year.py"],
     [("cumulation and reset", MC + "year.py")],
     [("SOL.., SGN.., SWL.., SWN.., XNEWA, XNEWP", "multi-year totals", MC + "year.py")], ["arrays before and after each year end"])

prop("C21", "Each year is counted once in each probability distribution",
     "For every area each simulated year adds one observation to each of the three distributions, in the class of its number of loss hours, of peak-loss days, and of its unserved energy in steps of one twentieth of the input limit, the last class collecting all larger values; the unmodified-load tier is used. "
     "Reported probabilities are the observations divided by the number of years.",
     ["inputs", "histories"], "all annual results, limits and numbers of years",
     "The tests fill the distributions once.",
     [MC + "year.py", MC + "report.py", MC + "narpMain.py"],
     [("class index", MC + "year.py"), ("class width", MC + "narpMain.py"), ("probabilities", MC + "report.py")],
     [("HLOLE, DPLOLE, EUES", "observations by area and class", MC + "year.py")], ["arrays after each year, distribution tables of the report"])

prop("C22", "The run stops when the chosen index has converged, and not before",
     "A run ends with the first year, not earlier than the fifth, in which the standard error of the mean of the chosen statistic (area or pool, hourly or peak, loss hours or energy, weighted or unmodified-load tier) is below the chosen fraction (0.025 if none is chosen) of a nonzero mean, and otherwise exactly with the last permitted year. "
     "The final report is written exactly once.",
     ["histories", "configurations"], "all sequences of annual values and all selections of the statistic",
     "One call per year count is tested; the loop's end and the choice of the statistic are not.",
     [MC + "cvchk.py", MC + "year.py", MC + "contrl.py", MC + "events.py", DP + "datax.py"],
     [("test of the standard error", MC + "cvchk.py"), ("choice of the statistic", MC + "year.py"), ("end of the loop", MC + "contrl.py")],
     [("SSQ, XLAST, RFLAG", "sum of squares, last sum, stop flag", MC + "cvchk.py")], ["years simulated, reports written"])

prop("C23", "The final report states the averages of the simulated years",
     "Every number of the final tables is the corresponding multi-year total divided by the number of simulated years (megawatts per loss: energy over losses), for every area, tier, cause and the pool, hourly and peak, and the relative standard deviations follow from the annual values. "
     "The daily-peak mode reports the same peak numbers.",
     ["inputs", "histories"], "all totals, numbers of years, areas and tiers",
     "One file is compared for one system.",
     [MC + "report.py", MC + "year.py"],
     [("tables", MC + "report.py")],
     [("SUSTAT", "summary statistics by area", MC + "report.py")], ["final tables in the output file"])

prop("C24", "The table of each replication states that year's results",
     "If tables per replication are requested, each simulated year adds one table with that year's loss counts, energies and megawatts per loss for every area, tier and cause and for the pool, in hourly and in daily-peak mode, including the forecast-weighted averages; if not requested there is none. "
     "The tables have no effect on the final results.",
     ["inputs", "configurations"], "all annual results with and without the option",
     "The option is off in all tests but one that does not read the table.",
     [MC + "year.py"],
     [("annual table", MC + "year.py")], [], ["annual tables in the output file"])

prop("C25", "A run resumed from a snapshot ends like the uninterrupted run",
     "Snapshots are written after every requested number of years and after the last permitted year, and a run continued from any of them yields the same remaining years, totals, distributions, convergence decision and final report as the run that was never interrupted.",
     ["crash_points", "histories"], "every snapshot of every run",
     "No test writes and reads a snapshot; none resumes.",
     [MC + "intm.py", MC + "rstart.py", MC + "year.py", MC + "contrl.py"],
     [("snapshot", MC + "intm.py"), ("restore", MC + "rstart.py")],
     [("DUMP.pkl", "snapshot file", MC + "intm.py")], ["final report and totals of both runs"])

prop("C26", "Runs are reproducible",
     "Two runs of the same input give identical results and identical reports, whether they run in the same process one after the other, in different processes, with another run in between, at the same time as other runs in other directories, from another directory, or where earlier runs have left their files; the input files are never changed.",
     ["histories", "configurations"], "all inputs, all orders of runs in a process",
     "Tests run the program once.",
     [MC + "narpMain.py", MC + "seeder.py", MC + "hour.py"],
     [("fixed seeds", MC + "seeder.py"), ("fresh state per run", MC + "narpMain.py")],
     [("_LAST_DRAW", "module level state", MC + "hour.py")], ["reports and draws of repeated runs"])

prop("C27", "Every valid input is simulated to the end with finite results",
     "For every valid input, including one area, areas without units or without load, no lines failing, optional data absent, extreme outage rates and every combination of the options, the run finishes with its final report after a number of events bounded by the permitted years, without an error, and all reported numbers are finite.",
     ["inputs", "configurations"], "all valid input sets and option combinations",
     "One input directory is run.",
     [MC + "narpMain.py", MC + "contrl.py", DP + "readInputB.py", MC + "report.py", MC + "linp.py"],
     [("whole program", MC + "narpMain.py")], [], ["completion, output file"])

prop("C28", "Input cards are taken over for the right area, unit and line",
     "Every quantity of the input cards is used for the area, unit, line or contract that its row names, whatever the order of the rows, the spelling of the names, the line numbers or the direction in which a line is entered, and equal systems entered in different row order of lines, contracts or ownership give the same loads, capacities and network. "
     "Zero line admittances and capacities stand for the documented small defaults. A line derating card reduces the capacities of its line in the hours in which all of its units are out.",
     ["inputs"], "all permutations of rows, names and line numbers",
     "Tests read one directory whose rows are in order.",
     [DP + "readInputB.py", DP + "pind.py", DP + "datax.py", DP + "dataf1.py", DP + "xldnew.py"],
     [("name mapping", DP + "pind.py"), ("arrays by index", DP + "datax.py")], [], ["arrays returned by data preparation"])

prop("C29", "The linear programming engine returns an optimal basic solution",
     "For every feasible bounded program posed to it in its own form, the engine ends with a feasible solution of least cost, the same whatever other programs were solved before.",
     ["programs", "histories"], "all programs the network solution can pose, including degenerate ones",
     "Tests solve one stored program.",
     [MC + "linp.py", MC + "rm.py", MC + "rc.py", MC + "mc.py", MC + "net.py", MC + "conls.py", MC + "connls.py"],
     [("two-phase revised simplex", MC + "linp.py")], [], ["solution vector of each program"])

prop("C30", "The capacity outage table is the exact convolution of the units",
     "The capacity outage probability table of a set of units (of at least 10 MW), with capacities rounded to 10 MW, gives for every outage level the probability that at least that much capacity is out, as if all combinations of unit states were enumerated, up to the cut-off probability.",
     ["inputs"], "all sets of two- and three-state units",
     "One set of units is compared.",
     [DP + "gsm.py", DP + "pmlolp.py"],
     [("unit addition", DP + "gsm.py"), ("rounding and order", DP + "pmlolp.py")], [], ["table returned"])

prop("C31", "Installed capacity and reserve of the summary are right",
     "The summary states for each area its input annual peak, its installed capacity (owned shares at the ratings of the season of its peak day, less contracted deliveries and plus contracted receipts of that day) and the percent reserve of one over the other, and for the pool their sums and the percent reserve of the sums.",
     ["inputs"], "all ownerships, contracts, peak days and season ends",
     "One case without contracts and with one season is tested.",
     [DP + "resca.py", DP + "input_processing.py", MC + "report.py"],
     [("installed capacity", DP + "resca.py"), ("reserve", MC + "report.py")],
     [("SUSTAT", "summary statistics by area", DP + "resca.py")], ["summary table and data preparation"])

prop("C32", "Network matrices stay consistent with the line data",
     "The base admittance matrix equals the one built directly from the lines in their first state with the reference area removed, its stored inverse is its inverse, and after lines change state both equal the ones built from scratch with the new admittances; angles and flows do not depend on which area is the reference.",
     ["inputs", "histories"], "all connected networks, reference areas and line states",
     "Each small matrix routine is tested on one example.",
     [MC + "admitb.py", MC + "admitr.py", MC + "admitm.py", MC + "admref.py", MC + "ximpa.py", MC + "ximpar.py", MC + "tm1.py", MC + "tm2.py", MC + "theta.py", MC + "thetac.py", MC + "flo.py"],
     [("matrix construction", MC + "admitb.py, admitr.py"), ("rank one updates", MC + "admitm.py, admref.py, ximpa.py, ximpar.py")],
     [("BB, ZB, LT", "reduced matrix, inverse, area of each row", MC + "tm1.py")], ["matrices and flows returned"])

prop("C33", "Dense linear algebra helpers factor, invert and detect singularity",
     "For every square matrix the factorisation with its row exchanges reproduces the matrix, with multipliers of at most one, and the inverse derived from it is that of the matrix. "
     "A singular matrix is announced by the place of a zero pivot (other than the first, which the interface cannot tell from success).",
     ["inputs"], "all matrices, including badly scaled, permuted and singular ones",
     "Each helper is tested on one or two matrices.",
     [MC + "dgefa.py", MC + "dgeco.py", MC + "dgedi.py"],
     [("LU factors", MC + "dgefa.py"), ("factorisation driver", MC + "dgeco.py"), ("inverse", MC + "dgedi.py")], [], ["returned arrays"])

prop("C34", "Printing options never change the results",
     "Runs that differ only in whether transmission results, replication tables, input data or outage schedules are printed, or in how often snapshots are written, give identical simulations and final results, and a printed transmission result lists exactly the units on outage or derated in that hour, and the line flows found for it.",
     ["configurations"], "all combinations of the printing options on the same input",
     "Tests use one combination.",
     [MC + "tm2.py", MC + "year.py", MC + "report.py", DP + "pmsc.py"],
     [("printing branches", MC + "tm2.py, year.py, pmsc.py")], [], ["final reports, transmission print file"])

prop("C35", "Every unit and line has its own reproducible random stream",
     "At the start every unit and every line has its own positive random state that depends only on the seed of the input and its position. Every draw multiplies a state by 65539 modulo 2^31 (the sequence of the original program), and the streams are uniform over the unit interval, do not repeat within a run and are uncorrelated between units, between lines and between consecutive draws.",
     ["histories", "inputs"], "all numbers of units and lines, long runs of draws",
     "No test calls the seeding; stream quality needs long histories.",
     [MC + "seeder.py", MC + "gstate.py", MC + "lstate.py"],
     [("seeding", MC + "seeder.py"), ("generator", MC + "gstate.py, lstate.py")],
     [("IGSEED, ILSEED", "random state of each unit and line", MC + "seeder.py")], ["random states after each draw"])

prop("C36", "An interruption leaves the last complete snapshot usable",
     "At whatever moment the process ends, or an operation on files fails or the disk is full, while a snapshot is written or at any other point of the simulation, the snapshot file afterwards holds a complete snapshot: the new one or the previous one (or there is none, if it was the first); it can be loaded, and the simulation can be resumed or started again in that directory whatever else was left there.",
     ["crash_points", "fault_sequences"], "every statement, file operation and file size while a snapshot is written; every event of a run",
     "No test interrupts anything.",
     [MC + "intm.py", MC + "rstart.py", MC + "year.py"],
     [("snapshot", MC + "intm.py")],
     [("DUMP.pkl", "snapshot file", MC + "intm.py")], ["content of the directory after the interruption"])

prop("C37", "The simulated indices estimate the exact expectation",
     "Over many simulated years the loss of load expectation and the expected unserved energy of areas and pool, hourly and at the daily peak, by cause, converge to their exact values, which follow from the outage and derating probabilities of the units, the probabilities of the line states, the hourly loads with their forecast uncertainty, the seasonal ratings, the planned outages and the limits of lines and areas: no part of the simulation (draws, events, seasons, weeks, networks, counting) introduces a bias.",
     ["histories", "inputs"], "all systems; long sequences of draws and events",
     "Tests compare single calls with stored results; no expectation is known to them.",
     [MC + "hour.py", MC + "gstate.py", MC + "lstate.py", MC + "week.py", MC + "quartr.py", MC + "transm.py", MC + "hrstat.py", MC + "pkstat.py", MC + "year.py"],
     [("draws", MC + "gstate.py, lstate.py"), ("decision", MC + "hour.py"), ("counting", MC + "hrstat.py, pkstat.py, year.py")], [],
     ["accumulated indices after the last year"])

prop("C38", "The progress lines report the run's true statistic and convergence",
     "While it runs the program reports, once for every year from the fifth on, the number of the year, the sum so far, the value of the year and the mean of the statistic chosen for the convergence test (area or pool, hourly or peak, LOLE or EUE, weighted over the forecast tiers or not), and as CONVERGENCE the ratio of its standard error to the limit. The notice of convergence appears exactly when that ratio is below one, with the clock, the standard error and the limit, and no progress line follows it.",
     ["inputs", "histories"], "all sequences of yearly losses, all choices of the statistic",
     "Tests call the convergence test with a few values and do not look at the screen.",
     [MC + "cvchk.py", MC + "year.py"],
     [("progress lines", MC + "cvchk.py"), ("choice of the statistic", MC + "year.py")], [], ["lines on the screen"])

prop("C39", "The samplers for the states of many lines follow the given probabilities",
     "Each of the three samplers the library offers for the states of many lines at once (lstate, lstate_original and discrete_prob_gen of line_prob_sampling) gives every line one of the six states, with the frequencies of the cumulative probabilities it was given (those of its own line in lstate, the common ones in the others), never a state of probability zero, independently for every line and draw; the same seed gives the same states, without a seed each draw is a new one; the arguments are left unchanged, and arguments that are no array, no positive whole number of lines or do not add up to one are refused with the documented errors.",
     ["inputs", "histories"], "all numbers of lines, probabilities and seeds",
     "Tests compare one draw of one seed.",
     [MC + "line_prob_sampling.py"],
     [("samplers", MC + "line_prob_sampling.py")], [], ["returned states"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
