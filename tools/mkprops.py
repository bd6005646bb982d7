#!/usr/bin/env python3
# One-off helper that writes properties.jsonl (kept so the file can be regenerated and reviewed as a table).
import json, sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Multithreaded stepping equals sequential stepping",
  "For every thread schedule and every number of available cores, advancing a pack whose modules have multithreading enabled yields exactly the same states, voltages, currents and stored data points as advancing the same pack with multithreading disabled. Every child of every module is advanced exactly once per requested step, for exactly the requested time. No two threads touch the same piece of simulation state without synchronisation.",
  ["schedules","configurations"],
  "all interleavings of the worker threads of all (nested) modules; core counts from 'unknown' (0) through 1 to more than the worker limit; all pack shapes, cell types and step sequences",
  "The unit tests run one schedule on one machine's core count and never vary it; a lost update, a skipped or doubly advanced child, or shared scratch state shows up only for particular interleavings or worker/child ratios.",
  ["src/utility/parallelisation.hpp","src/modules/Module_s.cpp","src/modules/Module_p.cpp","src/settings/settings.hpp","src/cells/Cell_ECM/Cell_ECM.hpp","src/cells/Cell_SPM/Cell_SPM_dstate.cpp"],
  [("strided partition of children over workers, join before return","src/utility/parallelisation.hpp run()"),("per-child task","src/modules/Module_s.cpp, Module_p.cpp timeStep_CC")],
  observe=["getStates()","V()","I()","written data files","per-cell step history"])

p("C02","A failing worker never kills the process or corrupts the step",
  "If advancing any child fails while a module steps its children in parallel (model error, allocation failure, or the platform refusing to start a thread), the step reports the failure to its caller as an ordinary error; the process is not terminated and no worker thread is still running when the call returns. No child is advanced more than once by the failed step, a refused thread never leaves children silently un-advanced, and after the cause is gone the same pack can be stepped again. A constant-current phase turns a failed step into its failed-step status.",
  ["schedules","fault_sequences"],
  "every child that can fail, at every step, on every thread schedule; every thread-start that can be refused; nested modules; 1..many cores",
  "No test makes a worker fail or a thread creation fail; with threads the outcome depends on which worker fails while others run.",
  ["src/utility/parallelisation.hpp","src/modules/Module_s.cpp","src/modules/Module_p.cpp","src/procedures/Cycler.cpp"],
  [("exception propagation from workers ('13 in multithreading, an exception was thrown in one of the child threads')","src/modules/Module_s.cpp timeStep_CC"),("try/catch around the parallel run","src/modules/Module_p.cpp timeStep_CC"),("failed-step status","src/procedures/Cycler.cpp CC")],
  observe=["exception or status seen by the caller","live thread count after return","per-cell step history"])

p("C03","Every stored data point is written exactly once and in order",
  "Over any sequence of store and flush operations (explicit flushes, automatic flushes when the in-memory log is full, flushes by procedures, several experiments sharing a unit), each cell's log file contains every data point stored for that cell exactly once, in the order stored, one per line with current, voltage, SOC, temperature, time, charge and energy as they were when stored, and previously written content is never altered. When a test step asks for data every N steps, a point is present at its start and, if it ends by reaching its limit, at its end, and consecutive points are never further apart than twice the requested interval. Storing and flushing never change the simulated unit.",
  ["histories","inputs"],
  "all interleavings of storing, flushing, prefixes, cyclers and auto-flush boundaries, for all cell types and pack shapes",
  "Existing tests write files but never read them back, and never reach the automatic flush (100 000 points).",
  ["src/types/data_storage/CellDataStorage.hpp","src/types/data_storage/CellDataWriter.hpp","src/utility/free_functions.hpp","src/procedures/Cycler.cpp","src/cells/Cell.hpp","src/modules/Module.hpp"],
  [("append-only log file + buffer cleared after writing","src/utility/free_functions.hpp write_data/openFile"),("automatic flush counter","src/procedures/Cycler.cpp storeData/writeData")],
  state=[("data","in-memory log of a cell","src/types/data_storage/CellDataStorage.hpp"),("index","points since last flush","src/procedures/Cycler.hpp")],
  observe=["<results>/<prefix>_<id>_cellData.csv"],
  hook="SLIDE_SIM: automatic-flush threshold (CELL_NDATA_MAX) selectable so that flush boundaries occur within short runs")

p("C04","Storage faults never silently lose logged data",
  "If the log file of a cell cannot be opened, or a write, flush or close fails or is cut short (disk full, I/O error, interrupted or short writes), then either every stored data point is completely in the file or the flush reports an error to its caller; after the fault is gone a further flush brings every data point stored so far into the file. A crash at any point leaves everything flushed before it intact in the file. Storage faults never alter the simulated unit.",
  ["fault_sequences","crash_points","histories"],
  "every file operation of every flush failing in every way the operating system allows, any number of times, at any point of an experiment; every crash point",
  "No test injects any I/O failure; the error path of a flush is never executed.",
  ["src/utility/free_functions.hpp","src/types/data_storage/CellDataWriter.hpp","src/procedures/Cycler.cpp","src/modules/Module.hpp"],
  [("open check, error 11","src/utility/free_functions.hpp openFile"),("buffer clear","src/utility/free_functions.hpp write_data")],
  observe=["file contents after faults","errors thrown by writeData/storeData/CC/CV/rest"])

p("C05","Results depend only on the experiment, not on its environment",
  "The same experiment always produces bit-identical states, measurements, returned statuses and data files: wall-clock and monotonic time (including jumps and stalls), the number of cores, thread timing, previous contents of memory, and other experiments run earlier in the same process have no influence.",
  ["configurations","schedules","histories"],
  "all clocks, memory contents, core counts and earlier activity of the process, for all experiments",
  "Tests run each scenario once, in one environment, and compare with loose tolerances.",
  ["src/utility/timing.hpp","src/utility/parallelisation.hpp","src/procedures/Procedure.cpp","src/factories/makeBattery.cpp","src/types/OCVcurves.hpp","src/cells/Cell_SPM/Model_SPM.hpp","src/utility/io/read_CSVfiles.hpp"],
  [("wall clock used for messages only","src/utility/timing.hpp"),("shared read-only caches","src/cells/Cell_SPM/Model_SPM.hpp, src/utility/io/read_CSVfiles.hpp"),("fixed random seeds","src/factories/makeBattery.cpp, src/utility/util.hpp")],
  observe=["getStates()","V()","statuses","throughput","files"])

p("C06","Faulty input files give an error or exact data, never a hang or garbage",
  "Whatever goes wrong while the model's parameter and OCV files are read (file missing or unreadable, empty, short or interrupted reads, an I/O error after any number of bytes), creating a cell or loading a curve finishes in bounded time and either fails with an error the caller can catch or gives exactly the data and the cell that a fault-free read gives. A failed attempt leaves nothing behind: once the files are readable again, creation succeeds and behaves exactly as if the fault had never happened.",
  ["fault_sequences","inputs"],
  "every input file, every byte position and kind of read failure, on first and later use in a process",
  "Tests only ever read healthy files.",
  ["src/utility/io/read_CSVfiles.hpp","src/types/XYdata.hpp","src/types/OCVcurves.hpp","src/cells/Cell_SPM/Model_SPM.hpp"],
  [("open check, error 2","src/utility/io/read_CSVfiles.hpp"),("process-wide cache of curves and model matrices","src/utility/io/read_CSVfiles.hpp, src/cells/Cell_SPM/Model_SPM.hpp")],
  observe=["constructor outcome","cell voltage/states after construction","time to finish"])

p("C07","Reported time, charge and energy equal what was actually simulated",
  "For every sequence of test steps, each step adds to the reported throughput exactly the time simulated, the charge that passed (integral of |I|) and the energy (integral of |I|V), on top of what was there before, however the step ends. Every cell's own elapsed time, charge and energy counters advance by the same amounts as the current it actually carried, and its SOC changes by exactly minus the signed charge divided by its capacity, so charge is conserved over any history.",
  ["histories","fault_sequences"],
  "all sequences of rest/CC/CV/CCCV steps with all limits, time steps, pack shapes and early terminations",
  "Tests check a few single-step throughputs with wide tolerances; accumulation over sequences, CV time and early endings are never checked.",
  ["src/procedures/Cycler.cpp","src/cells/Cell_ECM/Cell_ECM.hpp","src/cells/Cell_SPM/Cell_SPM_dstate.cpp","src/types/State.hpp"],
  [("throughput accumulation per step","src/procedures/Cycler.cpp"),("cumulative states","src/cells/Cell_ECM/Cell_ECM.hpp timeStep_CC, src/cells/Cell_SPM/Cell_SPM_dstate.cpp")],
  observe=["throughput returned by Cycler","getThroughputs()","SOC()","recorded history of steps"])

p("C08","Setters are all-or-nothing",
  "Setting a current, voltage, SOC or state vector on a cell, a module at any nesting level or a battery either takes effect completely, or reports a failing status and leaves every cell's current and state as they were before the call, no matter which child fails and how. An accepted current or state vector is the one that can be read back.",
  ["fault_sequences","inputs","configurations"],
  "every child at every nesting level failing at any point of the operation, and all values that violate limits, from every reachable state",
  "Tests only exercise rejections by whole uniform modules; no test lets child k of n fail and then checks the others.",
  ["src/modules/Module_s.cpp","src/modules/Module_p.cpp","src/modules/Module.cpp","src/system/Battery.cpp","src/cells/Cell_ECM/Cell_ECM.hpp","src/cells/Cell_SPM/Cell_SPM.cpp"],
  [("rollback loops","src/modules/Module_s.cpp setCurrent, src/modules/Module.cpp setStates"),("old value restored on bad status","src/cells/*/ setCurrent/setStates/setSOC")],
  observe=["getStates() before/after","I() of every cell","status"])

p("C09","Packs obey Kirchhoff's laws after every operation",
  "After every successful current or voltage set and every successful time step, at every nesting level: all children of a series module carry the same current and its voltage is the sum of their voltages minus contact-resistance drops; all children of a parallel module give the same terminal voltage once contact resistances are accounted for, and their currents add up to the module's current, which equals the current that was requested. Voltage and current read from a module always reflect the present state of its cells.",
  ["histories","configurations"],
  "all nested pack shapes, unequal capacities, resistances, contact resistances and SOCs, all operation histories",
  "Tests use small modules of identical (or nearly identical) cells at a handful of operating points.",
  ["src/modules/Module_p.cpp","src/modules/Module_s.cpp","src/modules/Module_p.hpp","src/modules/Module_s.hpp","src/system/Battery.hpp"],
  [("iterative equalisation","src/modules/Module_p.cpp setCurrent/redistributeCurrent/setVoltage"),("cached module voltage","src/modules/Module_s.cpp V()")],
  observe=["I(), V() at every node of the tree","status"])

p("C10","Test steps stop for the reason they report, promptly",
  "Every rest, CC, CV and CCCV step ends after a bounded number of time steps, never simulates more than its time limit, and the status it returns is true of the unit at that moment: a voltage limit is reported only when the voltage has reached it (overshooting by at most one step), a time limit only when exactly that time was simulated, a current limit only when the current is below it at the set voltage, and a CCCV step to an invalid set voltage is refused without advancing time. A failure inside a step ends the test step with a failing status or an error, never with a success status.",
  ["histories","fault_sequences","inputs"],
  "all step parameters, start states, pack shapes and failures during the step",
  "Tests check statuses for a few nominal parameter sets on healthy units.",
  ["src/procedures/Cycler.cpp","src/utility/free_functions.hpp","src/types/Status.hpp"],
  [("termination logic","src/procedures/Cycler.cpp"),("safety checks","src/utility/free_functions.hpp check_safety/check_voltage")],
  observe=["returned status","recorded step history","V(), I() at return"])

p("C11","Snapshots, copies and capacity tests are exact and isolated",
  "Saving the states of a unit and later restoring them (into the same unit or an identically built one, e.g. after a crash) gives a unit that continues exactly as the saved one did. A copy of a unit behaves exactly like the original from that moment on, and nothing done to either affects the other. Measuring the capacity of a unit leaves it in exactly the state it was in, whether the measurement succeeds or fails.",
  ["histories","crash_points"],
  "every point of every history at which a snapshot or copy is taken or a crash happens; all pack shapes and cell types",
  "Tests copy or restore only freshly built units and do not compare the continuation.",
  ["src/cells/Cell_ECM/Cell_ECM.hpp","src/cells/Cell_SPM/Cell_SPM.cpp","src/modules/Module.cpp","src/system/Battery.cpp","src/types/Deep_ptr.hpp","src/procedures/Cycler.cpp"],
  [("getStates/setStates","all StorageUnits"),("deep copy","src/types/Deep_ptr.hpp, copy()"),("restore of original states","src/procedures/Cycler.cpp testCapacity")],
  observe=["continuation of original vs restored/copied unit","states before/after testCapacity"])

p("C12","Independent experiments can run concurrently",
  "Independent experiments (each with its own unit, cycler and file prefix), including building the cells, run at the same time on different threads, give exactly the results and files they give when run one after another, for every thread schedule. They share no unsynchronised mutable data.",
  ["schedules"],
  "all interleavings of 2..n threads each building and cycling its own units, including first use of shared caches",
  "Tests run experiments one after another.",
  ["src/utility/parallelisation.hpp","src/utility/io/read_CSVfiles.hpp","src/cells/Cell_SPM/Model_SPM.hpp","src/types/OCVcurves.hpp","src/types/State.hpp"],
  [("process-wide caches","src/utility/io/read_CSVfiles.hpp XYdataMap, Model_SPM::makeModel, OCVcurves::makeOCVcurves"),("parallel runner used by examples to run experiments concurrently","src/utility/parallelisation.hpp, src/paperCode.cpp")],
  observe=["states","files","conflicting accesses"])

p("C13","Heat is conserved and temperatures stay consistent",
  "With the coupled thermal model enabled, over any history the heat generated by cells and contact resistances equals the heat stored in cells plus the heat handed to the coolant, neighbouring units exchange equal and opposite heat, contact-resistance heat equals the sum of each resistor's own I squared R over the time simulated, and cooling-system totals add up to the heat and time actually processed. An error in the thermal model is reported to the caller and leaves no part of the pack ahead of the rest in time.",
  ["histories","fault_sequences"],
  "all pack shapes with contact resistances, all load histories, cooling-control strategies and thermal failures",
  "The default build compiles the thermal model out, so tests never exercise it.",
  ["src/modules/Module.cpp","src/modules/Module_p.cpp","src/modules/Module_s.cpp","src/cells/Cell_SPM/Cell_SPM_thermal.cpp","src/cooling/CoolSystem.cpp","src/cooling/CoolSystem_HVAC.cpp","src/system/Battery.cpp"],
  [("coupled thermal balance","src/modules/Module.cpp thermalModel_coupled"),("coolant balance","src/cooling/CoolSystem.cpp dstate")],
  observe=["T() of every node","cooling-system totals"],
  hook="SLIDE_SIM_T_MODEL: select the thermal model at build time")

p("C14","Ageing procedures report every action and survive faults",
  "A cycle-ageing procedure run records one throughput entry per completed (dis)charge action and writes each exactly once, in order and cumulatively consistent with what was simulated, to its throughput report, and writes check-up and module reports covering every cell and module. If a report file cannot be written the procedure does not lose entries it could still write later, does not crash, and the simulated ageing is unaffected by reporting or by reporting failures.",
  ["histories","fault_sequences"],
  "all ageing parameters, check-up and balancing intervals, units, and file failures at any report",
  "Tests run procedures without reading any report back and without any file failure.",
  ["src/procedures/Procedure.cpp","src/procedures/Procedure.hpp"],
  [("throughput vector written and cleared","src/procedures/Procedure.cpp writeThroughput"),("check-up on copies of the cells","src/procedures/Procedure.cpp checkUp")],
  observe=["<results>/<id>_throughput.csv, <id>_checkModules_overall.csv, <id>_checkUp.csv"])

p("C15","Running out of memory at any point is reported and harmless",
  "If any single memory allocation fails while a unit is being stepped, set, copied, logged or flushed, the operation reports it to its caller; the process is not terminated, no stored data point is half-recorded or later shifted, and once memory is available again the same operation can be repeated and all data points stored before are still written exactly once.",
  ["fault_sequences"],
  "every allocation of every operation, on every pack shape",
  "No test makes an allocation fail.",
  ["src/types/data_storage/CellDataStorage.hpp","src/modules/Module.cpp","src/types/Deep_ptr.hpp","src/utility/parallelisation.hpp","src/procedures/Cycler.cpp"],
  [("row-wise storage","src/types/data_storage/CellDataStorage.hpp storeData"),("deep copy","src/types/Deep_ptr.hpp")],
  observe=["exception seen by the caller","log file rows","states"])

p("C16","Ageing is irreversible and can be switched off exactly",
  "Over every load history and every combination of degradation models, lost lithium, SEI and plated-lithium thickness and crack surface never decrease, electrode thickness, active material, effective surface and the negative electrode's diffusion never increase (except the reversible volume change of the pore model), only states with a selected model change, the lithium lost is the lithium found in the SEI (also on cracks) and plated layers, several models add up, and all states stay finite, physically valid and accepted by the cell's own state check (also with steps of 0 s). While degradation is blocked, or with no degradation model selected, none of them changes at all, and every child of a module or battery honours the block.",
  ["histories","configurations"],
  "all load histories, degradation-model combinations, block/unblock sequences, pack shapes",
  "Tests run single degradation models for short nominal cycles and look only at the end capacity.",
  ["src/cells/Cell_SPM/Cell_SPM_degradation.cpp","src/cells/Cell_SPM/Cell_SPM_dstate.cpp","src/modules/Module.hpp","src/system/Battery.hpp"],
  [("degradation state derivatives","src/cells/Cell_SPM/Cell_SPM_dstate.cpp"),("block flag","src/StorageUnit.hpp setBlockDegAndTherm")],
  observe=["degradation states of every cell"])

p("C17","Curve lookup and numerical kernels are exact",
  "Interpolating a curve, evaluating the discretised diffusion matrices and binning a histogram return the mathematically defined value for every input.",
  ["inputs"],"all curves, query points and matrices",
  "Tests sample a few points.",
  ["src/utility/interpolation.hpp","src/types/Histogram.hpp","src/cells/Cell_SPM/Model_SPM.hpp"],
  [("linInt","src/utility/interpolation.hpp")])

p("C18","The OCV fit finds the best candidates on every schedule and loses no result",
  "Fitting the open-circuit-voltage curve of a cell (hierarchicalOCVfit, estimateOCVparameters) gives, for every level of its search, parameters with the smallest error among all candidates of that level, together with that error; every following level searches the region between the neighbours of the best candidate (start fractions within 0..1). The result is bit-identical for every number of cores, every interleaving of the worker threads and every refused worker thread, and no worker is left behind. Input curves which cannot be read completely give an error (estimateOCVparameters: a message and no results), never another fit. A fit which returns without an error has written its result files (OCVFit_<level>_param.csv, OCVfit_parameters.csv, OCVfit_sim.csv) completely and they hold these parameters and the discharge they give; a result which could not be written is reported by an error.",
  ["inputs","schedules","fault_sequences"],"all valid curves and search spaces, all schedules of the workers, numbers of cores, refused threads, failing allocations, and read and write failures of the files",
  "The tests do not run the fitting routines; their result depends on the division of the search between threads and on files which may fail at any point.",
  ["src/procedures/determine_OCV.cpp","src/utility/parallelisation.hpp","src/utility/io/read_CSVfiles.hpp"],
  [("hierarchical search","src/procedures/determine_OCV.cpp"),("run","src/utility/parallelisation.hpp")])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
