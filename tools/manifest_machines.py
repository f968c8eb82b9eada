MC = ("spec/%s (the algorithm, one step per atomic action, against the abstract machine) is model checked exhaustively "
      "within small bounds. The schedules of its reachable states, and generated programs under systematic and random "
      "schedules, are run against the real code by a deterministic scheduler on the hooked atomics; TLC checks every "
      "recorded %s against spec/%s. The code itself is explored, not proved; only sequentially consistent "
      "interleavings are executed. Trusts TLC, the scheduler and the hooks.")
T["C01"] = ("TLA+ interner machine model checked; its schedules replayed into the code; TLC checks recorded histories for linearizability", "model_checking", "")
T["C02"] = ("TLA+ interner machine model checked; its schedules replayed into the code; TLC checks recorded histories for linearizability", "model_checking", "")
T["C03"] = ("TLA+ happens-before machine; TLC checks access logs recorded under replayed and generated schedules", "model_checking", "")
T["C04"] = ("TLA+ list machine model checked; its schedules replayed into the code; TLC checks recorded histories for linearizability", "model_checking", "")
T["C05"] = ("TLA+ register and store machines; histories of its transitions replayed; TLC validates recorded histories and reference counts", "model_checking", "")
T["C06"] = ("TLA+ register machine per thread; interner specification's schedules replayed; TLC validates recorded histories", "model_checking", "")
NOTES["C01"] = NOTES["C02"] = MC % ("InternerAlg.tla", "history", "Interner.tla by way of Linear.tla")
NOTES["C03"] = MC % ("InternerAlg.tla and spec/ListAlg.tla", "access log", "HB.tla, which judges the memory orderings the code asks for, not what the hardware did")
NOTES["C04"] = MC % ("ListAlg.tla", "history", "List.tla by way of Linear.tla")
NOTES["C05"] = ("spec/BigStore.tla is model checked exhaustively for 3 registers and 5 values; a history per transition, and "
                "generated register programs, run against the real code, all registers and reference counts being read after "
                "every step; TLC checks every history against spec/BigMachine.tla. Explored, not proved.")
NOTES["C06"] = MC % ("InternerAlg.tla", "history", "BigMachine.tla, each thread's on its own")
