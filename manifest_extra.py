CONC = "property-based testing: random concurrent programs under random and PCT schedules (shuttle), log checked against invariants"
for i in "16 17 18 19".split():
    T["C" + i] = (CONC, "random search over small programs (up to 3 senders, 3 mailboxes) and 24 schedules each; sequentially consistent memory only")
for i in "01 02 03 05 07 08 09 12 20".split():
    T["C" + i] = (T["C" + i][0] + "; plus random concurrent programs under controlled schedules", T["C" + i][1] + "; small concurrent programs under random and PCT schedules")
T["C13"] = (SEQ + ", with select/join inside handlers and by hand", "random search over bounded histories with nested serving loops")
T["C15"] = ("property-based testing: differential random histories through address and channel; model-based random histories with sinks", "random search over bounded histories")
T["C14"] = ("property-based testing: random histories of handles, every pair compared with a model of identity, sets and maps with model sets", "random search over histories with up to 14 live handles and 6 mailboxes")
T["C22"] = ("property-based testing: random histories run with spans recorded, with debug spans disabled, and without instrumentation; differential traces and a span oracle", "random search over bounded histories; sequential, deterministic polling")
T["C23"] = ("property-based testing: grammar-generated type definitions compiled with the derive, probed against the generator's knowledge of them; shrunk against a hand-written control impl", "random search over definitions with up to 4 parameters and 2 lifetimes")
T["C24"] = ("property-based testing: random scripts on tokio, smol, async-std and by hand against a reference interpreter; random actors and senders on mixed executors against invariants", "random search; real threads, schedules not controlled")
