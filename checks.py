"""What each check builds and how long it runs: (runs, seconds at most) per tier."""
REAL = ["every header of /repo/include used by the operation, compiled from the current tree, unmodified"]
STUB = ["OpenMP runtime (libgomp entry points): simulator", "pthreads, mutexes, static-initialisation guards: simulator",
        "rand/srand/random_device: seeded streams", "malloc/operator new: counting, failing, garbage-filling allocator", "clocks and sleeps: simulated time"]
ASSUME = ["sequentially consistent interleavings of instrumented accesses; weak-memory effects are covered only through the data-race check of C01 and C02",
          "the sampled parameter sets are instances of degree 2 to 4096 (mostly up to 128) of the library's templates",
          "the reference model (ref/ref.cpp) is right; it shares no code with the library"]
def poly(*sets): return ["op_poly:POLY_SET=%d" % s for s in sets]
CHECKS = {
  "C01": {"builds": [
    {"flavour": "t", "check": "c01", "ops": ["op_ring"], "quick": (9000, 40), "thorough": (400000, 900)},
    {"flavour": "p", "check": "c01", "ops": ["op_ring:RING_BIG", "op_sweep:SWEEP_SET=4"], "defs": ["BUDGET=1000"], "quick": (1200, 20), "thorough": (100000, 600)}]},
  "C02": {"builds": [
    {"flavour": "t", "check": "c02", "ops": ["op_core:CORE_SET=5", "op_enc:OPS_SMALL", "op_ring:OPS_SMALL", "op_text"], "defs": ['GROUPS="endec,ring,enc,ks,arith,text"', "BUDGET=60"], "quick": (9000, 25), "thorough": (600000, 900)},
    {"flavour": "t", "check": "c02", "ops": ["op_lt:OPS_SMALL", "op_mat", "op_poly:OPS_SMALL", "op_cts:CTS_SET=0"], "defs": ['GROUPS="lt,poly,cts"', "BUDGET=300"], "quick": (600, 20), "thorough": (50000, 900)},
    {"flavour": "t", "check": "c02", "ops": ["op_core:CORE_SET=7", "op_enc:OPS_MID", "op_ring:OPS_MID"], "defs": ['GROUPS=""', "BUDGET=400"], "quick": (400, 20), "thorough": (40000, 900)}]},
  "C03": {"builds": [
    {"flavour": "t", "check": "c03", "ops": ["op_core:CORE_SET=5", "op_ring:OPS_SMALL", "op_lt:OPS_SMALL", "op_poly:OPS_SMALL", "op_cts:CTS_SET=0"], "defs": ['GROUPS=""', "BUDGET=400"], "quick": (1500, 25), "thorough": (60000, 600)},
    {"flavour": "p", "check": "c03", "ops": ["op_core:CORE_SET=4", "op_enc", "op_ring", "op_lt", "op_mat", "op_text", "op_poly:POLY_SET=1", "op_cts:CTS_SET=1"], "defs": ['GROUPS=""', "BUDGET=3000"], "quick": (4000, 25), "thorough": (300000, 900)},
    {"flavour": "p", "check": "c03", "ops": ["op_core:CORE_SET=6", "op_enc:OPS_BIG", "op_lt:OPS_BIG", "op_mat:OPS_BIG", "op_poly:POLY_SET=2"], "defs": ['GROUPS=""', "BUDGET=1200"], "quick": (300, 15), "thorough": (60000, 600)}]},
  "C04": {"builds": [{"flavour": "t", "check": "c04", "ops": ["op_core:CORE_SET=1"], "quick": (24000, 40), "thorough": (1000000, 900)},
    {"flavour": "p", "check": "c04", "ops": ["op_core:CORE_SET=6", "op_core:CORE_SET=1", "op_sweep:SWEEP_SET=1"], "defs": ["BUDGET=200", "BURST=20", "BURSTS=1500"], "quick": (2500, 15), "thorough": (200000, 600)}]},
  "C05": {"builds": [{"flavour": "t", "check": "c05", "ops": ["op_fresh"], "quick": (3000, 40), "thorough": (300000, 900)},
    {"flavour": "p", "check": "c05", "ops": ["op_fresh:OPS_BIG"], "defs": ["MAXHIST=8"], "quick": (200, 20), "thorough": (30000, 600)}]},
  "C06": {"builds": [{"flavour": "t", "check": "c06", "ops": ["op_core:CORE_SET=2"], "quick": (8000, 40), "thorough": (500000, 900)},
    {"flavour": "p", "check": "c06", "ops": ["op_core:CORE_SET=6", "op_core:CORE_SET=2", "op_sweep:SWEEP_SET=2"], "defs": ["BUDGET=300", "BURST=20", "BURSTS=5000"], "quick": (1500, 15), "thorough": (200000, 600)}]},
  "C07": {"builds": [{"flavour": "t", "check": "c07", "ops": ["op_core:CORE_SET=3"], "quick": (6000, 35), "thorough": (500000, 900)},
    {"flavour": "p", "check": "c07", "ops": ["op_core:CORE_SET=6", "op_core:CORE_SET=3", "op_sweep:SWEEP_SET=3"], "defs": ["BUDGET=300", "BURST=20", "BURSTS=5000"], "quick": (1500, 15), "thorough": (200000, 600)}]},
  "C08": {"builds": [{"flavour": "t", "check": "c08", "ops": ["op_lt", "op_mat"], "quick": (2500, 35), "thorough": (200000, 900)},
    {"flavour": "p", "check": "c08", "ops": ["op_lt:OPS_BIG", "op_mat:OPS_BIG"], "defs": ["BUDGET=600"], "quick": (300, 20), "thorough": (60000, 600)}]},
  "C09": {"builds": [
    {"flavour": "t", "check": "c09", "ops": poly(1), "quick": (900, 25), "thorough": (60000, 600)},
    {"flavour": "p", "check": "c09", "ops": poly(2, 3, 4, 5, 6, 7, 8, 9, 10, 11), "defs": ["MAXOPS=3", "BUDGET=1000"], "quick": (600, 30), "thorough": (60000, 900)}]},
  "C14": {"builds": [{"flavour": "t", "check": "c14", "ops": ["op_enc"], "quick": (24000, 35), "thorough": (1000000, 900)},
    {"flavour": "p", "check": "c14", "ops": ["op_enc:OPS_BIG", "op_enc"], "defs": ["BUDGET=400", "BURST=20", "BURSTS=3000"], "quick": (2400, 20), "thorough": (60000, 600)}]},
  "C15": {"builds": [{"flavour": "t", "check": "c15", "ops": ["op_misc"], "quick": (80000, 25), "thorough": (3000000, 600)}]},
  "C10": {"builds": [
    {"flavour": "t", "check": "c10", "ops": ["op_cts:CTS_SET=1"], "quick": (700, 30), "thorough": (60000, 600)},
    {"flavour": "p", "check": "c10", "ops": ["op_cts:CTS_SET=2", "op_cts:CTS_SET=3", "op_cts:CTS_SET=4"], "defs": ["MAXOPS=4"], "quick": (800, 30), "thorough": (60000, 900)}]},
  "C11": {"builds": [
    {"flavour": "p", "check": "c11", "ops": ["op_boot:BOOT_SET=%d" % k for k in range(0, 9)] + ["op_sweep:SWEEP_SET=5"], "quick": (250, 40), "thorough": (20000, 1200)}]},
  "C12": {"builds": [
    {"flavour": "p", "check": "c12", "ops": ["op_core:CORE_SET=4", "op_enc", "op_ring", "op_lt", "op_mat", "op_diag", "op_text", "op_poly:POLY_SET=1", "op_cts:CTS_SET=1"], "defs": ['GROUPS=""', "BUDGET=1500", "BURSTS=3000"], "quick": (4000, 30), "thorough": (300000, 900)},
    {"flavour": "t", "check": "c12", "ops": ["op_core:CORE_SET=4", "op_enc", "op_ring", "op_lt", "op_mat", "op_diag", "op_text", "op_poly:POLY_SET=1", "op_cts:CTS_SET=1"], "defs": ['GROUPS=""', "BUDGET=500"], "quick": (1200, 20), "thorough": (60000, 600)},
    {"flavour": "p", "check": "c12", "ops": ["op_core:CORE_SET=6", "op_enc:OPS_BIG", "op_lt:OPS_BIG", "op_mat:OPS_BIG", "op_poly:POLY_SET=2"], "defs": ['GROUPS=""', "BUDGET=800"], "quick": (300, 15), "thorough": (60000, 600)}]},
  "C13": {"builds": [
    {"flavour": "p", "check": "c13", "ops": ["op_core:CORE_SET=4", "op_enc", "op_ring", "op_lt", "op_mat", "op_diag", "op_text", "op_poly:POLY_SET=1", "op_cts:CTS_SET=1"], "defs": ['GROUPS=""', "BUDGET=3000", "BURSTS=6000"], "quick": (4000, 30), "thorough": (300000, 900)},
    {"flavour": "p", "check": "c13", "ops": ["op_core:CORE_SET=6", "op_enc:OPS_BIG", "op_lt:OPS_BIG", "op_mat:OPS_BIG", "op_poly:POLY_SET=2"], "defs": ['GROUPS=""', "BUDGET=1500"], "quick": (300, 15), "thorough": (60000, 600)}]},
  "C19": {"builds": [
    {"flavour": "t", "check": "c19", "ops": ["op_dhist", "op_diag"], "quick": (6000, 30), "thorough": (500000, 600)},
    {"flavour": "p", "check": "c19", "ops": ["op_dhist:OPS_BIG", "op_diag:OPS_BIG", "op_dhist"], "quick": (4000, 15), "thorough": (300000, 600)}]},
  "C21": {"builds": [
    {"flavour": "a", "check": "c21", "ops": ["op_core:CORE_SET=4", "op_enc", "op_ring", "op_lt", "op_mat", "op_diag", "op_poly:POLY_SET=1", "op_cts:CTS_SET=1", "op_fresh", "op_misc", "op_text"], "defs": ['GROUPS=""', "BUDGET=1500"], "quick": (3000, 25), "thorough": (100000, 900)},
    {"flavour": "a", "check": "c21", "ops": ["op_core:CORE_SET=6", "op_poly:POLY_SET=2", "op_boot:BOOT_SET=1", "op_sweep:SWEEP_SET=1", "op_sweep:SWEEP_SET=2", "op_sweep:SWEEP_SET=3", "op_sweep:SWEEP_SET=4"], "defs": ['GROUPS=""', "BUDGET=900"], "quick": (600, 20), "thorough": (60000, 600)}]},
  "C22": {"builds": [
    {"flavour": "t", "check": "c22", "ops": ["op_core:CORE_SET=4", "op_enc:OPS_SMALL", "op_ring:OPS_SMALL", "op_lt:OPS_SMALL", "op_mat", "op_text", "op_poly:OPS_SMALL", "op_cts:CTS_SET=0"], "defs": ['GROUPS=""', "BUDGET=300"], "quick": (5000, 35), "thorough": (200000, 900)},
    {"flavour": "p", "check": "c22", "ops": ["op_core:CORE_SET=6", "op_poly:POLY_SET=2", "op_lt:OPS_BIG"], "defs": ['GROUPS=""', "BUDGET=200"], "quick": (600, 15), "thorough": (60000, 600)}]},
}
