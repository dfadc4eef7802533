"""property -> check module"""
CHECKS = {}


def reg(pid, module, entry, level="other", explain="", assumptions=()):
    CHECKS[pid] = {"module": module, "entry": entry, "level": level, "explain": explain, "assumptions": list(assumptions)}


GV = ("gated value-flow: two distinct pointer-valued members/parameters do not alias",
      "library calls behave as modelled in tool/sa/lib.py")
reg("P01", "conc", "p01", explain="must-hold lock sets at every shared-queue operation of every entry function", assumptions=GV)
reg("P02", "conc", "p02", explain="lock typestate on every path to every exit of every entry function; lock-order graph", assumptions=GV)
reg("P26", "init", "p26", explain="definite-initialisation of members after every constructor and of locals on every path", assumptions=GV)
reg("P04", "conc", "p04", explain="stop-flag polling, thread lifecycle and lockset intersection for every class that owns a thread", assumptions=GV + ("functions that hand over queue/mutex pairs (add_*) are called before the thread is started",))
reg("P03", "conc", "p03", explain="non-emptiness typestate of every shared queue at every front/pop", assumptions=GV)
EQ = GV + ("exact real arithmetic: rounding is not modelled",)
reg("P14", "eqs", "p14", explain="propagated mean compared with the strapdown equations as normal forms over the value-flow graph", assumptions=EQ)
reg("P15", "eqs", "p15", explain="covariance propagation compared blockwise with the transition and noise maps of the chosen convention", assumptions=EQ + ("the robot state's own covariance and noise are symmetric",))
reg("P16", "eqs", "p16", explain="invariant Kalman update compared with its closed form", assumptions=EQ)
reg("P18", "meas", "p18", explain="arguments handed to the invariant update compared with the measurement model", assumptions=EQ)
reg("P19", "leg", "p19", explain="breadth-first exploration of leg-to-column assignments with symbolic state at every step", assumptions=EQ)
reg("P12", "state", "p12", explain="shapes of all matrices after every constructor, augmentation, removal, propagation, update and correction", assumptions=EQ)
reg("P13", "state", "p13", explain="every accessor evaluated on a symbolic state and compared with the slot table", assumptions=EQ)
reg("P32", "state", "p32", explain="every view accessor evaluated on a symbolic state for both conventions", assumptions=EQ)
reg("P17", "lie", "p17", explain="hat map, gamma functions, exponential and adjoint as values over symbolic input compared with their defining identities in the ring modulo theta^2 = w.w", assumptions=EQ)
reg("P05", "steps", "p05", explain="case analysis of every propagation/correction/initialisation step over its path conditions: result, state, time and queue removal on every path", assumptions=GV + ("the configured time threshold is not negative",))
reg("P06", "steps", "p06", explain="path conditions of every fusion compared with the time window, inductively over the drain loops", assumptions=GV + ("the configured time threshold is not negative",))
reg("P07", "steps", "p07", explain="sequences of propagation steps with symbolic samples", assumptions=EQ)
reg("P08", "estim", "p08", explain="sub-step order, gates and contents of everything an estimator step publishes, for arbitrary reports of every sub-step", assumptions=GV)
reg("P09", "estim", "p09", explain="case analysis of the initialisation sequence over the reports of propagation and corrections, inductively over its waiting loops", assumptions=GV)
reg("P10", "estim", "p10", explain="value of every queue, flag, container and contact table after a reset", assumptions=GV + ("queue and mutex pointers handed to the estimator are not null", "no sensor thread refills a queue between the reset and the observation"))
reg("P22", "containers", "p22", explain="every getter evaluated after every constructor and after first and repeated stores of symbolic values; exception paths of the quaternion setter", assumptions=GV)
reg("P21", "kin", "p21", explain="leg positions and Jacobians as trigonometric polynomials, differentiated symbolically; slots, mirror symmetry and initial velocity", assumptions=EQ)
reg("P25", "logs", "p25", explain="token sequences, write conditions and file names of every log stream as value-flow terms; every file-opening site of the library", assumptions=GV + ("the configured log rate is positive", "no other thread resets the estimator while a line is being written (P04)"))
reg("P24", "conf", "p24", explain="configuration schema (keys, types, presence tests, lengths) extracted from every constructor and compared with every shipped YAML file", assumptions=GV)
reg("P20", "gyro", "p20", explain="one step of the gyro filter from an arbitrary state, for every propagation and correction method", assumptions=EQ)
reg("P28", "bias", "p28", explain="value-flow terms of the biases after every arrival pattern of up to three samples, compared with the compensated means", assumptions=EQ)
reg("P23", "conf", "p23", explain="presence gates and default equivalence of every optional configuration entry by substitution in the constructed values; uses by normal-form comparison with the equations in terms of the entries", assumptions=EQ)
reg("P11", "psd", "p11", explain="facts 'symmetric positive semi-definite' derived from how every covariance value is formed, for propagation, updates, contact changes, initialisation and the gyro filter", assumptions=EQ)
reg("P27", "headers", "p27", explain="every public header parsed alone, twice and next to all others; linkage of every definition read from the compiler's intermediate representation", assumptions=GV)
reg("P31", "alias", "p31", explain="lifetimes, overwritten operands and invalidated references of every lazily evaluated matrix expression, view, element reference and iterator, per statement in every function body", assumptions=GV)
reg("P29", "ros", "p29", explain="every callback registered by an Add function and both publishing threads: field mapping, stamps, lock sets, array bounds", assumptions=GV + ("ROS calls behave as modelled in tool/sa/lib.py; callbacks of one subscription are not run concurrently (the ROS default)",))
reg("P37", "wheel", "p37", explain="construction and up to four steps of the wheel-odometry baseline with symbolic measurements, from an arbitrary pose before every step", assumptions=EQ + ("time stamps are positive and increase; the configured log rate is positive",))
reg("P38", "mains", "p38", explain="every shipped program's main function evaluated with the library's classes as recorders: wiring, files, entries, thread starts and the loop's case table", assumptions=GV + ("ROS calls behave as modelled in tool/sa/lib.py",))
