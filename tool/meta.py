"""Single source of properties.jsonl and MANIFEST.json (python3-vt tool/meta.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)

RS, PROP = "src/state/robot_state.cpp", "src/filter/inekf/propagation/imu_propagation.cpp"
LEG, VEL = "src/filter/inekf/correction/legged_kinematics_correction.cpp", "src/filter/inekf/correction/velocity_correction.cpp"
INEKF, EST, EKF = "src/filter/inekf/inekf.cpp", "src/estimator/inekf_estimator.cpp", "src/imu_filter/imu_ang_vel_ekf.cpp"
LIE, SEK = "src/math/lie_group.cpp", "src/math/se_k_3.cpp"
MC = "src/kinematics/mini_cheetah_kinematics.cpp"
ROSP = ["ROS/drift/src/communication/ros_publisher.cpp", "ROS/drift/src/communication/ros_subscriber.cpp"]
T_GV = "gated value-flow"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                  mech=mech, tech=tech, note=note, state=state, observe=observe))


prop("P01", "Shared data queues are touched only while their own mutex is held",
     "Every operation on a queue that is shared with another thread (sensor buffers, the filtered-IMU buffer, the published-state and log queues) - including emptiness and size tests - happens while the mutex that is paired with that very queue is held by the executing thread.",
     "schedules", "all interleavings of producers, the estimator, the logger and the gyro-filter threads; every path of every entry function",
     "the tests run a single thread with pre-filled queues, so a missing lock is never observed",
     [EST, EKF, PROP, VEL, LEG], [("lock/unlock around queue operations", EST + ", " + EKF + ", " + PROP + ", " + VEL + ", " + LEG)],
     "must-hold lockset analysis over a gated value-flow graph of every entry function",
     "all queue operations on all paths of the built library; pairing by construction argument/member; callers are assumed to pass matching queue/mutex pairs")
prop("P02", "No lock is leaked, taken twice, taken in conflicting order or held while waiting",
     "On every path to every exit (normal, early return, exception) a function releases exactly the locks it took, never takes a lock it already holds and never unlocks one it does not hold. Whenever two locks are held together they are taken in one consistent order, and no thread sleeps, joins or waits for more data while holding a lock.",
     "schedules inputs", "every path of every entry function under any data arrival pattern",
     "the tests cover a handful of non-contended paths; a leaked lock on a rare early return or an inverted order only deadlocks under particular arrival patterns",
     [EST, EKF, PROP, VEL, LEG], [("manual lock/unlock pairs on early returns", PROP + ", " + VEL + ", " + LEG + ", " + EKF)],
     "lock typestate dataflow over gated value-flow graphs plus lock-order graph",
     "all paths of the built library; recursion through virtual calls is resolved to all overriders")
prop("P03", "A queue element is only read or removed when the queue is known to be non-empty",
     "Whenever the front of a shared queue is read or removed, the queue was established to be non-empty since the same uninterrupted holding of its mutex began, taking into account elements removed in between.",
     "schedules inputs", "every path, every queue length, and concurrent clearing or draining by another thread",
     "undefined behaviour on an empty queue needs an empty or concurrently drained queue at one specific program point",
     [EST, EKF, PROP, VEL, LEG], [("emptiness test before front/pop", PROP + ", " + VEL + ", " + LEG + ", " + EKF)],
     "non-emptiness typestate over gated value-flow graphs",
     "all front/pop sites on all paths of the built library")
prop("P04", "Background threads can always be stopped and share no unprotected data",
     "A background thread (pose logger, gyro filter) re-reads an atomic stop flag on every iteration; destroying its owner raises that flag before joining, joins only a thread that was started, and does so on every path. Data used by the background thread and by the owner's public operations is either queue data under one common lock, atomic, or never modified after the thread starts.",
     "schedules", "all interleavings of the owner's public operations with its background thread, including destruction before or without starting it",
     "tests never start the background threads with a concurrent owner",
     [EST, EKF], [("stop flag, thread join in destructor", EST + ", " + EKF)],
     "thread-lifecycle typestate and Eraser-style static lockset intersection over value-flow graphs",
     "thread entries and public operations of every class that owns a thread")
prop("P05", "A step without data changes nothing; a used sample is consumed and stamped",
     "When a propagation or correction step reports that it did nothing (no data, sample rejected), the robot state is exactly as before. When it reports success it has removed the sample it used from its queue and the state's time equals the time stamp of that sample.",
     "inputs histories", "all queue contents, time stamps, thresholds and contact patterns",
     "tests only look at runs in which data is available and accepted",
     [PROP, VEL, LEG], [("early returns and set_time in Propagate/Correct/initialize", PROP + ", " + VEL + ", " + LEG)],
     "return-gated state comparison on the value-flow graph",
     "all paths of the propagation and correction steps and of their initialisation counterparts")
prop("P06", "Samples outside the configured time window are never fused",
     "A correction sample older than the last propagation by more than the configured threshold is discarded together with all equally stale successors, and never fused. A body-velocity sample that is not strictly older than the last propagation stays queued for later; the gyro filter likewise fuses a sample only when the propagation is not ahead of it by more than its configured threshold.",
     "inputs histories", "all time stamps (including equal, out-of-order and far-away ones), thresholds and queue lengths",
     "tests use well-ordered stamps; boundary and drain-loop behaviour is not sampled",
     [VEL, LEG, EKF], [("time-difference gates and drain loops", VEL + ", " + LEG + ", " + EKF)],
     "gate implication on the value-flow graph",
     "gates in force at the fusion site on all paths, including samples obtained in drain loops")
prop("P07", "IMU propagation integrates each sample once over the interval since the last one",
     "Each propagation step uses the previously received IMU sample over exactly the time from the last propagation to that sample's stamp, advances both state times to that stamp, and keeps the newly received sample for the next step.",
     "histories inputs", "all sample sequences and stamps",
     "an off-by-one sample or wrong interval only shows as drift on particular sequences",
     [PROP], [("previous-measurement buffering and dt", PROP)],
     "value-flow equality on the propagation step",
     "one propagation step from an arbitrary state")
prop("P08", "Each step publishes exactly one fresh snapshot iff new information arrived",
     "A step first propagates and then offers the state to every registered correction, in order of registration, regardless of what the others report. It appends exactly one newly allocated copy of the final state to the output queue (and one to the log queue when logging is enabled) if any of them reported new information, and none otherwise.",
     "histories inputs", "any number of corrections and any combination of success/failure reports",
     "tests check at most one combination of report values and never object identity",
     [EST], [("RunOnce ordering and publication", EST)],
     "event-order and gate analysis on the value-flow graph",
     "one estimator step with any number of corrections (loop body analysed for an arbitrary iteration)")
prop("P09", "The filter is enabled only after a complete initialisation",
     "Other than by an explicit EnableFilter() call, the estimator reports itself enabled only after the propagation and every correction reported successful initialisation and the configured initial covariances were set, at which point exactly one snapshot of the state is published; when the propagation has no data yet, nothing else is touched.",
     "inputs histories", "all readiness combinations",
     "tests initialise with all data already present",
     [EST], [("InitState / InitBias / enabled flag", EST)],
     "gate and event-order analysis on the value-flow graph",
     "all paths of the initialisation sequence")
prop("P10", "Clearing the estimator leaves nothing of the previous run behind",
     "After a reset the estimator is disabled, every queue it owns or reads is empty, every correction has forgotten its contacts, and the robot state equals a newly constructed one, including dimensions, covariance and noise.",
     "histories", "resets after any history of runs, contacts and configuration",
     "no test resets an estimator after use",
     [EST, RS, PROP, LEG, VEL, EKF], [("clear() chain", EST + ", " + RS)],
     "post-state equality between reset and fresh construction on value-flow graphs",
     "clear() of the estimator, state, propagation, corrections and gyro filter")
prop("P11", "Covariances stay symmetric positive semi-definite by construction",
     "Every covariance the filters store is formed only by operations that preserve symmetry and positive semi-definiteness: congruences, sums, non-negative scalings, consistent row/column removal, or block resets that zero both coupling blocks.",
     "inputs histories", "all states, gains, noise parameters and operation sequences (exact arithmetic)",
     "a loss of symmetry or definiteness appears only along particular histories; tests compare no covariances",
     [PROP, INEKF, LEG, RS, EKF], [("covariance update expressions", PROP + ", " + INEKF + ", " + LEG)],
     "abstract interpretation in a PSD/symmetry domain over value-flow graphs",
     "structural preservation in exact arithmetic; floating-point rounding is not bounded")
prop("P12", "State, covariance, noise and index map always agree in dimension",
     "For any number of augmented contact points, mean, bias, covariance and process noise have matching dimensions, and every block operation on them stays inside these bounds.",
     "inputs histories", "every contact pattern (zero to four augmented points, any add/remove order)",
     "tests fix one contact configuration; out-of-range blocks are silent in release builds",
     [RS, PROP, INEKF, LEG, VEL], [("dimension arithmetic for augmentation", RS + ", " + LEG)],
     "shape analysis over value-flow graphs for every augmentation count",
     "dimensions enumerated for 0-4 augmented points, all block operations on all paths")
prop("P13", "All accessors agree on where each quantity lives in the state and covariance",
     "Setter and getter of a quantity address the same slot, different quantities address disjoint slots, the covariance slot of a quantity is the one the filter equations use for its error, and removing an augmented point removes exactly its own mean, covariance and noise entries.",
     "inputs histories", "all slots and augmentation counts",
     "an accessor pair that is wrong consistently, or only for higher indices, passes round-trip tests",
     [RS], [("block indices of accessors", RS + ", include/drift/state/robot_state.h")],
     "slot-layout extraction and comparison on value-flow graphs",
     "every public accessor of the robot state for every augmentation count")
prop("P14", "Mean propagation follows the strapdown inertial equations",
     "Between IMU samples orientation, velocity and position evolve as R Exp(w dt), v + (R G1 a + g) dt and p + v dt + (R G2 a + g/2) dt^2, with bias-corrected rates and accelerations in the body frame and lever-arm compensation; all other state entries stay unchanged.",
     "inputs", "all measurements, biases, extrinsics, time steps and states",
     "tests compare a few trajectories with loose tolerances",
     [PROP], [("ImuPropagation::Propagate mean update", PROP)],
     "symbolic-free normal-form equality of value-flow expressions with the specification",
     "algebraic identity of the computed expression and the equations")
prop("P15", "Covariance propagation uses the transition and noise maps of the chosen error",
     "The covariance becomes Phi P Phi^T + Qd where Phi is the analytical invariant-error transition matrix for the configured error and state convention, and Qd maps the configured gyroscope, accelerometer, bias and contact noise through Phi and the adjoint when the convention requires it.",
     "inputs configurations", "all error/state conventions, bias settings, rates and augmentation counts",
     "covariance values are not checked by tests; each convention is a separate branch",
     [PROP], [("StateTransitionMatrix, DiscreteNoiseMatrix", PROP)],
     "blockwise normal-form equality of value-flow expressions with the specification",
     "every block for every convention and 0-4 augmented points; bias-coupling blocks checked against their Taylor limit")
prop("P16", "Corrections apply the invariant Kalman update for the chosen error convention",
     "A correction uses gain P H^T (H P H^T + N)^-1, multiplies the state by the group exponential of the correction on the side that matches the observation type, adds the bias part, updates the covariance in Joseph form, and converts the covariance between left and right error conventions consistently before and after.",
     "inputs configurations", "all innovations, Jacobians, noises, conventions and augmentation counts",
     "tests exercise one convention and compare only means",
     [INEKF], [("CorrectRightInvariant / CorrectLeftInvariant", INEKF)],
     "normal-form equality of value-flow expressions with the specification",
     "both update functions under both conventions and bias settings")
prop("P17", "The Lie-group maps satisfy their defining identities",
     "The hat map is skew-symmetric and realises the cross product; the gamma functions have the closed-form coefficients of the exponential series with matching small-angle limits; the group exponential and adjoint have the block structure defined by them.",
     "inputs", "all vectors, orders 0-3 and any number of augmented columns",
     "tests compare a few numeric vectors",
     [LIE], [("skew, Gamma_SO3, Exp_SEK3, Adjoint_SEK3", LIE)],
     "normal forms over value-flow graphs with the relation A^3 = -theta^2 A",
     "algebraic identity; the neglected remainder below the small-angle tolerance is not bounded")
prop("P18", "Measurement models: innovation, Jacobian and noise describe the same quantity",
     "The body-velocity correction compares the rotated, scaled, sensor-to-body mapped measurement with the estimated velocity; the leg correction compares each measured foot position with the estimated foot-minus-body position. Each innovation's Jacobian selects exactly the compared quantities with the matching sign and its noise is the measurement covariance rotated into the same frame.",
     "inputs configurations", "all measurements, extrinsics, contact sets and augmentation counts",
     "tests use identity extrinsics and do not look at Jacobians",
     [VEL, LEG], [("innovation, H and N assembly", VEL + ", " + LEG)],
     "normal-form comparison of value-flow expressions at the update call",
     "the arguments handed to the invariant update on every path")
prop("P19", "Contact points enter and leave the filter exactly with the reported contacts",
     "A leg reported in contact and not yet tracked is added once with its measured position and proper covariance; a tracked leg not in contact is removed; a tracked leg in contact is corrected; others are ignored. After removals every remaining leg still refers to its own column.",
     "histories inputs", "all contact sequences and leg orders",
     "tests do not run sequences of contact changes",
     [LEG, RS], [("contact map and augmentation bookkeeping", LEG + ", " + RS)],
     "gate analysis of bookkeeping events on the value-flow graph",
     "loop body for an arbitrary leg, plus removal bookkeeping for every column position")
prop("P20", "The gyro filter fuses and forwards every usable sample exactly once",
     "Each fusion is the Kalman update of the rate/bias estimate with the sample expressed in the IMU frame, and emits exactly one copy of the source IMU sample with only its angular velocity (and time stamp) replaced; the sample it used is removed from its queue exactly once, and the earlier of two pending samples is used first.",
     "histories inputs", "all sample sequences and sensor combinations",
     "the gyro filter has no tests",
     [EKF], [("AngVelFilterCorrect*, *Correction, GyroPropagate", EKF)],
     "normal-form equality and event analysis on value-flow graphs",
     "one filter step for every propagation and correction method")
prop("P21", "Leg Jacobians are the derivatives of leg positions, leg by leg",
     "For every leg and every joint configuration, the velocity Jacobian equals the derivative of the foot position with respect to the joint angles, depends only on that leg's joints, and is stored in that leg's slot together with its own position; left and right legs are mirror images and hind legs are front legs shifted along the body; the initial body velocity offered to the filter is that of a stance leg (-J dq - w x p), zero without contact.",
     "inputs", "all joint angles and legs",
     "tests compare a few joint configurations",
     [MC, "src/kinematics/robots/mini_cheetah"], [("generated kinematics and leg mapping", MC)],
     "trigonometric-polynomial normal forms with derivation rules",
     "exact derivative up to printed coefficient rounding (1e-9)")
prop("P22", "Measurement containers return what was stored and carry the right type",
     "Every measurement container reports the type it represents, returns exactly the values last stored in it (with quaternion order w,x,y,z), and rejects quaternions whose norm is off by more than the tolerance without modifying the stored value.",
     "inputs", "all stored values and constructors",
     "tests sample a few values and not all constructors",
     ["include/drift/measurement", "src/measurement"], [("constructors, setters, getters", "include/drift/measurement/impl")],
     "value-flow equality of getter after setter",
     "every container, constructor, setter and getter")
prop("P23", "Configuration values reach the quantity they configure",
     "Each optional configuration entry is tested for presence under the same key it is read from, falls back to its default otherwise, and is used for its own quantity: standard deviations are squared exactly once, quaternions are read in w,x,y,z order, and vectors in x,y,z order.",
     "configurations", "all configuration files, with any subset of keys present",
     "tests load one or two configuration files in which most values equal the defaults",
     [PROP, VEL, LEG, EKF, EST], [("constructors reading YAML", PROP + ", " + VEL + ", " + LEG + ", " + EKF + ", " + EST)],
     "provenance of constructed members on value-flow graphs",
     "every configuration read of every constructor")
prop("P24", "Shipped configuration files provide what the code reads, with fitting types",
     "Every mandatory entry read by the code exists in the shipped configuration files, every entry that the code reads has a value of the type and length it is read as, and every entry of such a file is one the code reads, so that nothing a user sets is silently ignored.",
     "configurations", "all shipped configuration files",
     "tests load only the files under config/test",
     ["config", "ROS/drift/config"], [("YAML reads", PROP + ", " + VEL + ", " + LEG + ", " + EKF + ", " + EST)],
     "cross-check of extracted configuration schema against shipped files",
     "all shipped YAML files whose role is known")
prop("P25", "The pose log is in TUM format, rate-limited, and only in the configured files",
     "Each logged pose line is time, position x y z and quaternion x y z w of one snapshot in the world frame; lines are written only when at least one log period has passed since the last logged one, in the order of the snapshots, and only into the configured files.",
     "histories configurations", "all snapshots, rates and file names",
     "no test enables the logger",
     [EST], [("PoseLoggingThread", EST)],
     "output-sequence and gate analysis on the value-flow graph",
     "all stream writes of the logger thread")
prop("P26", "Nothing is read before it has a defined value",
     "Every data member that any operation reads has been given a value by every constructor or by its initialiser, and no local variable is read uninitialised.",
     "histories configurations", "all constructors followed by any operation",
     "indeterminate values often happen to be zero in tests",
     ["include/drift", "src"], [("constructors and default member initialisers", "include/drift")],
     "definite-initialisation dataflow over constructors",
     "scalar and raw Eigen members of all library classes")
prop("P27", "Public headers can be included from any number of translation units",
     "Every public header is self-contained, can be included repeatedly and next to all others in any order, defines no non-inline function or variable with external linkage, and declares no public function that is defined nowhere.",
     "programs", "all programs that include the headers in several translation units",
     "each test is a single translation unit",
     ["include/drift"], [("header definitions", "include/drift/measurement/impl")],
     "syntax-tree lint over all public headers",
     "all headers under include/drift")
prop("P28", "Static bias initialisation averages gravity-compensated body-frame samples",
     "With static initialisation enabled, bias initialisation consumes one sample per call until the configured number is reached and then sets the biases to the mean of the body-frame rates and gravity-compensated accelerations; otherwise the configured priors are used at once. The gyro filter's initial bias follows the same rule.",
     "histories inputs", "all sample sequences and configurations",
     "no test initialises biases from data",
     [PROP, EKF], [("InitImuBias", PROP), ("gyro filter initialisation", EKF)],
     "normal-form equality and gate analysis on the value-flow graph",
     "one call from an arbitrary state")
prop("P29", "The ROS bridge maps messages and states field by field",
     "Every Add function of the ROS subscriber registers one callback on the given topic(s), which turns each message with long enough arrays into exactly one measurement per returned queue, holding the corresponding message fields (wheel velocities and odometry differences converted as documented, with each source's own calibration) and the message's header and time stamp, pushed complete under the mutex returned with that queue; a message whose arrays are too short, a first odometry sample, or one without elapsed time yields none and nothing is read beyond an array. The publisher takes states from the queue only under its mutex, publishes each once with its time, world position, orientation (w,x,y,z) and pose covariance in ROS order under consecutive numbers, keeps every k-th pose for the path and publishes the path when it is not empty, with rates and topics from the configuration; members shared by its threads are guarded and both threads end with ROS and are joined.",
     "inputs schedules histories", "all messages, array lengths, callback interleavings and rates",
     "the ROS code is neither built nor tested here",
     ROSP, [("callbacks", "ROS/drift/src/communication/ros_subscriber.cpp"), ("publishing threads", "ROS/drift/src/communication/ros_publisher.cpp")],
     "gated value-flow analysis of every registered callback and publishing thread: field mapping, lock sets, array bounds per array length",
     "all Add functions, both constructors, all callbacks and threads, parsed against declarations of the ROS interface")
prop("P31", "Matrix expressions never dangle or alias, element references stay valid",
     "No lazily evaluated matrix expression outlives a temporary or local it refers to or is evaluated after an operand changed, no assignment or comma initialiser reads coefficients of its destination that it has already overwritten at another position, noalias() is used only where the destination is no operand, and no reference, view or iterator into a container or matrix is used after that was resized, emptied or erased from.",
     "inputs histories", "all dimensions, values and container sizes",
     "dangling, stale or aliased reads often return the old value in practice, depending on size, vectorisation and capacity",
     ["src", "include/drift"], [("auto-typed expressions, block assignments", EKF + ", " + RS), ("iterators and element references", LEG + ", " + EST)],
     "syntax-directed dataflow over the type-resolved syntax tree: lifetimes and invalidation of expression templates, views, references and iterators",
     "every function body of the library and of the instantiated headers")
prop("P32", "World and body views of the state are consistent inverses of each other",
     "The inverse of the state matrix has R^T and -R^T x columns, and every world-/body-frame view returns the stored quantity when the state uses that convention and its correctly rotated counterpart otherwise.",
     "inputs configurations", "all states, conventions and augmentation counts",
     "tests only use the stored convention",
     [RS], [("get_world_*, get_body_*, get_Xinv", RS)],
     "normal-form equality of value-flow expressions",
     "all view accessors for every convention and augmentation count")
prop("P37", "Wheel-odometry baseline dead-reckons each measurement pair once",
     "A step of the wheel-odometry baseline removes the oldest measurement of both queues when both have one, each under its own mutex, and changes nothing otherwise; no mutex is held afterwards. The first pair only sets the time; every later pair moves the pose to R Exp(w dt), R v, p + R v dt with dt the time since the previous pair, keeps it in SE_2(3), and sets the time to the velocity's stamp. With logging enabled, each pose at least one log period after the last logged one is written as one line (time, x y z, qx qy qz qw) with enough digits to the configured file (extension replaced by .txt); nothing else is written, and nothing is read before it has a value.",
     "inputs histories", "all poses, measurements, increasing positive time stamps and log rates",
     "the baseline is not built or tested here",
     ["baselines"], [("step, integration, log", "baselines/src/wheel_odometry/wheel_odometry.cpp")],
     "gated value-flow analysis of the constructor and of successive steps from an arbitrary pose, compared with the dead-reckoning equations",
     "constructor and RunOnce with everything they call; incomplete queues of up to three, four successive pairs, logging on and off")
prop("P38", "Shipped programs wire sensors, filters and publishers consistently",
     "In every shipped program each queue is handed over with the mutex it was obtained with; each queue that is filled has exactly one consumer (none drained twice, none growing without bound, the estimator's output included); every named configuration file exists and is one for that component, and every entry the program or its publisher reads without a fallback exists there with the right type; every thread is started once, after all it works on was added; and while ROS runs, an enabled estimator does one step per round, a disabled one initialises its state once the biases are known and the biases before that.",
     "inputs histories", "all programs under ROS/drift/examples and ROS/drift/baselines, with the files they name",
     "the programs are neither built nor tested here",
     ["ROS/drift/examples", "ROS/drift/baselines", "ROS/drift/config", "config"], [("main functions", "ROS/drift/examples/*.cpp, ROS/drift/baselines/*.cpp")],
     "evaluation of every main function over recorders of the library's interface: pairing, consumers, files, entries and the loop's case table",
     "all main functions, parsed against declarations of the ROS interface")
prop("P33", "Filter estimates converge to and stay near the truth",
     "On any sufficiently exciting trajectory the estimated orientation, velocity and position errors stay within the reported covariance.",
     "histories inputs", "all trajectories and noise realisations", "tests run one short recorded trajectory",
     [PROP, INEKF], [("the filter as a whole", INEKF)], "", "")
prop("P34", "Numerical health: rotations stay orthonormal and covariances well conditioned",
     "Over arbitrarily long runs rounding errors never make rotations leave the rotation group noticeably or covariances lose definiteness.",
     "histories inputs", "arbitrarily long runs", "tests run a few steps", [PROP, INEKF], [("floating-point updates", INEKF)], "", "")
prop("P35", "Data is processed in real time",
     "The filter keeps up with sensor rates: queues stay bounded and every published state is at most a bounded time behind the newest sample.",
     "schedules histories", "all arrival rates and machine loads", "tests do not measure time", [EST], [("RunOnce loop", EST)], "", "")
prop("P36", "Logged poses survive a crash",
     "Every snapshot published before a crash with logging enabled is found in the log file afterwards, up to the configured rate.",
     "crash_points", "a crash at any instant", "no test crashes the process", [EST], [("flushed stream writes", EST)], "", "")

NA = {
    "P33": "quantifies over runtime trajectories, noise and excitation; no sound static argument bounds estimation error (its algebraic ingredients are P14-P18)",
    "P34": "quantifies over accumulated floating-point rounding over unbounded runs; only the exact-arithmetic structure (P11) is visible in the source",
    "P35": "timing and scheduling of the host are not decidable from the source",
    "P36": "depends on the operating system's buffering and the log thread's progress at the crash instant; not visible in the shape of the code",
}


def main():
    from sa import registry
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in registry.CHECKS:
            c = "python3-vt /verif/tool/check.py %s --tier " % p["id"]
            checks.append({"property": p["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                           "technique": "static analysis: " + p["tech"], "level": registry.CHECKS[p["id"]]["level"],
                           "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "not claimed yet: check under construction")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash /verif/tool/build_tool.sh", "checks": checks, "not_applicable": na,
                   "notes": "see DESIGN.md; genuine defects are listed in known_findings.txt"}, f, indent=1)
        f.write("\n")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
    if s:
        for ln in open(os.path.join(V, "properties.jsonl")):
            jsonschema.validate(json.loads(ln), s)
        jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid", len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
