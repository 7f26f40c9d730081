prop(
    "C01",
    "Operations start exactly where their timing constraints put them",
    "After timing a schedule, every operation starts exactly where each of its timing constraints "
    "(reference operation, reference points, relative time, attached delay) puts it, or at the latest of "
    "them if it has several; nothing starts before time zero and something starts at zero. The schedule "
    "duration is the end of its last operation, a loop lasts count times its body and a conditional its "
    "body plus the buffer time. This also holds inside nested schedules, and when a schedule is timed or "
    "used more than once.",
    ["schedules", "histories"],
    "All operation durations and relative times on the 1 ns grid up to 1 ms, every combination of reference "
    "operation and points over 2-4 operations, both scheduling strategies, nested schedules, loops, "
    "conditionals, shared sub-schedules, repeated timing.",
    "Unit tests time a handful of schedules with fixed numbers; the guarantee is over all durations, "
    "offsets, reference choices and nesting.",
    ["compilation.py", "schedules/schedule.py", "operations/control_flow_library.py", "operations/operation.py"],
    [
        ("constraint resolution", "compilation._determine_absolute_timing"),
        ("normalisation to t>=0", "compilation._normalize_absolute_timing"),
        ("duration", "Schedule.get_schedule_duration"),
    ],
    note="Exhaustive over paths and values within the bounds in evidence (2-4 operations, 1 ms); floats over-approximated.",
)
prop(
    "C02",
    "Digital outputs and RF switches are on exactly while they should be",
    "A digital output, or an RF switch, is on from the start to the end of every digital pulse on it and off at every "
    "other instant, in every order of adding, in loops, sub-schedules and repetitions; the outputs that are always on "
    "stay on. With automatic RF switching, the switch is on from the buffer time before to the buffer time after every "
    "pulse or offset of a microwave port, and off when nothing is played.",
    ["schedules", "inputs"],
    "One and two digital pulses of 4..9000 ns (or 70 us) with gaps of 0 or 4..9000 ns on QCM, QRM, QCM-RF, QRM-RF and "
    "QTM, every instant; automatic switching around one to three pulses and offsets in loops and sub-schedules.",
    "Tests compare the instructions of a few fixed pulses; the state of an output at every instant follows from all "
    "of the instructions before it.",
    ["backends/qblox/operation_handling/pulses.py", "backends/qblox/compiler_abc.py", "backends/qblox/auto_rf_switch.py"],
    [("outputs", "DigitalOutputStrategy, MarkerPulseStrategy, DigitalPulseStrategy"), ("switches", "auto_rf_switch.auto_rf_switch_dressing")],
    note="Where a loop leaves no room to switch inside its body, the switch may be on for as long as the loop lasts. Gaps "
    "between automatic windows shorter than the 4 ns grid of the instrument are not covered.",
)
prop(
    "C03",
    "The samples of every pulse are those of its documented shape",
    "Whatever its amplitudes, every pulse of the library (square, ramp, staircase, soft square, chirp, Gaussian, DRAG, "
    "sudden net zero, skewed Hermite, numerical) has one sample for every ns of its duration, and each of them is the "
    "value of the documented formula at that time; the integral of a sudden net zero pulse is zero.",
    ["inputs"],
    "Durations of 4 to 62 ns, any amplitudes in [-1, 1] (ascending and descending), several phases, widths, step "
    "numbers, frequencies and proportions, every sample.",
    "Tests compare the samples of one pulse of each kind with stored numbers.",
    ["waveforms.py", "operations/pulse_library.py", "helpers/waveforms.py", "backends/qblox/helpers.py"],
    [("shapes", "waveforms.square, ramp, staircase, soft_square, chirp, drag, sudden_net_zero, skewed_hermite, interpolated_complex_waveform")],
    note="Durations, phases, widths and frequencies are from lists, amplitudes are symbolic: exponentials and sines of "
    "symbolic arguments are outside linear arithmetic.",
)
prop(
    "C04",
    "The compiled programs play exactly the scheduled signal at every instant",
    "At every nanosecond of a compiled schedule, the signal put out on every connected output is the one the "
    "schedule asks for (pulse shape, amplitude, start, length, silence elsewhere), to within the resolution of "
    "the instrument. The compiled program takes exactly as long as the schedule, on every sequencer, so that "
    "all outputs stay aligned. ",
    ["schedules", "inputs"],
    "All pulse amplitudes in [-1, 1], gaps and durations on the 1 ns grid within the bounds of the evidence, "
    "every instant of the schedule (the instant is a solver variable), one and several sequencers.",
    "Tests compare program text for fixed schedules; whether the executed program yields the right signal at "
    "every instant for every gap, duration and amplitude is never run.",
    [
        "backends/qblox/compiler_abc.py",
        "backends/qblox/qasm_program.py",
        "backends/qblox/operation_handling/pulses.py",
        "operations/pulse_factories.py",
        "backends/qblox/operation_handling/factory_analog.py",
        "backends/qblox_backend.py",
    ],
    [
        ("program generation", "SequencerCompiler.generate_qasm_program"),
        ("waveform and gain", "operation_handling.pulses.GenericPulseStrategy"),
        ("waits", "QASMProgram.auto_wait"),
    ],
    note="Signal at a symbolic instant, symbolic gaps/amplitudes/durations; bounded number of pulses.",
)
prop(
    "C05",
    "Every acquisition happens on time and returns under its own channel and index",
    "Every acquisition of a schedule is executed at its scheduled time, once in every loop iteration and "
    "repetition, into a place in the instrument memory that no other acquisition overwrites (averaged ones "
    "accumulate in one place). After the experiment, the value measured at that place is returned under the "
    "acquisition's channel, at the index given by the order of the acquisitions on that channel, for the "
    "right repetition in append mode. Exactly the channels of the schedule come back.",
    ["schedules", "inputs"],
    "Gaps 4..60000 ns, arbitrary measured values, layouts with several channels, loops, nested loops and "
    "sub-schedules, append and average, integration, weighted, thresholded and trigger-count protocols.",
    "Tests compare fixed programs and fixed dummy data; that time, bin, channel and index agree end to end "
    "is not settled by any of them.",
    [
        "helpers/generate_acq_channels_data.py",
        "backends/qblox/acquisitions.py",
        "backends/qblox/operation_handling/acquisitions.py",
        "backends/qblox/qblox_acq_index_manager.py",
        "instrument_coordinator/components/qblox.py",
    ],
    [
        ("channel data", "helpers.generate_acq_channels_data"),
        ("bins", "QbloxAcquisitionIndexManager"),
        ("retrieval", "_AnalogModuleAcquisitionManager.retrieve_acquisition"),
    ],
    note="Fake instrument returns symbolic values; times and bins from interpreting the compiled program.",
)
prop(
    "C06",
    "Loops and repetitions play their body exactly as often as asked, back to back",
    "A loop plays its body exactly the given number of times, every iteration starting exactly one body "
    "length after the one before, and the operations after it start where the last iteration ends; the same "
    "holds for nested loops, sub-schedules in loops and schedule repetitions. All sequencers take the same "
    "time, also those that have nothing to play in the loop.",
    ["schedules"],
    "Trees of loops, sub-schedules, pulses and pauses up to depth 3, loop counts up to 17, gaps 4 ns to 200 us, "
    "1-3 repetitions, two sequencers.",
    "Tests pin program text of a few loops; the played times for every gap and count are not executed.",
    [
        "operations/control_flow_library.py",
        "backends/qblox/qasm_program.py",
        "backends/qblox/compiler_abc.py",
        "compilation.py",
    ],
    [
        ("loop", "QASMProgram.loop"),
        ("control flow insertion", "SequencerCompiler._parse_operations"),
        ("flattening", "compilation.flatten_schedule"),
    ],
    note="Times are symbolic, layouts and counts are enumerated within the stated bounds.",
)
prop(
    "C07",
    "A conditional plays its body exactly when its outcome says so, in the same time",
    "A conditional plays its body in exactly those executions in which the acquisition it refers to gave the "
    "positive outcome, and nothing of it otherwise. Whichever the outcome, everything after the conditional "
    "happens at the same time, and the same time as on all other sequencers. Each acquisition label has its "
    "own trigger address, and the latched outcome is cleared for every acquisition it depends on.",
    ["schedules", "histories"],
    "Conditionals in and around loops, sub-schedules and several labels, every outcome of every acquisition, "
    "gaps 4..60000 ns, bodies up to more than 65 us.",
    "Tests look at the program text of fixed schedules; the duration of both branches for all bodies and "
    "outcomes is not executed.",
    [
        "backends/qblox/conditional.py",
        "backends/qblox/qasm_program.py",
        "backends/qblox_backend.py",
        "operations/control_flow_library.py",
    ],
    [
        ("branches", "QASMProgram.conditional"),
        ("latch reset", "qblox_backend._insert_latch_reset"),
        ("addresses", "qblox_backend._set_conditional_info_map"),
    ],
    note="A skipped timed instruction is taken to last the else duration, as the instrument documents.",
)
prop(
    "C08",
    "Whatever compiles is a program the instrument accepts and can run to its end",
    "If a schedule compiles, every program it yields only contains instructions whose operands are within the "
    "ranges of the instrument (waits of at least 4 ns and at most 65535 ns, gains, offsets, phases, "
    "frequencies), reads only registers that were written, refers only to waveforms, weights, acquisitions and "
    "bins that are declared and fit the memories, and stops.",
    ["inputs", "schedules"],
    "Waits up to 400 us, nested loops up to depth 5, conditionals, acquisitions of several protocols in loops, "
    "all amplitudes/offsets in [-1, 1], phases and NCO frequencies in the accepted range.",
    "The assembler is not part of the tests, so an operand that leaves its range for particular values goes unnoticed.",
    [
        "backends/qblox/qasm_program.py",
        "backends/qblox/register_manager.py",
        "backends/qblox/operation_handling/pulses.py",
        "backends/qblox/operation_handling/virtual.py",
        "backends/qblox/helpers.py",
        "backends/qblox/analog.py",
    ],
    [
        ("waits", "QASMProgram.auto_wait"),
        ("registers", "RegisterManager"),
        ("gain and offset", "QASMProgram.expand_awg_from_normalised_range"),
        ("NCO arguments", "helpers.get_nco_phase_arguments / get_nco_set_frequency_arguments"),
    ],
    note="Operand ranges from the instrument documentation; program is interpreted to its end.",
)
prop(
    "C10",
    "Every pulse is carried by its clock's frequency and accumulated phase",
    "Under every pulse the phase of its carrier is the sum of the phase shifts applied to its clock since the "
    "last phase reset (or start of the repetition), and its frequency is the one last set for its clock; "
    "operations on another clock of the same port change neither. With a local oscillator (of an RF module or "
    "external) the LO and NCO frequencies add up to the clock frequency (behind a downconverter: to the "
    "downconverter frequency minus it), whichever of the two was given, also after the clock frequency changes.",
    ["schedules", "inputs"],
    "Phases +-800 degrees, clock frequencies, LO/IF frequencies and frequency changes over their whole range, "
    "sequences of up to 8 operations, loops and repetitions, two clocks on a port.",
    "Tests compare instruction text for fixed phases and frequencies; accumulated phase and frequency of every "
    "pulse for all values, sequences and loops are not checked.",
    [
        "backends/qblox/operation_handling/virtual.py",
        "backends/qblox/helpers.py",
        "backends/qblox/analog.py",
        "operations/pulse_library.py",
        "compilation.py",
    ],
    [
        ("NCO strategies", "operation_handling.virtual"),
        ("LO/IF", "helpers.determine_clock_lo_interm_freqs"),
        ("frequency assignment", "RFModuleCompiler.assign_frequencies"),
    ],
    note="Initial NCO frequency 0 (which switches the NCO off, documented) is excluded with an LO.",
)
prop(
    "C11",
    "Pulse compensation zeroes the integral of each port and changes nothing else",
    "Around the body of a PulseCompensation, the baseband pulses of every port it names integrate to zero, "
    "including one square pulse that is added for the port: it starts exactly when the last pulse of the body on that "
    "port ends, is at baseband, is no stronger than allowed for the port and lasts a multiple of the time grid. "
    "The body is played as without compensation, other ports and other clocks get no pulse, and what follows starts "
    "when body and compensation have ended. This holds for bodies with loops, sub-schedules and compensated blocks, "
    "in loops, for every scheduling strategy, and with the settings of the device elements.",
    ["inputs", "schedules"],
    "Pulse amplitudes and pauses symbolic, two ports with different limits, nested blocks and loops of 3, both "
    "scheduling strategies.",
    "Tests compensate fixed schedules; zero integral, limits and non-overlap hold for all amplitudes and structures.",
    ["pulse_compensation.py", "operations/pulse_compensation_library.py", "helpers/waveforms.py", "backends/circuit_to_device.py"],
    [
        ("compensation pulse", "pulse_compensation._determine_compensation_pulse"),
        ("integral", "helpers.waveforms.area_pulse"),
        ("insertion", "pulse_compensation.process_compensation_pulses"),
    ],
    note="Integrals that are neither zero nor above 0.01 ns are excluded in the flat harness (rounding).",
)
prop(
    "C12",
    "Latency corrections shift each output by its own correction, and nothing else",
    "For any two port-clocks, the starts of their programs are shifted against each other by exactly the "
    "difference of the latency corrections given for them (0 if none is given), whatever the other corrections "
    "are. The correction moves a schedule as a whole: everything inside it keeps its time, in every "
    "repetition the shift is the same, and no program has to start before time zero.",
    ["inputs", "schedules"],
    "Corrections of one to three port-clocks, positive and negative, up to 300 us (or fractions of a nanosecond up "
    "to 500 ns), two repetitions.",
    "Tests compile a single set of corrections; the relation between outputs must hold for every set, sign and size.",
    ["backends/corrections.py", "backends/qblox/compiler_abc.py", "backends/qblox/qasm_program.py", "backends/qblox_backend.py"],
    [
        ("relative corrections", "corrections.determine_relative_latency_corrections"),
        ("delay of the program", "SequencerCompiler.generate_qasm_program"),
    ],
    note="Fractions of a nanosecond are rounded by the instrument's grid (within 1 ns).",
)
prop(
    "C13",
    "A time the instrument cannot realise is refused, never silently moved",
    "Whatever real times a schedule asks for, either compilation raises, or every pulse and acquisition happens, and "
    "lasts, within the documented tolerance (1 ps) of the time asked for, also in loops and sub-schedules, and the schedule "
    "lasts as long as asked for. Times on the 1 ns grid are always accepted.",
    ["inputs", "schedules"],
    "Any real gaps up to 3 us, or around half a second, before pulses and acquisitions, in loops and sub-schedules; any "
    "real durations around 40, 200 and 1001 ns of square pulses, ramps, acquisitions of every kind and marker pulses.",
    "Tests try a few off-grid times; whether rounding errors of several operations can add up unnoticed is not "
    "decided by samples.",
    ["backends/qblox/helpers.py", "backends/qblox/qasm_program.py", "backends/qblox/compiler_abc.py", "compilation.py"],
    [("grid", "helpers.to_grid_time / is_multiple_of_grid_time"), ("waits", "QASMProgram.auto_wait")],
    note="Checked with a tolerance of 1.2 ps, as the code adds 0.1 ps of slack.",
)
prop(
    "C15",
    "Measured data come back as the quantity each acquisition protocol promises",
    "What the instrument measured is returned as documented: the mean of the samples for integrated acquisitions "
    "(whatever their duration), the pair of weighted integrals or their sum for weighted ones, the thresholded bit "
    "(or -1 if there is none), trigger counts, summed over the repetitions in sum mode, their distribution in "
    "distribution mode, the comparison of the count with the threshold, time tags in nanoseconds relative to their "
    "reference, and traces with exactly the samples of the connected input. Each value stays with its own "
    "acquisition, repetition and coordinates.",
    ["inputs", "histories"],
    "Arbitrary measured values and integration lengths, missing values, one to three acquisitions, several "
    "repetitions, every protocol and bin mode of baseband and RF readout modules and of the time tagger.",
    "Tests convert a few recorded results; the conversion must be right for every value the instrument can return.",
    ["instrument_coordinator/components/qblox.py", "instrument_coordinator/utility.py", "backends/qblox/timetag.py"],
    [
        ("conversion per protocol", "_QRMAcquisitionManager / _QTMAcquisitionManager"),
        ("bins to acquisitions", "_AcquisitionManagerBase._get_binned_data"),
        ("time tag windows", "_QTMAcquisitionManager._get_timetag_trace_data"),
    ],
    note="Format of raw data as in the qblox-instruments documentation; the instrument itself is a stand-in.",
)
prop(
    "C16",
    "Prepared instruments have the compiled settings, whatever they did before",
    "After prepare, every sequencer and output used by a program has the settings its compiled instructions "
    "ask for: attenuation, gain, offsets, LO and NCO frequency, mixer corrections, thresholds, rotation, integration "
    "length, trigger network, and time tagger input levels. This holds no matter which programs ran before, and "
    "settings an earlier program needed but this one does not (another program's trigger output, mixer mode) "
    "are not left active. Hardware options given for one port-clock survive other port-clocks on the same output. "
    "Automatic mixer calibrations run if the relevant frequencies changed, and their result is kept.",
    ["inputs", "histories"],
    "Any two programs one after another with arbitrary hardware options, on each module type; any threshold, "
    "rotation and duration of thresholded acquisitions; any option given or absent.",
    "The component caches what it wrote: whether a stale setting survives depends on the pair of programs, and tests run "
    "one program with one set of options.",
    [
        "instrument_coordinator/components/qblox.py",
        "backends/types/qblox.py",
        "backends/qblox/analog.py",
        "backends/qblox/instrument_compilers.py",
        "backends/qblox_backend.py",
    ],
    [
        ("settings from options", "extract_settings_from_mapping"),
        ("writing them", "_ModuleComponentBase.prepare / _set_parameter"),
        ("cache", "lazy_set / base.InstrumentCoordinatorComponentBase"),
    ],
    note="The instrument is a stand-in which records parameters. Conflicting LO frequencies for one output are out of scope, as are QRC mixer offsets.",
)
prop(
    "C19",
    "Software distortion corrections filter each pulse of a port-clock exactly once",
    "With a software distortion correction for a port-clock, every pulse on it is played as the given filter "
    "function maps its samples, limited to the clipping values (up to interpolation between neighbouring samples), "
    "starting and ending when the uncorrected pulse would. Every pulse is filtered once, however often its operation "
    "or schedule is used, in loops and sub-schedules. Pulses on other port-clocks stay as they are and the schedule "
    "takes as long as without corrections.",
    ["inputs", "schedules"],
    "Amplitudes symbolic, every nanosecond of every pulse, operations and schedules used more than once, one or both "
    "port-clocks corrected, clipping.",
    "Tests correct fixed pulses of schedules in which every operation is used once.",
    ["backends/corrections.py", "backends/qblox_backend.py", "helpers/waveforms.py"],
    [
        ("traversal", "corrections.apply_software_distortion_corrections"),
        ("filtering", "corrections.distortion_correct_pulse"),
    ],
    note="The filter is a three-tap FIR with a first sample of its own, so that waveforms keep a concrete maximum.",
)
prop(
    "C20",
    "The schedules of the library play the experiments they document",
    "The T1, Ramsey, echo, CPMG, AllXY, Rabi, readout calibration, chevron, spectroscopy, trace and staircase schedules "
    "play exactly the documented pulses and acquisitions, each at its documented time, with the amplitudes, frequencies, "
    "phases, channels, indices and repetitions asked for, for a single point and for several.",
    ["inputs"],
    "Up to three points, any waiting times up to 100 us (or multiples), amplitudes in [-1, 1], frequencies up to 9 GHz, any "
    "device parameters (reset, amplitudes, readout and acquisition times, delays).",
    "Tests compare the labels and a few times of one example of each.",
    ["schedules/timedomain_schedules.py", "schedules/spectroscopy_schedules.py", "schedules/trace_schedules.py", "schedules/two_qubit_transmon_schedules.py", "schedules/verification.py"],
    [("schedules", "all schedule functions of these modules but the NV-centre and deprecated ones")],
    note="The artificial detuning is from a list. The loop of a CPMG schedule starts 4 ns later, as its code documents.",
)
prop(
    "C22",
    "Circuits become the pulses, phases and times the device parameters prescribe",
    "A rotation by theta around an axis phi is compiled to a pulse on the port and clock of its qubit, with amplitude "
    "amp180 * theta / 180 and the phase of phi plus all virtual rotations before it (and no later ones); virtual "
    "rotations and the phase corrections of a CZ accumulate on the clock of the right qubit, merged or not, and H and "
    "CNOT decompose accordingly. A measurement plays its readout pulse and acquires after its delay for its integration "
    "time, on its own channel and index; the next operation starts when the measurement is over, or without "
    "waiting for the acquisition delay if asked to. Resets take the longest of their qubits. Overrides given to one gate "
    "(amplitude, duration, delay, frequency) hold for that gate only.",
    ["inputs", "schedules"],
    "Any angles, amplitudes, motzoi parameters, phase corrections, readout times and overrides; circuits of up to 6 gates "
    "on one or two qubits, transmon and spin.",
    "Tests compile a few circuits with round numbers; accumulated phase, merging and times must be right for every "
    "circuit and parameter.",
    [
        "backends/circuit_to_device.py",
        "compilation.py",
        "operations/gate_library.py",
        "operations/pulse_factories.py",
        "operations/measurement_factories.py",
        "operations/composite_factories.py",
        "device_under_test/transmon_element.py",
        "device_under_test/spin_element.py",
        "device_under_test/composite_square_edge.py",
        "device_under_test/quantum_device.py",
    ],
    [
        ("gate to pulse", "circuit_to_device._compile_circuit_to_device"),
        ("merging of virtual rotations", "compilation._merge_rz_gates"),
        ("readout", "measurement_factories._dispersive_measurement"),
    ],
    note="Rz(theta) shifts the clock by +theta, as the phase_shift factory documents; see the known finding on its sign.",
)
prop(
    "C23",
    "Every operation of a schedule keeps its own parameters",
    "However similar two operations of a schedule are (including values whose Python hashes collide, in loops and "
    "sub-schedules of the same name), each is compiled with its own amplitude, duration, phase, frequency, offset, "
    "threshold or rotation.",
    ["inputs", "schedules"],
    "Any two or three values in [-3, 3] of any of ten parameters, equal or not, alone, in loops or in schedules.",
    "Operations are stored under a hash of their contents; a collision depends on the pair of values, which tests "
    "do not search for.",
    ["helpers/collections.py", "operations/operation.py", "schedules/schedule.py", "operations/control_flow_library.py"],
    [("hash of contents", "helpers.collections.make_hash"), ("operations by hash", "ScheduleBase._add")],
    note="Python's hash of numbers is taken to be one to one within the bounds except for -1 and -2.",
)
prop(
    "C17",
    "Compiling depends on nothing compiled before and alters nothing it is given",
    "A schedule compiles to the same programs, settings and memories whatever was compiled before with the same "
    "compilation configuration, however often it is compiled itself, and also after it was compiled as part of another "
    "schedule. Compiling leaves the schedule, its sub-schedules and the device configuration as they were, and results "
    "obtained earlier are not altered.",
    ["histories", "schedules"],
    "Programs with loops, conditionals, frequency changes, long pulses, acquisitions, RF modules and external LOs, and "
    "circuits with overrides; any amplitudes, gaps, frequencies, corrections; histories of two or three compilations.",
    "Tests compile one schedule with a fresh configuration; state that leaks from one compilation to another needs a "
    "history to show.",
    ["backends/graph_compilation.py", "backends/qblox_backend.py", "backends/circuit_to_device.py", "backends/qblox/compiler_container.py", "compilation.py"],
    [("working copy of the schedule", "SerialCompiler._compilation_func"), ("hardware compilation", "qblox_backend.hardware_compile")],
)
prop(
    "C09",
    "Pulses that overlap on one port and clock add up",
    "Where pulses of a schedule overlap on the same port and clock, the output is their sum at every instant, and "
    "nothing else of the schedule moves; also inside sub-schedules and loops.",
    ["schedules", "inputs"],
    "Two and three square and user-defined pulses in every order of overlap (nested, staggered, same start, same end, "
    "equal), boundaries 8, 13 or 104..3000 ns apart, any amplitudes whose sum stays within range, every instant.",
    "Tests check a few overlaps by their operations; which samples are played at each instant for every pair of "
    "amplitudes and offsets is not.",
    ["backends/qblox/stack_pulses.py", "backends/qblox_backend.py"],
    [("stacking", "stack_pulses._construct_pulses_by_interval, _stack_square_pulses, _stack_arbitrary_pulses")],
    note="Overlaps between a pulse and the contents of a sub-schedule or loop beside it are a known finding.",
)
prop(
    "C18",
    "With crosstalk compensation every port receives what the schedule asks for",
    "If crosstalk between port-clocks is given, the signals put out are such that, after the crosstalk, each port "
    "receives exactly the pulses scheduled for it and a silent port receives nothing, whether pulses are alone, "
    "repeated, overlapping, in loops or in sub-schedules; port-clocks without crosstalk are not affected.",
    ["schedules", "inputs"],
    "Two and three coupled ports with several crosstalk matrices, amplitudes in [0.05, 0.3], pulses and gaps of "
    "104..2000 ns, ramps with offset and numerical pulses, every instant.",
    "Tests compare the amplitudes of one or two compensated operations.",
    ["backends/qblox/crosstalk_compensation.py", "backends/qblox/stack_pulses.py"],
    [("compensation", "crosstalk_compensation.crosstalk_compensation")],
    note="The crosstalk matrices are fixed numbers (matrix inversion is done by numpy); amplitudes and times are symbolic.",
)
prop(
    "C24",
    "Schedules and devices mean the same after being written to JSON and read back",
    "A schedule read back from JSON compiles to the same programs and settings as the one written, a compiled schedule "
    "read back puts the instrument in the same state and returns the acquired data in the same places, and a quantum "
    "device read back has the same elements, edges, parameters and compilation configuration. Writing leaves the object "
    "as it was, and it makes no difference if it is done twice.",
    ["schedules", "inputs"],
    "Operations of every kind and numeric type, nested schedules, loops, conditionals and circuits with symbolic "
    "arguments; every acquisition kind with any acquired values; device elements and edges of every type with any value "
    "of every numeric parameter.",
    "Tests write a few examples and compare some fields; whether a schedule read back does the same needs everything "
    "that depends on it to be compared, for all values.",
    ["json_utils.py", "schedules/schedule.py", "operations/operation.py", "device_under_test/quantum_device.py", "device_under_test/device_element.py", "device_under_test/edge.py"],
    [
        ("encoding", "json_utils.SchedulerJSONEncoder / SchedulerJSONDecoder"),
        ("states", "__getstate__ / __setstate__ of Schedule, CompiledSchedule, Operation, Resource; __json_getstate__ of DeviceElement, Edge, QuantumDevice"),
    ],
    note="Symbolic numbers pass through the text as tokens: that Python's json prints and parses a float exactly is taken for granted.",
)
prop(
    "C30",
    "Zurich Instruments programs play the scheduled waveforms at the scheduled times",
    "For schedules compiled for Zurich Instruments hardware, the generated sequencer code plays every waveform, and "
    "triggers every acquisition, at its scheduled sample, and the settings follow the hardware options.",
    ["schedules", "inputs"],
    "All gaps, durations and amplitudes within bounds.",
    "Tests compare generated seqc text for fixed schedules.",
    ["backends/zhinst_backend.py", "backends/zhinst/seqc_il_generator.py"],
    [("program generation", "zhinst_backend.compile_backend")],
    na="The Zurich Instruments backend refuses to be imported on the Python this repository builds with here (it "
    "supports Python 3.9 only and zhinst is not installed), so its code cannot be executed, symbolically or otherwise.",
)
