"""Writes properties.jsonl (kept as a script so that the statements are easy to maintain)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })


CORE = "shepherd_core/shepherd_core/"
DATA = "shepherd_data/shepherd_data/"

prop("C01", "A recording holds exactly the history of what was appended",
     "After any sequence of writing sessions on a recording (create, append raw or SI data, leave normally or through an exception, reopen for modification) its time, voltage and current columns have equal length and hold exactly the rows of every append in call order, each append contributing as many rows as its shortest input and, when only a start time was given, timestamps spaced by the recording's sample interval. Closing may drop only the incomplete trailing buffer of recordings at the full default sample rate; nothing stored earlier is ever changed. Hostname and configuration stored in a session can be read back from the recording.",
     ["histories", "crash_points", "inputs"],
     "all interleavings of open/append/stat/close over one or two concurrently open recordings, append sizes around buffer limits, unequal input lengths, scalar and array timestamps, sessions ended by exceptions",
     "Tests append one fixed block and mostly look at sizes or that nothing raises; content after several appends, reopenings and alignment is never compared.",
     [CORE + "writer.py", CORE + "reader.py"],
     [("append_iv_data_raw/_si", CORE + "writer.py"), ("_align on exit", CORE + "writer.py"),
      ("_refresh_file_stats", CORE + "reader.py")],
     ["content of the three datasets after each session", "Reader.get_hostname/get_config"],
     [("segments", "ordered list of appended blocks", "datasets data/time, data/voltage, data/current")])

prop("C02", "Existing recordings are never overwritten or altered unasked",
     "Opening a path for writing that already holds a recording stores the new one under a fresh name unless overwriting or modifying was explicitly requested, and no other file changes. A modifying session keeps every attribute (mode, datatype, window size, calibration, hostname, configuration) that was not explicitly given and replaces exactly those that were; fresh recordings get the documented defaults. A request with an inadmissible mode, datatype or window size is refused and leaves existing recordings as they were.",
     ["histories", "configurations", "inputs"],
     "all sequences of open requests with every combination of flags, mode, datatype, window and calibration on directories holding earlier recordings",
     "Tests open a handful of paths once; they never check that neighbours and unspecified attributes survive.",
     [CORE + "writer.py"],
     [("path selection and unique_path", CORE + "writer.py"), ("mode / datatype / window / calibration handling in Writer.__init__", CORE + "writer.py"),
      ("CalibrationSeries.from_cal", CORE + "data_models/base/calibration.py")],
     ["directory listing and file digests around every call", "attributes of the recording"])

prop("C03", "Block-wise reading partitions the recording",
     "For any block size, start and end, reading a recording block by block yields exactly the consecutive, non-overlapping whole blocks inside the requested range, in order, ending before an incomplete tail. Raw reading returns the stored integers, SI reading returns value times gain plus offset of the respective column, and omitting timestamps changes nothing else. Concurrent iterations over the same recording do not influence each other, and reading never changes the file.",
     ["inputs", "schedules", "histories"],
     "all (length, block size, start, end, raw, omit) combinations and interleavings of two iterations",
     "Tests iterate once over aligned files and count blocks; content, offsets and interleavings are not compared.",
     [CORE + "reader.py"], [("read_buffers", CORE + "reader.py"), ("CalibrationPair.raw_to_si", CORE + "data_models/base/calibration.py")],
     ["values yielded by read_buffers"])

prop("C04", "The validity verdict on a file is exact",
     "A file is judged valid exactly when it has a data group, a known mode, a window size, a datatype allowed for that mode, all three columns each with gain and offset, and a positive window size if it holds iv-curves; cosmetic deficiencies (unaligned or unequal lengths, missing hostname, unusual compression, logged errors, stray window size) never make it invalid. The time-step check accepts exactly recordings whose buffers all start one nominal buffer duration apart (to within its resolution), the error count equals the number of log entries at or above the level, and the validate command fails exactly when some readable file of the set is not valid or not equidistant.",
     ["inputs", "configurations"],
     "all combinations of present/absent/ill-valued structural elements of a file, time jumps at any buffer, log levels, and sets of good and bad files",
     "Tests check a few hand-made defects one at a time.",
     [CORE + "reader.py", DATA + "cli.py"],
     [("is_valid", CORE + "reader.py"), ("check_timediffs", CORE + "reader.py"), ("count_errors_in_log", CORE + "reader.py"), ("validate", DATA + "cli.py")],
     ["Reader.is_valid(), check_timediffs(), count_errors_in_log()", "exit code of `shepherd-data validate`"])

prop("C05", "Cutting and downsampling keep range, rate and identity of the data",
     "Cutting and downsampling a recording by factor N yields a new file holding floor(range/N) rows (less an incomplete trailing buffer at the full default rate) that start at the first sample of the requested range (clamped to the reported runtime), with every N-th timestamp of it, identical values for N=1 and for N>1 preserved values of constant signals within one raw unit once the filter has settled, whatever the internal block size; fractional factors act as their whole part; mode, datatype, window size, calibration and hostname are carried over and the factor is noted. Empty, inverted or too small ranges and factors below 1 are refused, an already existing result is returned unchanged, distinct whole factors and ranges (at ms resolution) get distinct files, and the source never changes. In a batch with a target sample rate every file is reduced according to its own rate.",
     ["inputs", "histories", "configurations"],
     "all (length, start, end, factor) inside and outside the recording, repeated calls, batches of recordings with different sample rates",
     "Tests only check that an output file of the expected name appears.",
     [DATA + "reader.py", DATA + "cli.py"],
     [("downsample", DATA + "reader.py"), ("cut_and_downsample_to_file", DATA + "reader.py"), ("downsample command", DATA + "cli.py")],
     ["content, attributes and names of resulting files"])

prop("C06", "Exports are complete, faithful and never overwrite",
     "Exporting a group to csv, logs, metadata or gpio waveforms writes one row per stored entry in order, with the time first and every column converted with its own gain and offset (or untouched when raw), and reports how many entries were written. Empty groups and already existing targets produce no output, report zero and stay untouched; the recording itself never changes. A batch export covers every recording of the addressed directory (and its sub-directories only on request), and one unusable file does not prevent the others from being exported.",
     ["inputs", "histories", "configurations"],
     "all groups with arbitrary columns, with/without calibration attributes, repeated exports, directory trees with mixed files",
     "Tests run the exporters on one file and check that the target exists.",
     [DATA + "reader.py", DATA + "cli.py", CORE + "reader.py"],
     [("save_csv / save_log", DATA + "reader.py"), ("save_metadata / waveform_to_csv", CORE + "reader.py"), ("path_to_flist and extract commands", DATA + "cli.py")],
     ["exported files parsed back", "return values", "file digests"])

prop("C07", "GPIO waveforms reconstruct the recorded pin states",
     "For any recorded GPIO trace the waveform of every described pin consists of the first entry and exactly those later entries at which that pin changed, with the original timestamps in order, so that replaying it reproduces the pin's level at every recorded instant. Pins do not influence each other, pins are found by name, and a waveform written to csv carries the same steps.",
     ["inputs", "histories"],
     "all sequences of port values and timestamps, all pin numbers and name sets",
     "Tests never decode a GPIO trace with known content.",
     [CORE + "reader.py"], [("gpio_to_waveforms", CORE + "reader.py"), ("get_filter_for_redundant_states", CORE + "reader.py"), ("get_gpio_pin_num", CORE + "reader.py")],
     ["gpio_to_waveforms(), waveform csv"])

prop("C08", "UART decoding recovers every transmitted byte and line",
     "For any byte sequence sent over a UART line with matching settings (any supported frame length, one or more stop bits, LSB first without parity, inverted or not, with explicit or automatically detected baud rate and any idle gaps long enough to tell polarity) decoding its waveform yields exactly the transmitted symbols in order with the time of their start bits, and its text is their concatenation. Lines are the text split after each line feed, carriage return or CR-LF pair without losing or duplicating symbols, an unterminated rest included as last line, each stamped with its first symbol's time. Repeated queries give the same answer and the caller's data stays unmodified.",
     ["inputs", "histories"],
     "all byte strings, gap patterns, line endings, baud rates and frame settings within jitter of an eighth bit",
     "Tests decode a few recorded waveforms and compare one greeting text.",
     [CORE + "decoder_waveform/uart.py"],
     [("get_symbols", CORE + "decoder_waveform/uart.py"), ("get_lines", CORE + "decoder_waveform/uart.py"), ("edge filtering, inversion and baud detection", CORE + "decoder_waveform/uart.py")],
     ["get_symbols/get_lines/get_text"])

prop("C09", "Model inheritance resolves to the nearest explicit value",
     "Completing a model that refers to stored models (by name, id or inherit_from) yields for every field the value given explicitly, else that of the nearest ancestor on the chain that sets it, else the default, regardless of letter case of names; the chain of ancestors is reported in order. Unknown references and circular chains are refused. Stored models are never altered by completing others, so any order of queries yields the same results.",
     ["inputs", "histories", "configurations"],
     "all forests of stored models with inheritance edges (including cycles and dangling edges), all sets of explicit fields and all query orders",
     "Tests use two or three levels of the shipped fixtures and never check that stored models stay intact.",
     [CORE + "testbed_client/fixtures.py", CORE + "testbed_client/client_abc_fix.py", CORE + "data_models/base/shepherd.py"],
     [("Fixture.inheritance", CORE + "testbed_client/fixtures.py"), ("Fixture.query_id/query_name", CORE + "testbed_client/fixtures.py"), ("try_completing_model / try_inheriting_from_model", CORE + "testbed_client/client_abc_fix.py")],
     ["completed dictionaries and chains", "stored models before/after"])

prop("C10", "Only consistent experiments are admitted",
     "An experiment is accepted exactly when: every addressed target exists, is used once and is reachable over its own active observer of the testbed, the identities that get programmed (custom id, else the one derived from the target) are unique, custom ids suffice, every given firmware is made for the respective processor of every addressed target (a missing one is admitted where the processor's default firmware fits), the energy environment is valid, and its time parameters are non-negative. Acceptance does not depend on the order of target configurations.",
     ["inputs", "configurations"],
     "all combinations of up to four target configurations over the testbed's targets, with custom ids, firmwares and observers",
     "Tests cover single violations on two or three target sets.",
     [CORE + "data_models/experiment/experiment.py", CORE + "data_models/experiment/target_config.py", CORE + "data_models/experiment/observer_features.py"],
     [("Experiment.post_validation", CORE + "data_models/experiment/experiment.py"), ("TargetConfig.post_validation", CORE + "data_models/experiment/target_config.py")],
     ["acceptance of Experiment / TargetConfig"])

prop("C11", "An experiment maps onto exactly the right observer tasks",
     "Turning an accepted experiment into tasks yields one task set per addressed target, in the order addressed, for the observer that carries the target, with the target's own port, firmware files, identity (custom id or the target's own id), programmer settings and that target configuration's virtual source, energy input and tracing options. All observers share one experiment directory, outputs and file names never collide between observers, programming is prepared before the emulation starts, and sub-tasks appear in the order modify, program, emulate.",
     ["configurations", "inputs"],
     "all accepted experiments over the shipped testbed with up to four target configurations",
     "Tests only check that tasks can be generated.",
     [CORE + "data_models/task/observer_tasks.py", CORE + "data_models/task/testbed_tasks.py", CORE + "data_models/task/emulation.py", CORE + "data_models/task/firmware_mod.py", CORE + "data_models/task/programming.py"],
     [("TestbedTasks.from_xp", CORE + "data_models/task/testbed_tasks.py"), ("ObserverTasks.from_xp", CORE + "data_models/task/observer_tasks.py"), ("EmulationTask.from_xp", CORE + "data_models/task/emulation.py")],
     ["fields of generated task models", "get_tasks(), get_output_paths()"])

prop("C12", "Task preparation and extraction round-trip every task",
     "Every task or task set given as model or file is prepared to the same task, however often it is passed on, tasks of a testbed-wide set are handed out only to the observer they belong to, and extraction returns the contained sub-tasks in execution order with exactly the sets excluded that were asked to be excluded. Unknown or foreign content and unknown observers are refused.",
     ["inputs", "configurations"],
     "all task types, task sets with any subset of optional parts, given as model or file (full or minimal), all observers",
     "Tests prepare a few tasks without comparing content.",
     [CORE + "data_models/task/__init__.py", CORE + "data_models/task/observer_tasks.py", CORE + "data_models/base/shepherd.py"],
     [("prepare_task / extract_tasks", CORE + "data_models/task/__init__.py"), ("TestbedTasks.get_observer_tasks", CORE + "data_models/task/testbed_tasks.py")],
     ["returned task lists"])

prop("C13", "Testbed descriptions are consistent and lookups exact",
     "A testbed is accepted exactly when it has shared storage, a non-negative preparation time and observers whose ids, names, addresses, network ports, capes and targets (identified by their ids) are unique across it; an observer that has targets needs a cape. Looking up the observer, port or target for a target id succeeds exactly for targets attached to active observers with active capes, returns the one carrying it, and otherwise is refused; the outcome is independent of the order of observers.",
     ["configurations", "inputs"],
     "all testbeds assembled from up to four observers with shared/duplicated/missing parts and activity flags, all target ids",
     "Tests cover single duplicates; lookups are tested on few ids.",
     [CORE + "data_models/testbed/testbed.py", CORE + "data_models/testbed/observer.py"],
     [("Testbed.post_validation/get_observer", CORE + "data_models/testbed/testbed.py"), ("Observer.has_target/get_target/get_target_port", CORE + "data_models/testbed/observer.py")],
     ["acceptance, lookup results"])

prop("C14", "The virtual harvester follows its algorithm on every input stream",
     "For every stream of iv-samples and every configuration the virtual harvester behaves as its algorithm prescribes: whatever the stream, delivered points are samples that were really seen (apart from the optional extrapolation of constant-voltage), perturb & observe moves its set-point only at its interval, the open-circuit algorithm only during or at the end of its measurement, both stay within the voltage limits, and the optimal one delivers a sample inside the limits that is at most two windows old. On steadily repeated curves the constant-voltage algorithm delivers the sample nearest to its set-point, the open-circuit algorithm takes the lowest open-circuit voltage within the limits, and the optimal one delivers the sample of maximal power. Pass-through configurations (no windows, or a sampling algorithm) deliver every sample unchanged; the outcome depends only on the configuration and the samples so far, several harvesters do not influence each other.",
     ["histories", "inputs", "configurations"],
     "all sample streams and algorithm configurations (interval, duration, step, limits, window, wait cycles, rising or falling ramps)",
     "Tests feed one ramp per shipped harvester and check that nothing raises.",
     [CORE + "vsource/virtual_harvester_model.py"],
     [("ivcurve_sample and per-algorithm state machines", CORE + "vsource/virtual_harvester_model.py")],
     ["outputs of ivcurve_sample after each sample", "public voltage set-point"])

prop("C15", "The virtual converter switches and bounds its states correctly",
     "For every input history the emulated intermediate voltage stays within its limits, output is supplied only while the converter's enable hysteresis (evaluated at the configured interval) says so, power-good follows its own hysteresis, and the output voltage is the configured regulated voltage, the intermediate voltage minus drop when it is too low, or zero. Stored energy changes only by input, output, leakage and start-up drain, so cumulated energies never decrease, and equal histories yield equal outcomes.",
     ["histories", "inputs", "configurations"],
     "all sequences of input power and load current over all shipped and generated converter configurations",
     "Tests run a few converters over fixed samples and check rough ranges.",
     [CORE + "vsource/virtual_converter_model.py", CORE + "vsource/virtual_source_model.py"],
     [("update_states_and_output", CORE + "vsource/virtual_converter_model.py"), ("update_cap_storage", CORE + "vsource/virtual_converter_model.py"), ("iterate_sampling", CORE + "vsource/virtual_source_model.py")],
     ["return values, get_*_mV/uV accessors, power-good state after each step"])

prop("C16", "Firmware parameters follow from the configuration",
     "Every admissible harvester or virtual-source configuration translates into the PRU parameters prescribed: mode bits, thresholds, window size, voltage steps and timings in the documented units, with limits enforced (interval not shorter than duration, setpoint, voltages and current within range) and inadmissible configurations refused. The parameters depend only on the effective configuration, input datatype and mode, and for emulation the harvester is adapted to the recording it reads.",
     ["configurations", "inputs"],
     "all harvester/source configurations over boundary values of every field, all input datatypes",
     "Tests derive parameters of the shipped fixtures without comparing values.",
     [CORE + "data_models/content/virtual_harvester.py", CORE + "data_models/content/virtual_source.py"],
     [("HarvesterPRUConfig.from_vhrv", CORE + "data_models/content/virtual_harvester.py"), ("ConverterPRUConfig.from_vsrc, calc_internal_states, calc_converter_mode", CORE + "data_models/content/virtual_source.py")],
     ["fields of the PRU-config models"])

prop("C17", "Calibration values survive every route unchanged",
     "Converting raw readings to physical values and back returns the same reading for every value of the container, negative results clamp to zero, and scalars and arrays behave alike. A cape calibration written to its byte representation, to file or to a recording is read back value by value into the same slots, and for a recording the calibration of the channel and port actually used is taken. Exported register values follow the documented scaling and out-of-range values are refused.",
     ["inputs", "configurations"],
     "all calibration values (including unset offsets), all raw values, both directions and ports",
     "Tests convert a few values with default calibrations, whose channels are identical to each other so that swapped slots cannot be noticed.",
     [CORE + "data_models/base/calibration.py"],
     [("raw_to_si / si_to_raw", CORE + "data_models/base/calibration.py"), ("to_bytestr / from_bytestr", CORE + "data_models/base/calibration.py"), ("from_cal / export_for_sysfs", CORE + "data_models/base/calibration.py")],
     ["return values and serialized bytes"])

prop("C18", "Models persist faithfully and stay immutable",
     "Any model (secrets excepted) written to a file and loaded again equals the original; stored in minimal form it equals it in everything but freshly generated identifiers and creation times that were never set; writing touches no other file, loading checks that the file holds that kind of model and refuses others as well as damaged files. Attributes of models, nested ones included, cannot be changed after creation, neither by assignment nor through the data they were built from, and unknown fields are refused. Within a class equal content yields equal hashes, different content different ones.",
     ["inputs", "configurations", "histories"],
     "all model classes with any subset of fields set to non-default values",
     "Tests round-trip a few default instances.",
     [CORE + "data_models/base/shepherd.py", CORE + "data_models/base/wrapper.py"],
     [("to_file / from_file", CORE + "data_models/base/shepherd.py"), ("get_hash", CORE + "data_models/base/shepherd.py")],
     ["loaded models, raised errors"])

prop("C19", "Firmware is delivered and customised without corruption",
     "Embedding a firmware file into a model and extracting it again yields the identical bytes for any content, a stored hash that does not match its content is reported, and type and target-MCU are detected from the content (elf by its architecture; hex as msp430 if it starts at 0x4000 and its reset-vector points into [0x4000, 0xFF80), otherwise as nRF52). Changing the identifier of an elf-firmware changes exactly that symbol to exactly the given 16-bit value, keeps every other byte and the original file, and the value can be read back; out-of-range values and missing symbols leave no modified file behind.",
     ["inputs", "histories"],
     "all file contents, all identifiers and symbol names, repeated modification",
     "Tests modify one symbol with a few values and do not compare the rest of the file.",
     [CORE + "fw_tools/converter.py", CORE + "fw_tools/patcher.py", CORE + "data_models/content/firmware.py"],
     [("file_to_base64/base64_to_file/hash", CORE + "fw_tools/converter.py"), ("modify_symbol_value/read_symbol", CORE + "fw_tools/patcher.py")],
     ["bytes of extracted / patched files"])

prop("C20", "Simulating a file equals stepping the model through it",
     "Simulating a harvester or a whole virtual source on a recording yields exactly one output row per input sample of the complete blocks (0.1 s, 10 000 samples), with the input's timestamps, whose values are those obtained by stepping the model through the same samples in order, and the reported energy is the sum over those rows. Targets draw the current they are defined to draw at the voltage offered (resistive, a diode with series resistor following Shockley's equation, constant current, constant power; none unpowered). The input file is unchanged, and the outcome does not depend on how the recording is divided into blocks.",
     ["inputs", "configurations", "histories"],
     "all recordings (length, blocks) and all source/harvester/target combinations",
     "Tests only check that the simulation runs on short files.",
     [CORE + "vsource/virtual_source_simulation.py", CORE + "vsource/virtual_harvester_simulation.py", CORE + "vsource/target_model.py"],
     [("simulate_source", CORE + "vsource/virtual_source_simulation.py"), ("simulate_harvester", CORE + "vsource/virtual_harvester_simulation.py")],
     ["output recording and return value"])

prop("C21", "Derived figures of a recording are independent of block processing",
     "Energy, per-column minimum, maximum, mean and standard deviation, runtime, sample rate and block count reported for a recording are those of its content: energy is the sum of voltage times current times sample interval, the extremes cover every sample, and the results do not depend on the internal block size. The voltage step of an iv-curve recording is the configured one, else the smallest positive step found (first 2000 samples), in volts. Time jumps that show at the block starts are reported.",
     ["inputs", "configurations"],
     "all recordings and internal block sizes",
     "Tests only query these values on constant-valued files that fit into one block.",
     [CORE + "reader.py"],
     [("energy / _dset_statistics / _refresh_file_stats / get_voltage_step", CORE + "reader.py")],
     ["energy(), get_metadata(), get_voltage_step(), public attributes"])

prop("C22", "Plots show exactly the requested range of a recording",
     "The plot data of a recording covers exactly the requested range clamped to its runtime: every N-th of its samples (N the whole factor that reduces the range towards the display limit), with times relative to the start of the recording unless asked otherwise, voltage and current in SI units with equally many rows; a constant signal keeps its value and fewer than 5 samples yield no plot. Figures draw voltage [V], current [mA] and power [mW] (or only power) of every recording under its hostname. A stored plot is never overwritten and the recording stays untouched; a batch draws every usable recording of the directory (of its sub-directories on request), or one joint plot of all of them.",
     ["inputs", "configurations", "histories"],
     "all recordings, ranges, options and directory contents",
     "Tests only check that plotting one file runs.",
     [DATA + "reader.py", DATA + "cli.py"],
     [("generate_plot_data / assemble_plot / plot_to_file / multiplot_to_file", DATA + "reader.py"), ("plot", DATA + "cli.py")],
     ["plot data, drawn figures, files of the directory"])

prop("C23", "Converted IVonne recordings stay true to their source",
     "Converting a recorded solar-panel trace yields a recording with gap-free timestamps from the first sample on, also across internal slices, that covers the requested duration (at most the source, up to its last sample, less an incomplete trailing buffer). At the instants of the source samples it holds open-circuit voltage (limited to the maximum) and short-circuit current, the whole curve from 0 to the maximum voltage with non-negative currents, or the operating point of the tracker: the grid point with maximum power for the optimal one, the highest grid voltage below the ratio of the open-circuit voltage for the other. Existing targets and the source stay untouched.",
     ["inputs", "configurations"],
     "all source recordings, durations, rates, voltage limits and trackers",
     "Tests only check that the conversions of one recording run.",
     [DATA + "ivonne.py", DATA + "mppt.py"],
     [("convert_2_ivcurves / convert_2_ivtrace / convert_2_isc_voc", DATA + "ivonne.py"), ("OpenCircuitTracker / OptimalTracker", DATA + "mppt.py")],
     ["content of the written recording"])

prop("C24", "Tasks and feature settings are admitted exactly within their limits",
     "A tracing, actuation, emulation, harvest, programming or firmware-modification setting is accepted exactly if every parameter is within its documented limits (no negative times, no start in the past, something left to record, sample and baud rates, voltages, ports and identifiers in range, hex-files only for programming, only pins a user may control, one or more events); otherwise it is refused; accepted values are kept unaltered and the data handed over stays untouched. An instant means the same in every notation: epoch, ISO-text or datetime, with offset or as local wall-clock with the offset then in effect. A repeating event yields exactly its number of instants, delay plus multiples of its period.",
     ["inputs", "configurations"],
     "all parameter combinations, notations and time zones",
     "Tests create a few valid instances and in one time zone only.",
     [CORE + "data_models/task/", CORE + "data_models/experiment/observer_features.py", CORE + "data_models/base/timezone.py"],
     [("PowerTracing / GpioTracing / GpioEvent / GpioActuation", CORE + "data_models/experiment/observer_features.py"), ("EmulationTask", CORE + "data_models/task/emulation.py"), ("HarvestTask", CORE + "data_models/task/harvest.py"), ("ProgrammingTask", CORE + "data_models/task/programming.py"), ("FirmwareModTask", CORE + "data_models/task/firmware_mod.py"), ("local_tz / local_now / local_iso_date", CORE + "data_models/base/timezone.py")],
     ["accepted or refused, field values, get_events(), get_gpios()"])

prop("C25", "The testbed database answers with what was stored last",
     "The testbed database answers with the last entry stored under a name (in any letter case) or id; unknown types and entries are refused and its lists of types, names, ids and references are complete. Loading a file or directory holds exactly the entries of its yaml-files, also of sub-directories; a cache younger than a day may stand in for the default database only, and never if a reset is asked for; a missing path is refused. An iteration visits every entry that is stored throughout exactly once, also if iterations are nested or interleaved with each other, with queries or with insertions; what a caller does with a queried entry does not alter the database.",
     ["inputs", "histories", "schedules"],
     "all database contents and histories of stores, queries and iterations",
     "Tests only query a few entries of the shipped database.",
     [CORE + "testbed_client/fixtures.py", CORE + "testbed_client/client_abc_fix.py"],
     [("Fixtures / Fixture", CORE + "testbed_client/fixtures.py"), ("FixturesClient", CORE + "testbed_client/client_abc_fix.py")],
     ["query results, lists, iterations"])

prop("C26", "The overview of devices reports exactly the conditions that hold",
     "The warnings of a list of collected inventories name exactly the conditions that hold: hosts running longer than 30 hours, hosts whose clock is more than 10 seconds after the earliest, and each of the listed software packages present in differing versions (hosts that lack it do not count); a warning for up-time or clock names a host it concerns. The csv-export holds one line per device in their order with all values. An inventory can be collected with or without the optional psutil, its host and time are those of its system-part, and it survives being stored.",
     ["inputs", "configurations"],
     "all lists of devices",
     "Tests only collect one inventory and never warn about several devices.",
     [CORE + "inventory/"],
     [("InventoryList.warn / to_csv / Inventory.collect", CORE + "inventory/__init__.py"), ("SystemInventory.collect", CORE + "inventory/system.py")],
     ["warn(), csv-file, collect()"])

prop("C27", "The testbed catalogue admits exactly documented hardware and users",
     "A gpio, mcu, target, observer, energy environment or user is admitted exactly within its documented limits: names usable for files with at most 32 characters, printable text of at most 512, gpios with a complete pru- or sys-pin, mcus with a programming voltage of 1 to 5 V and a data rate up to 1 MBaud, a testbed-id of 16 bit which is derived from the id when not given, valid mac, ip and coordinates, targets only where there is a cape, and a description for published content; accepted values are kept, the data handed over by the caller is not altered, and user-controllable pins are output-capable gpios. Users without token receive a fresh long one that is not part of their textual form. A password of 20 to 100 characters hashes deterministically and different ones differ; shorter and longer ones are refused.",
     ["inputs"],
     "all catalogue-entries and users",
     "Tests try a handful of values for each model.",
     [CORE + "data_models/base/content.py", CORE + "data_models/testbed/", CORE + "testbed_client/user_model.py"],
     [("GPIO / MCU / Target / Observer", CORE + "data_models/testbed/"), ("ContentModel", CORE + "data_models/base/content.py"), ("User / hash_password", CORE + "testbed_client/user_model.py")],
     ["admission of models, attributes, str(), caller-owned dicts"])

prop("C28", "Settings of sources, boards and registers are admitted within their limits",
     "A virtual source, cape, eeprom content, calibration pair or register set for the real-time units is accepted exactly if every parameter is within its documented range, tables have 12 (x 12) efficiencies from 0 to 1, the harvester can emulate, texts have at most their maximum length and lists between their minimum and maximum number of elements. What is not given has its documented default and what is given is kept exactly, also if an admitted source is adjusted again and again or reloaded from its file in between; register sets can be derived from every admitted source. Every model refuses unknown parameters, NaN, infinity and over-long texts at any nesting depth, trims texts, and leaves the data handed over alone.",
     ["inputs", "histories"],
     "all parameter values and sequences of adjustments, spoiled instances of every model",
     "Tests try a handful of values for some models.",
     [CORE + "data_models/base/", CORE + "data_models/content/virtual_source.py", CORE + "data_models/content/virtual_harvester.py", CORE + "data_models/testbed/cape.py"],
     [("VirtualSourceConfig / ConverterPRUConfig", CORE + "data_models/content/virtual_source.py"), ("HarvesterPRUConfig", CORE + "data_models/content/virtual_harvester.py"), ("Cape", CORE + "data_models/testbed/cape.py"), ("CapeData / CalibrationPair", CORE + "data_models/base/calibration.py"), ("ShpModel", CORE + "data_models/base/shepherd.py")],
     ["admission of models, attributes, caller-owned dicts"])

prop("C29", "A client of the testbed-server acts as the user whose token it was given",
     "Connecting fetches a session key and then the user of the token handed over as text or file (the public one without token) from the server given, nothing else and in this order; if the token-file is missing, the server can not be reached, answers with an error or does not know the token, the connection is refused with an error and offline data stays usable. A connected client fills in the name and group of its user where they are not given, and nothing else. Inserting an entry transmits it to the server of this client once and completely, so that it can be rebuilt there equal to the original; errors of the server surface and later requests are not affected; clients do not influence each other.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of connections and insertions, faults at any request, several clients and servers, all entries",
     "Tests never use the client.",
     [CORE + "testbed_client/client_web.py", CORE + "data_models/base/wrapper.py"],
     [("WebClient", CORE + "testbed_client/client_web.py"), ("Wrapper", CORE + "data_models/base/wrapper.py")],
     ["requests seen by a stand-in of the server, outcome of each call"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
