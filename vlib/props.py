"""The properties and what decides them. tools/emit.py writes properties.jsonl and MANIFEST.json from here."""
MC = "model_checking"
PROPS, CHECKS, NOT_APPLICABLE = [], {}, []
TECH = ("TLA+ specification ({spec}) model-checked with TLC; TLC-generated, exhaustive short and random histories are replayed on the "
        "real library and every recorded step is validated against the specification with TLC (trace validation)")


def prop(pid, title, statement, over, text, why, files, mech, runs, spec, observe, note, state=(), hook=None, assumptions=()):
    PROPS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                              "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}})
    CHECKS[pid] = {"runs": runs, "level": MC, "technique": TECH.format(spec=spec), "note": note, "assumptions": list(assumptions)}


ENG_NOTE = ("TLC explores every history of the specification on a 2x2 board (depth 4 quick, 6 thorough); the binding to the code is "
            "sampled: all histories of length 3 on a 2x1 board, simulated ones of length 40 and random ones of about 70 operations")

prop("C01", "Processed graph is exactly the wiring of the synchronised matrix",
     "Once the audio side has picked up a successfully synchronised layout, every processed block runs each placed node exactly once, sources before "
     "the nodes they feed. Every connected input reads, in that same block and over its whole length, the very output the adjacent cell's port is wired to, and every "
     "unconnected input reads its own parameter value. Layout changes that were not synchronised, or whose synchronisation failed, do not influence processing.",
     ["histories", "inputs", "schedules"],
     "every history of placing, changing, saving/restoring, synchronising and clearing a matrix of any size and node population, interleaved in any way with the audio side picking up updates and processing blocks of 1..128 frames",
     "tests build a handful of fixed small patches and listen to one output; they do not quantify over layouts, edit histories or the points where the audio side picks up a graph",
     ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs", "src/nodes/node_graph_ordering.rs", "src/dsp/mod.rs"],
     [("Matrix::sync / build_prog", "src/matrix.rs"), ("NodeGraphOrdering::calculate_order", "src/nodes/node_graph_ordering.rs"),
      ("NodeProg::append_edge / assign_outputs", "src/nodes/node_prog.rs"), ("NodeExecutor::process", "src/nodes/node_exec.rs")],
     [("eng", {"profiles": ("mix", "mix", "dag", "dag", "storm", "big", "full", "fan")}, ["calls", "order", "len", "wire", "param", "out", "model", "fb", "panic"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["inputs and call order seen by custom 1-in/1-out nodes", "audio output of the output node"], ENG_NOTE,
     state=[("running program", "the compiled graph the audio side executes", "src/nodes/node_exec.rs NodeExecutor::prog")])

prop("C02", "Exactly the layouts with a cycle or a doubly fed input are rejected",
     "Checking or editing a layout reports an error exactly if some input would be fed by two outputs or if the connections form a cycle, and names which of the two. "
     "Synchronising a layout fails exactly if it has a cycle, and then the audio side keeps the graph it had. Every other layout is accepted, whatever ports and nodes it uses.",
     ["inputs", "histories"],
     "every layout of any board size, every assignment of nodes and (also non-existing) ports, reached by any history of edits",
     "tests cover a few hand-made cycles and duplicates on one board; the space of layouts is far larger",
     ["src/matrix.rs", "src/nodes/node_graph_ordering.rs"],
     [("Matrix::check", "src/matrix.rs"), ("NodeGraphOrdering::calculate_order", "src/nodes/node_graph_ordering.rs")],
     [("eng", {"profiles": ("mix", "mix", "dag", "dag", "fan", "big")}, ["res", "lay", "calls", "order", "wire", "panic"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["result of check/change/sync"], ENG_NOTE)

prop("C03", "A rejected edit changes nothing",
     "When a validated edit of the matrix (a change, or placing several cells at once) is rejected, the layout, the information which inputs are in use, the parameters, the change generation and the running "
     "graph are exactly as before the edit. Restoring a saved layout brings back exactly the saved cells. An accepted edit changes exactly the cells it names.",
     ["histories", "inputs"],
     "every edit rejected for any reason (cycle, duplicate input, occupied or non-existing position) at any point of any history",
     "tests look at two or three rejected edits and compare one cell",
     ["src/matrix.rs"],
     [("Matrix::change_matrix / change_matrix_err / restore_matrix / place_multiple", "src/matrix.rs")],
     [("eng", {"profiles": ("mix", "mix", "dag")}, ["lay", "used", "gen", "getp", "ntf", "res", "calls", "wire", "conns"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["layout, used inputs, generation and parameters after the edit"], ENG_NOTE)

prop("C04", "Parameter and setting changes always arrive and settle exactly",
     "A changed parameter moves its input monotonically from the old value to the new one within 10 ms, ends exactly at the new value and stays there, however many parameters change at the same time and whatever graph "
     "updates happen meanwhile, also when the audio side picks nothing up for a long time. Settings (non-signal values) take effect with the next update. No other input changes, and the frontend reports the last value set.",
     ["histories", "schedules", "inputs"],
     "every sequence of parameter and setting changes, of any number at once, interleaved with layout changes, clears, updates and blocks of any length",
     "tests change one or two parameters of a settled patch",
     ["src/nodes/node_exec.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/matrix.rs", "src/util.rs"],
     [("NodeExecutor::set_param / process_smoothers", "src/nodes/node_exec.rs"), ("Smoother", "src/util.rs"), ("NodeConfigurator::set_param", "src/nodes/node_conf.rs")],
     [("eng", {"profiles": ("mix", "dag", "storm", "storm", "big")}, ["param", "getp", "mod", "model", "out"]),
      ("eng", {"profiles": ("stall",), "count": 16}, ["param", "getp", "mod", "wire", "model", "out", "order", "calls", "panic"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["inputs seen by custom nodes", "reported parameter values"], ENG_NOTE)

prop("C05", "Modulated inputs read parameter plus amount times signal",
     "A connected input with a modulation amount reads its parameter value plus the amount times the connected signal; without an amount it reads the signal alone, and an unconnected input ignores its amount. "
     "Setting, changing or removing an amount takes effect with the next update, for that input only, and the frontend reports the current amount.",
     ["histories", "inputs"],
     "every history of modulation changes interleaved with wiring, parameter changes, failed synchronisations and clears",
     "tests set one amount on one input of one patch",
     ["src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/node_exec.rs", "src/matrix.rs"],
     [("ModOp", "src/nodes/node_prog.rs"), ("NodeConfigurator::set_param_modamt", "src/nodes/node_conf.rs")],
     [("eng", {"profiles": ("dag", "dag", "mix", "storm")}, ["mod", "getp", "wire", "param", "model", "res"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["inputs seen by custom nodes", "reported amounts"], ENG_NOTE)

prop("C06", "Readouts show the values of the last processed block",
     "The status value and phase value of a node are those it set in the last processed block, and the output readout of a port is the last sample it produced in that block. Before the first block of a newly synchronised graph "
     "the output readout is zero, and for nodes or ports that do not exist there is none.",
     ["histories", "schedules"],
     "every history of layout changes, clears, updates, blocks of any length and readout queries for any node and port",
     "tests read back one or two LEDs of a static patch",
     ["src/nodes/node_conf.rs", "src/nodes/node_exec.rs", "src/nodes/node_prog.rs"],
     [("node_ctx_values", "src/nodes/node_exec.rs"), ("NodeConfigurator::out_fb_for", "src/nodes/node_conf.rs")],
     [("eng", {"profiles": ("mix", "dag", "dag", "big", "full")}, ["led", "fb"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["status, phase and output readouts"], ENG_NOTE)

prop("C07", "Every visible change moves the generation and notifies the observer",
     "Every successful parameter, setting, modulation or property change, synchronisation and clear increases the change generation, and no other operation does. The registered observer is told about exactly the "
     "parameter or property that changed, about every successful synchronisation, and about everything after a clear.",
     ["histories"],
     "every history of operations, successful or not",
     "tests record notifications of one fixed sequence",
     ["src/matrix.rs"], [("Matrix::generation / MatrixObserver calls", "src/matrix.rs")],
     [("eng", {"profiles": ("mix", "mix", "dag")}, ["gen", "ntf"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["generation counter", "observer callbacks"], ENG_NOTE)

prop("C08", "Replaced node functions take over at a block boundary, none is lost",
     "The function last installed for a custom node is the one every following block runs, exactly once per block with that block's frames, whether or not the graph was rebuilt, restored or left alone in between. "
     "Functions of other node instances are unaffected.",
     ["histories", "schedules"],
     "every history of installing functions for any instances, layout edits, synchronisations, updates and blocks",
     "tests install one function and process a few blocks",
     ["src/nodes/node_conf.rs", "src/dsp/node_rust.rs", "src/global.rs", "src/matrix.rs"],
     [("Rust1x1 triple buffer", "src/dsp/node_rust.rs")],
     [("eng", {}, ["dyn", "calls", "len"])], "spec/Matrix.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["version, frame count and number of calls of the installed functions"], ENG_NOTE)

TRK_NOTE = ("TLC explores every history of edits, transmissions and row changes of a small pattern, and the liveness property that edits arrive; the binding is sampled: "
            "random edit histories including edit storms with nobody receiving, compared with the specification at every point where everything was exchanged")

prop("C09", "Tracker edits reach the sequencer completely",
     "After any edits of a tracker pattern (cells, column types, pattern length, loading a stored pattern) and once frontend and audio side have exchanged updates, the sequencer plays exactly the current pattern in all columns: "
     "no edit is lost, delayed for ever or applied to another column, also when many edits are made while the audio side receives nothing, or when the sequencer is recreated.",
     ["histories", "schedules"],
     "every history of edits, type and length changes and pattern loads, interleaved in any way with transmissions, storms of edits with nobody receiving and recreation of the sequencer",
     "tests edit one or two columns and let every update through at once",
     ["src/dsp/tracker/mod.rs", "src/dsp/tracker/pattern.rs", "src/dsp/tracker/sequencer.rs"],
     [("Tracker::send_one_update", "src/dsp/tracker/mod.rs"), ("PatternData::sync_out_data", "src/dsp/tracker/pattern.rs"), ("PatternSequencer", "src/dsp/tracker/sequencer.rs")],
     [("trk", {}, ["note", "step", "value", "gate", "gateout", "cells", "rows", "types"])], "spec/Tracker.tla, spec/MC_Tracker.tla, spec/Trace_Tracker.tla",
     ["outputs of the sequencer at chosen phases", "cells read back from the pattern"], TRK_NOTE)

prop("C10", "A pattern plays by its column types",
     "At every phase, a note column outputs the pitch of the last set note at or before the current row, a step column the last set value (0 before the first one), and a value column glides from row to row along straight lines between the set cells, "
     "starting and ending at 0 where the first or last row is empty. A gate column opens the gate for the encoded part of the row, as often per row as encoded, and only in rows that are set. Columns do not influence each other, rows past the pattern length are not played, and reading a cell back gives what was written.",
     ["inputs", "histories"],
     "every pattern content, length 1..256, column type and phase",
     "tests play a handful of patterns at a few phases",
     ["src/dsp/tracker/pattern.rs", "src/dsp/tracker/sequencer.rs"],
     [("PatternData::sync_out_data", "src/dsp/tracker/pattern.rs"), ("PatternSequencer::col_get_at_phase / col_interpolate_at_phase / col_gate_at_phase", "src/dsp/tracker/sequencer.rs")],
     [("trk", {}, ["note", "step", "value", "gate", "gateout", "cells"])], "spec/Tracker.tla, spec/MC_Tracker.tla, spec/Trace_Tracker.tla",
     ["outputs of the sequencer at chosen phases"], TRK_NOTE)

PAT_NOTE = ("TLC explores every short history of editing, saving and loading over a tiny document; the binding is sampled: random documents over the whole node catalogue, "
            "saved and loaded through memory and files, and damaged by random structural and byte mutations of the stored patch")

prop("C11", "Loading a saved patch restores all of it and nothing else",
     "After saving a patch (to memory or to a file) and loading it later, into the same or a new engine, the layout, parameter values, modulation amounts, settings, properties, tracker patterns and block functions are those at the time of saving, "
     "whatever was edited in between: nothing is lost and nothing of the previous patch remains. Parameter values survive as physical values up to rounding, and a pattern without cells and with only value columns counts as unset.",
     ["histories", "inputs"],
     "every document reachable by any history of edits over all node types, instances, parameters, settings, patterns and block functions, saved and loaded at any points of it",
     "tests save and load a few fixed patches into a fresh matrix",
     ["src/matrix.rs", "src/matrix_repr.rs", "src/nodes/node_conf.rs", "src/dsp/tracker/pattern.rs", "src/wblockdsp/language.rs", "src/lib.rs"],
     [("Matrix::to_repr / from_repr", "src/matrix.rs"), ("MatrixRepr::serialize / deserialize", "src/matrix_repr.rs"),
      ("NodeConfigurator::dump_param_values / load_dumped_param_values", "src/nodes/node_conf.rs"), ("BlockFunSnapshot", "src/wblockdsp/language.rs")],
     [("pat", {"profiles": ("round",)}, ["layout", "params", "mods", "settings", "props", "patterns", "blocks", "load"])], "spec/Patch.tla, spec/MC_Patch.tla, spec/Trace_Patch.tla",
     ["everything readable from the matrix after loading"], PAT_NOTE)

prop("C12", "A damaged patch never breaks the engine",
     "Loading any data as a patch terminates without a crash. If it is refused as unreadable, nothing changes; if it is accepted, the result is well formed: cells lie on the board, parameter values are finite, patterns within their limits, and saving and loading it again, "
     "compiling its block functions and processing audio with it work like with any other patch.",
     ["inputs", "histories"],
     "every byte string offered as a patch, in particular every saved patch with any values replaced, removed, duplicated or cut off, loaded into an engine in any state",
     "tests load intact patches and one patch of a wrong version",
     ["src/matrix_repr.rs", "src/matrix.rs", "src/wblockdsp/language.rs", "src/dsp/tracker/pattern.rs"],
     [("MatrixRepr::deserialize", "src/matrix_repr.rs"), ("PatternRepr::deserialize", "src/matrix_repr.rs"), ("BlockFunSnapshot::deserialize", "src/wblockdsp/language.rs")],
     [("pat", {"profiles": ("mut",)}, ["form", "layout", "params", "mods", "settings", "props", "patterns", "blocks", "load"])], "spec/Patch.tla, spec/MC_Patch.tla, spec/Trace_Patch.tla",
     ["result of loading", "everything readable from the matrix afterwards"], PAT_NOTE)

prop("C13", "Saving a patch is atomic under crashes and I/O errors",
     "At every moment while a patch is saved to a file, and after the saving process stopped or a file operation failed at any point, the file holds either the complete previous patch (or is absent, as before) or the complete new one. "
     "A save that reports success has stored the new patch, also when the system writes in several parts or an earlier save was interrupted; a save is not refused unless a file operation failed.",
     ["crash_points", "fault_sequences", "histories"],
     "every file operation of a save as the point where the process stops (before or in the middle of it), an operation fails or only part of it is done, for any sequence of saves and loads of patches of different sizes",
     "tests save undisturbed to a fresh file",
     ["src/matrix_repr.rs", "src/lib.rs"], [("MatrixRepr::write_to_file", "src/matrix_repr.rs")],
     [("sav", {}, ["exposed", "outcome", "refused", "load", "loaded", "disk"])], "spec/SaveFile.tla, spec/MC_SaveFile.tla, spec/Trace_SaveFile.tla",
     ["content of the target file after every file operation and after the end of the save"],
     "TLC explores the write-then-rename algorithm with a stop or failure at every step; on the code, the file system functions of the C library are replaced in the harness so that the target file is inspected after every operation and faults are injected at each of them",
     assumptions=["the process stops or an operation fails; loss of power with reordered disk writes is not considered (the code does not fsync)"])

BLK_NOTE = ("TLC explores every history of edits of a 2x3 diagram with nested areas (depth 3 quick, 4 thorough); the binding is sampled: random edit histories of about 45 "
            "operations, and programs of up to about 15 blocks over integers that are compiled and run alone and inside a Code node of a matrix")
BLK_SPEC = "spec/Blocks.tla, spec/MC_Blocks.tla, spec/Trace_Blocks.tla"

prop("C14", "Editing a block diagram never loses, duplicates or overlaps blocks",
     "Placing, removing, moving, cloning and splitting blocks or chains of blocks, and shifting their ports, changes exactly the named blocks: every other block stays where and what it is, no two blocks ever overlap, identities stay unique, and the areas nested in blocks form a hierarchy. "
     "An edit that is refused (no space, unknown area or type, no block there, a block into itself) changes nothing; an edit is refused only if it cannot be done, and every change is noticed by the change generation.",
     ["histories", "inputs"],
     "every history of edits at any positions, rows and (also unknown) areas, including nested areas and negative positions",
     "tests replay a few fixed edits on diagrams of a few blocks",
     ["src/wblockdsp/language.rs"],
     [("BlockFun::instanciate_at / remove_at / move_block_from_to / clone_block_from_to / move_block_chain_from_to / split_block_chain_after / shift_port", "src/wblockdsp/language.rs")],
     [("blk", {"profiles": ("edit", "edit", "run")}, ["edit", "refused", "res", "gen", "sound", "fresh", "view", "size", "accept"])], BLK_SPEC,
     ["snapshot of the diagram after every edit", "the view a user interface has of it"], BLK_NOTE,
     state=[("BlockFun::areas", "blocks by area and position", "src/wblockdsp/language.rs")])

prop("C15", "A block diagram runs as drawn",
     "The expression tree generated from a diagram is the diagram: each input reads the output port left of it (or zero), sinks and unconnected outputs run top to bottom, left to right. Once checked, the Code node computes just that: every block once per sample, shared outputs with one value, "
     "named inputs by name wherever their ports were shifted to, variables and block states kept between samples, also after the node was recreated. A diagram that cannot be compiled is reported and leaves the running program alone.",
     ["programs", "histories", "inputs"],
     "every diagram of the block language (values, variables, routing, arithmetics, stateful blocks) reached by any history of edits, checks and node recreations, run on any inputs",
     "tests compile about a dozen fixed diagrams",
     ["src/wblockdsp/compiler.rs", "src/wblockdsp/language.rs", "src/wblockdsp/definition.rs", "src/global.rs", "src/dsp/node_code.rs"],
     [("BlockFun::generate_tree", "src/wblockdsp/language.rs"), ("Block2JITCompiler::compile", "src/wblockdsp/compiler.rs"), ("NodeGlobalData::check_code", "src/global.rs"), ("Code::process", "src/dsp/node_code.rs")],
     [("blk", {"profiles": ("small", "small", "run")}, ["tree", "compile", "accept", "run", "gen"])], BLK_SPEC,
     ["generated tree", "outputs of the compiled program and of the Code node in a matrix"], BLK_NOTE)

prop("C16", "A SynthConstructor runs exactly the graph that was described to it",
     "The graph running after an upload is the union of all accepted descriptions since the last clear, the latest input, value, modulation amount or setting of each port winning; update_params changes running values without an upload and uploads a new graph exactly when inputs or the presence of a modulation amount changed. "
     "A description with a cycle (also with what is already known), an unknown parameter or output is refused with the matching error and changes nothing, neither what runs nor what later uploads do. "
     "Builder nodes may be shared, linked in any shape or in a cycle, and a clear forgets everything.",
     ["histories", "configurations", "schedules"],
     "every history of uploads, parameter updates and clears of descriptions of any shape, with the audio side picking up messages at any time",
     "tests upload a few fixed graphs",
     ["src/synth_constructor.rs", "src/build.rs", "src/nodes/node_conf.rs", "src/nodes/node_graph_ordering.rs"],
     [("SynthConstructor::upload / update_params / clear / walk_upload", "src/synth_constructor.rs"), ("build::ConstructorNode", "src/build.rs"), ("NodeGraphOrdering::calculate_order", "src/nodes/node_graph_ordering.rs")],
     [("con", {}, ["refused", "accepted", "reupload", "led", "fb", "calls", "order", "len", "dyn", "param", "mod", "wire", "out"])], "spec/Synth.tla, spec/MC_Synth.tla, spec/Trace_Synth.tla",
     ["result of each call", "inputs and outputs of every probe node in every block", "LED, phase and feedback values"],
     "TLC explores every history of depth 3 (thorough 4) over a small set of descriptions; the binding is sampled: random histories of descriptions of up to 6 builder nodes over probe nodes, external inputs, Test and Out")

prop("C17", "MIDI events arrive once, in order, on time, and no note is missed or stuck",
     "Every MIDI event of the host reaches the nodes at its frame, in order, however the host buffer is split into blocks; injected events come in the order they were injected, before those of the next block; events beyond the documented limits of a block come later instead of breaking anything, and all are reported to the observer once and in order. "
     "The gate of MidiP is open exactly while the current note is held (or for the set gate length, or the trigger length), every note on its channel restarts an open gate after one frame, and pitch and velocity are those of the latest note. "
     "Each output of MidiCC follows the latest value of its own selected CC on its channel, at the set slew at any sample rate.",
     ["histories", "inputs", "schedules"],
     "every sequence of note and CC events on any channels and frames (also several in one frame or in neighbouring frames), every split into blocks, gate mode, gate length, detune, slew and sample rate, and injections at any time",
     "tests play a few fixed notes at 44.1 kHz and never several events in one frame apart from one case",
     ["src/nodes/midi.rs", "src/nodes/node_exec.rs", "src/dsp/node_midip.rs", "src/dsp/node_midicc.rs", "src/matrix.rs"],
     [("NodeExecutor::feed_midi_events_from", "src/nodes/node_exec.rs"), ("EventWindowing / MidiEventPointer", "src/nodes/midi.rs"), ("MidiP::process", "src/dsp/node_midip.rs"), ("MidiCC::process", "src/dsp/node_midicc.rs"), ("Matrix::handle_graph_events / inject_midi_event", "src/matrix.rs")],
     [("midi", {}, ["gate", "pitch", "vel", "cc", "led", "report"])], "spec/Midi.tla, spec/MC_Midi.tla, spec/Trace_Midi.tla",
     ["outputs of MidiP and MidiCC in every frame", "their status values", "events reported to the observer"],
     "TLC explores two host buffers of 4 frames with up to two events each in any frames (thorough: three buffers), injections in between, with block size and limits made small; the binding is sampled: random histories of host buffers of up to 300 frames with clustered events and with floods beyond the limits, at several sample rates")

prop("C18", "What a node outputs does not depend on how time is divided into blocks",
     "For every node, settings and input signals, the output signals (and what a scope shows) are the same, bit for bit, whatever blocks the frames are processed in and whether the sample rate became known before or after the graph; all frames of a block are written. "
     "They are finite numbers for all inputs within the ranges of the ports, at every sample rate, and no node panics. A setting that changes takes effect from the frame at which it was changed.",
     ["inputs", "schedules", "configurations"],
     "every node type, every combination of settings, parameters and input signals within their ranges (including audio samples of any length and tracker patterns), every division into blocks of 1 to 128 frames, common sample rates",
     "tests run each node in blocks of one size, mostly with one setting, at 44.1 kHz",
     ["src/dsp/mod.rs", "src/dsp/node_sampl.rs", "src/dsp/node_sfilter.rs", "src/dsp/node_fvafilt.rs", "src/dsp/node_scope.rs", "src/dsp/tracker/sequencer.rs", "src/nodes/node_exec.rs"],
     [("DspNode::process of every node", "src/dsp/mod.rs"), ("NodeExecutor::process", "src/nodes/node_exec.rs")],
     [("part", {}, ["divide", "finite", "len", "shown"])], "spec/Part.tla, spec/MC_Part.tla, spec/Trace_Part.tla",
     ["every output of the node in every frame", "contents of the scope buffers"],
     "TLC divides all binary signals of 5 (thorough 8) frames in all ways for machines written like the nodes (edge counter, wrapping counter, meter, shared delay buffer); on the code, every node type of the catalogue is run about 15 times (thorough 270) with random settings and signals of 200 to 300 frames, in three divisions each",
     assumptions=["gates of the tracker with a probability, block parameters documented as not modulatable (declick time of Sampl, BiqFilt) and display parameters of the Scope are kept constant; the SFilter type documented as unstable (13) is run at low cutoff frequencies only"])

NOD = "spec/Nodes.tla, spec/MC_Nodes.tla, spec/Trace_Nodes.tla"
NODFILES = ["src/dsp/mod.rs", "src/nodes/node_exec.rs", "src/nodes/node_conf.rs"]
NODASM = ["float arithmetic may deviate from the exact value by a few 1/4096 (tolerances are part of Nodes.tla)"]

prop("C19", "Mixing, scaling and routing nodes compute their documented function",
     "Amp, Mix3, SMap, Map, Mux9, Inp, Out and Noise output, in every frame, exactly the documented function of the values of their inputs, parameters and settings in that frame (Mux9 also of the triggers so far). "
     "With clipping on, the outputs of the mappers never leave the range between min and max, however min and max are ordered; the multiplexer never routes an input beyond the selected number of inputs. "
     "The LEDs of Amp, Mix3, Mux9, Inp, Out and Noise show the last value of the block.",
     ["inputs", "programs", "configurations"],
     "all signals, constants and settings of these nodes, alone and wired to each other, settings changing at any frame, any blocks and sample rates",
     "tests check single values at few settings",
     ["src/dsp/node_amp.rs", "src/dsp/node_mix3.rs", "src/dsp/node_smap.rs", "src/dsp/node_map.rs", "src/dsp/node_mux9.rs", "src/dsp/node_inp.rs", "src/dsp/node_out.rs", "src/dsp/node_noise.rs"] + NODFILES,
     [("Amp/Mix3/SMap/Map/Mux9/Inp/Out/Noise::process", "src/dsp/node_map.rs")],
     [("nod", {"profiles": ("single", "single", "rack"), "kinds": ("amp", "mix3", "smap", "map", "mux9", "inp", "out", "noise")},
       ["amp", "mix3", "smap", "map", "mux9", "inp", "out", "noise", "led", "finite", "panic"])], NOD,
     ["every output of every node in every frame", "every input of every node in every frame", "LED values"],
     "TLC explores all signals of a few levels of up to 6 (thorough 7) frames for small instances; on the code 900 scripts (thorough 18000) of 200 to 450 frames are recorded and every frame of every node is validated",
     assumptions=NODASM)

prop("C20", "Feedback and delay lines delay by exactly the time they say",
     "A FbRd outputs what the FbWr of the same number got 3.14 ms (at least the longest block) before, scaled by its volume, and silence for times at which there was no writer, in every order of the two nodes, at every sample rate and while nodes are added and removed. "
     "Delay, Comb and AllP output the documented combination of the signal and what was fed into their line the given time (or, in sync mode, the time between the last two triggers) ago.",
     ["inputs", "programs", "histories", "configurations"],
     "all signals, times of whole frames, feedback amounts, triggers, orders of the nodes, histories of removing and adding nodes, sample rates",
     "tests check one order, one sample rate and a few impulses",
     ["src/dsp/node_fbwr_fbrd.rs", "src/shared_feedback.rs", "src/dsp/node_delay.rs", "src/dsp/node_comb.rs", "src/dsp/node_allp.rs", "src/global.rs"] + NODFILES,
     [("SharedFeedback", "src/shared_feedback.rs"), ("Delay::process", "src/dsp/node_delay.rs")],
     [("nod", {"profiles": ("single", "fb"), "kinds": ("delay", "comb", "allp")}, ["fbwr", "fbrd", "delay", "comb", "allp", "mix3", "led", "finite", "panic"])], NOD,
     ["every output of every node in every frame", "every input of every node in every frame", "LED values"],
     "TLC explores all binary signals of up to 6 (thorough 7) frames for small instances; on the code 900 scripts (thorough 18000) of 200 to 900 frames, half of them feedback lines and loops at five sample rates",
     assumptions=NODASM + ["delay times are whole numbers of frames (the interpolation between frames is not specified)"])

prop("C21", "Quantizers only output selected notes and announce every change",
     "Quant outputs the selected note nearest to its input (any note, if none is selected), CQnt the note its input selects from the selected notes of the octaves in equal parts, each plus the octave offset. "
     "The trigger output is high for 2 ms from every frame on in which the note changes, and only then.",
     ["inputs", "configurations"],
     "all inputs, all 4096 sets of keys, octave ranges and offsets, changing at any frame, sample rates",
     "tests check a few keys",
     ["src/dsp/node_quant.rs", "src/dsp/node_cqnt.rs"] + NODFILES,
     [("Quant::process", "src/dsp/node_quant.rs"), ("CQnt::process", "src/dsp/node_cqnt.rs")],
     [("nod", {"profiles": ("single",), "kinds": ("quant", "cqnt")}, ["quant", "cqnt", "finite", "panic"])], NOD,
     ["both outputs in every frame", "inputs in every frame"],
     "TLC explores all inputs of five levels of up to 4 (thorough 5) frames for several sets of keys; on the code 900 scripts (thorough 18000) of 200 to 450 frames with random sets of keys",
     assumptions=NODASM + ["an input halfway between two notes (or up to a quarter of a semitone off that) may become either"])

prop("C22", "Envelopes, the LFO and the random walk keep their times, levels and ranges",
     "Ad and Adsr rise to 1, fall and hold with the times, shapes and levels given by their parameters, starting at the current level when triggered again, and output one end trigger of 2 ms when an envelope has run to its end. "
     "TsLFO runs through its rising and falling edge once per period from the last trigger on; RndWk only changes on triggers (within the slew time), by at most offset and step, and lands between min and max.",
     ["inputs", "histories", "configurations"],
     "all trigger and gate signals, times, shapes, levels, multipliers, ranges, sample rates",
     "tests check a few runs at one sample rate",
     ["src/dsp/node_ad.rs", "src/dsp/node_adsr.rs", "src/dsp/node_tslfo.rs", "src/dsp/node_rndwk.rs"] + NODFILES,
     [("Ad::process", "src/dsp/node_ad.rs"), ("Adsr::process", "src/dsp/node_adsr.rs"), ("TsLFO::process", "src/dsp/node_tslfo.rs"), ("RndWk::process", "src/dsp/node_rndwk.rs")],
     [("nod", {"profiles": ("single",), "kinds": ("ad", "adsr", "tslfo", "rndwk")}, ["ad", "adsr", "tslfo", "rndwk", "led", "finite", "panic"])], NOD,
     ["all outputs in every frame", "inputs in every frame", "LED values"],
     "TLC explores all trigger signals of three levels of up to 6 (thorough 7) frames for small times; on the code 900 scripts (thorough 18000) of 200 to 450 frames",
     assumptions=NODASM)

prop("C23", "The sampler plays exactly the selected part of the sample",
     "Played at its own pitch, Sampl outputs the values of the audio sample from the start offset on, for the selected length, in the selected direction: over and over in Loop mode, once per trigger and then silence in OneShot mode. "
     "A trigger restarts at the start offset in the same frame; without a sample the output is silent, and the declick ramps only attenuate the ends and fade out what a trigger interrupted.",
     ["inputs", "histories", "configurations"],
     "samples of any length and rate, trigger signals, offsets, lengths, directions, modes and samples changing at any frame, sample rates",
     "tests check a few samples with one trigger each",
     ["src/dsp/node_sampl.rs"] + NODFILES,
     [("Sampl::process", "src/dsp/node_sampl.rs")],
     [("nod", {"profiles": ("single",), "kinds": ("sampl",)}, ["sampl", "finite", "panic"])], NOD,
     ["the output in every frame", "inputs in every frame"],
     "TLC explores all trigger signals of three levels of up to 6 (thorough 7) frames for a sample of three values; on the code 900 scripts (thorough 18000) of 200 to 450 frames",
     assumptions=NODASM + ["sample rates of the samples are whole multiples of the sample rate (the interpolation between values is not specified)"])

prop("C24", "Questions about the layout are answered truthfully",
     "The matrix reports exactly the cells that were placed, and for every cell exactly its connections, adjacent outputs and inputs, free neighbours and unconnected ports; a path between two positions consists of steps on the grid and leads from one to the other. "
     "Which inputs are in use reflects the last checked layout, and an instance reported as unused is not part of the last synchronised graph, as long as there is one.",
     ["histories", "inputs"],
     "every layout of every board size reached by any history of edits, every cell, edge and pair of positions",
     "tests ask a few questions about one small layout",
     ["src/matrix.rs", "src/cell_dir.rs", "src/nodes/node_conf.rs"],
     [("Matrix::get_connections / get_adjacent_output / edge_label", "src/matrix.rs"), ("Cell::find_all_adjacent_free / find_unconnected_ports", "src/matrix.rs"),
      ("CellDir::path_from_to / are_adjacent", "src/cell_dir.rs"), ("NodeConfigurator::unused_instance_node_id", "src/nodes/node_conf.rs")],
     [("eng", {"profiles": ("ask", "ask", "ask", "mix", "full")}, ["conns", "used", "unused", "around", "adjout", "adjin", "label", "portcon", "free", "dangling", "path", "adj", "lay", "panic"])],
     "spec/Matrix.tla, spec/Layout.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["answers of the query functions"], ENG_NOTE)

prop("C25", "A placed chain uses fresh nodes and sets its own parameters",
     "Placing a chain of nodes puts its links one after the other in the chosen direction, each connected to the next by the named ports and using a node instance that is not part of the synchronised graph and not used by another link. "
     "The parameters given for a link are those of the node placed for it, and a chain built with an unknown node, port or parameter is refused without placing anything.",
     ["histories", "inputs"],
     "every chain of nodes, ports and parameters, placed anywhere in any direction, any number of times and after any history",
     "tests place one chain into an empty matrix",
     ["src/chain_builder.rs", "src/matrix.rs", "src/nodes/node_conf.rs"],
     [("MatrixCellChain::place", "src/chain_builder.rs")],
     [("eng", {"profiles": ("ask",)}, ["res", "lay", "getp", "ntf", "gen", "param", "model", "wire", "panic"])],
     "spec/Matrix.tla, spec/Layout.tla, spec/MC_Matrix.tla, spec/Trace_Matrix.tla",
     ["layout after placing", "parameter values", "notifications"], ENG_NOTE,
     assumptions=["chains placed one after the other are synchronised in between (instances placed but not synchronised count as unused)"])

prop("C26", "The audio side only processes: it owns nothing and waits for nobody",
     "While it takes over updates, feeds MIDI and processes blocks, the audio side neither takes nor gives back memory, calls the system to write anything, nor waits for a lock the user interface holds, whatever the graph, its settings and patterns. "
     "What it gives up (programs, samples, node functions) is destroyed by the background thread: a sample stays exactly as long as the user interface, a queued update or the running graph refers to it.",
     ["schedules", "histories", "inputs"],
     "every history of graph, setting, sample, pattern, program and function changes, updates and blocks, over every kind of node",
     "tests look at what is computed, and never at what that does to memory or whether it could block",
     ["src/nodes/node_exec.rs", "src/nodes/node_prog.rs", "src/nodes/drop_thread.rs", "src/nodes/node_conf.rs", "src/log.rs", "src/dsp/mod.rs", "src/dsp/tracker/mod.rs", "src/global.rs"],
     [("NodeExecutor::process_graph_updates / process", "src/nodes/node_exec.rs"), ("DropThread", "src/nodes/drop_thread.rs"), ("DropMsg", "src/nodes/mod.rs"), ("log", "src/log.rs")],
     [("rt", {}, ["takes", "frees", "writes", "waits", "live", "funs", "panic"]), ("part", {"rt": 1}, ["takes", "frees", "writes"])],
     "spec/Heap.tla, spec/MC_Heap.tla, spec/Trace_Heap.tla, spec/Part.tla, spec/Trace_Part.tla",
     ["memory operations and writing calls on the audio side", "which samples and functions still exist", "progress while the user interface holds its locks"],
     "TLC explores all interleavings of 4 (thorough 6) user interface operations over two samples and two nodes with a ring of two messages, an audio side taking one message and a background thread taking one object at a time, and checks that everything sent arrives; on the code 400 (thorough 8000) sessions of 60 to 140 operations over every node, and 400 (6000) node runs divided into blocks",
     assumptions=["the first block a thread processes may set up its log", "at most 512 programs, settings and samples are replaced between two rounds (250 ms) of the background thread", "changing the sample rate may itself take memory"])

prop("C27", "TSeq runs through its pattern at the pace of its clock",
     "The tracker sequencer moves on by one row, or by one whole pattern, in the time between the last two clock triggers, or stands where the clock signal says; a trigger on trig takes it back to the start. "
     "Every frame each column gives what its kind and its cells say for that position: the held note or step, the value on its way to the next, the gate with its length and repetition - and a trigger output that tells which rows are set. "
     "A gate with a probability is decided anew every time its row is entered, kept while the row lasts, and played as often as its probability says.",
     ["inputs", "programs"],
     "every pattern (1 to 64 rows of four kinds of columns), clock mode, clock and trigger signal, sample rate and division into blocks",
     "tests play a few short patterns with one fixed clock and look at single frames",
     ["src/dsp/node_tseq.rs", "src/dsp/tracker/sequencer.rs", "src/dsp/tracker/mod.rs", "src/dsp/tracker/pattern.rs"],
     [("PatternSequencer", "src/dsp/tracker/sequencer.rs"), ("TSeq::process", "src/dsp/node_tseq.rs"), ("TrackerBackend", "src/dsp/tracker/mod.rs")],
     [("nod", {"profiles": ("single",), "kinds": ("tseq",), "count": 600}, ["tseq", "led", "finite", "panic"])],
     "spec/Nodes.tla, spec/Tracker.tla, spec/MC_Nodes.tla, spec/Trace_Nodes.tla",
     ["all twelve outputs and the light of the node in every frame"],
     "TLC checks the machine over all clock and trigger signals of 6 (thorough 7) frames on a pattern with a probable gate (rows follow each other, the pace, decisions kept); on the code 600 (thorough 12000) random patterns and clocks of 257 to 1024 frames; "
     "probabilities are judged after 256 decisions of one gate within 53 of the expected number (Hoeffding: a wrong alarm has a chance below 1e-9)",
     assumptions=["positions within 600 + frames / 2^24 rows of a border between two rows count as either row", "patterns are set before the first block (changes while playing: C10, C26)"])

prop("C28", "The monitor shows the signals of the monitored cell as they were",
     "Of the cell chosen with Matrix::monitor_cell, every input and output that has a port is shown as points, each the least and the greatest of 900 consecutive samples that the node received or produced there; the last 160 points of each signal can be read at any time, in order and with the newest last, and reading never shows an older state than before. "
     "After a sync the cell at the monitored position goes on being monitored with the ports it has then; after a clear, or when that position is empty, nothing is added. "
     "All samples arrive after a short while without gaps or repetitions, unless the audio side ran so far ahead that no buffers were left, and then the monitor recovers on its own.",
     ["schedules", "inputs", "histories"],
     "every signal, block size, choice and change of the monitored cell, and interleaving of the audio side, the monitor thread and the reader",
     "tests feed a few ramps and constants through the monitor, always with full blocks, one cell and fixed sleeps",
     ["src/monitor.rs", "src/nodes/node_exec.rs", "src/nodes/node_conf.rs", "src/matrix.rs"],
     [("MonitorBackend, MonitorProcessor, MonitorMinMax, Monitor", "src/monitor.rs"), ("NodeExecutor::process (monitor part)", "src/nodes/node_exec.rs"),
      ("NodeConfigurator::monitor", "src/nodes/node_conf.rs"), ("Matrix::monitor_cell, remonitor_cell", "src/matrix.rs")],
     [("mon", {}, ["shown", "late", "again", "sync", "silent", "panic"])],
     "spec/Monitor.tla, spec/MC_Monitor.tla, spec/Trace_Monitor.tla",
     ["all 160 points of all six signals at random moments and after everything has arrived", "what the nodes received and produced, frame by frame"],
     "TLC explores all interleavings of the audio side, thread and reader over 3 (thorough 4) blocks of two signals with 3 buffers (conserved, shown is a past state, moves forward, arrives); on the code 200 (thorough 4000) random histories of up to 2000 blocks with the library's own thread running, some of them outrunning it",
     assumptions=["samples lie between -100 and 100 (the accumulators of the implementation start there)", "the monitor thread gets to run within 6 seconds", "which signals are monitored after monitor_cell is given a cell without a node is not prescribed"])
