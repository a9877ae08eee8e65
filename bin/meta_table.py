prop("C01", "Audio buffers keep channels and samples apart",
 "Every audio buffer of N channels has 64 samples per channel, and writing one (channel, sample) location through any scalar, vector, slice or sub-buffer view changes exactly that location as seen through every other view. Sub-buffer views select exactly the requested channels, and no in-range access reaches memory outside the buffer.",
 ["inputs", "configurations"], "all channel counts (contracts per shape), all channel and sample indices, all 32-bit sample patterns, all view kinds",
 "The tests read and write a few buffers with a few values; the views use pointer casts between vector and scalar layouts, where an off-by-one only shows at particular index pairs.",
 A(["buffer.rs"], [("BufferRef / BufferMut / BufferArray / BufferVec views", "buffer.rs")]))
claim("C01", "Kani function contracts (bit-precise, all indices)", "proof", "All indices and sample bit patterns for representative channel counts; memory safety of the unsafe casts included." + COMMON)

prop("C02", "Graph operators compute their documented sample function",
 "Each graph operator and its functional and indexed forms (pipe, stack, branch, bus, thru, arithmetic with nodes and constants, negation, split, join, reverse, pass, sink, maps, sums, products, chains) produces, for every sample, exactly the output its definition prescribes from its components' outputs, in the documented channel order. Every component is run exactly once per sample on exactly the inputs its definition assigns to it, and arities add up as documented.",
 ["programs", "inputs", "histories"], "any component nodes in any state, any input sample, successive samples",
 "Tests compose a handful of fixed graphs; a channel swap, a lost component or a wrong operand order needs particular arities or asymmetrical components to show.",
 A(["audionode.rs", "combinator.rs", "hacker32.rs", "hacker.rs", "prelude.rs"], [("tick of every combinator node", "audionode.rs"), ("operator overloads", "combinator.rs")]))
claim("C02", "Kani contracts over opaque components", "proof", "Components are arbitrary (symbolic state, injective mixing); constants and inputs symbolic." + COMMON)

prop("C03", "Block processing equals sample-by-sample processing",
 "For every node and graph operator, processing a block of any length from 0 to 64 samples produces the same samples as running it one sample at a time from the same state, and leaves it ready to continue identically. No sample of the requested block is left unwritten and no component is given the wrong length.",
 ["inputs", "programs", "histories"], "all block lengths, all input samples, any components, any splitting of a stream into blocks",
 "Tests compare block and tick output on a few graphs with random sizes; remainders of vector loops and mid-stream state carry-over are sampled only.",
 A(["audionode.rs", "audiounit.rs", "combinator.rs"], [("process of every combinator node", "audionode.rs"), ("default process from tick", "audionode.rs")]))
claim("C03", "Kani contracts with a witness sample; bounded native comparison for stateful leaf nodes", "proof", "Combinators are proved; leaf nodes (oscillators, filters, delays, envelopes, effects) are a bounded stand-in, labelled bounded." + COMMON)

prop("C04", "Reset, sample rate, allocation and hashing reach every component",
 "Resetting a graph, changing its sample rate or asking it to allocate does so exactly once to every node inside it, whatever the enclosing operators and wrappers, with the sample rate each node should see. Pinging assigns every node a hash that depends on its location, probing computes the same hash without assigning, and constructing a graph hashes all of it.",
 ["programs", "configurations"], "every operator and wrapper, any components, any sample rate",
 "Tests check a few composite graphs; a node skipped by one operator keeps stale state or a stale sample rate only in that composition.",
 A(["audionode.rs", "audiounit.rs", "feedback.rs", "oversample.rs", "resample.rs", "system.rs", "setting.rs"], [("reset / set_sample_rate / allocate / ping", "audionode.rs")]))
claim("C04", "Kani contracts over recording components", "proof", "Every operator and wrapper; sample rate symbolic, hash seed fixed." + COMMON)

prop("C05", "Settings reach exactly the addressed component",
 "A setting applied to a graph, directly or through a listener, is received exactly once by the component its address names and by no other, with its value intact. Wrappers without an address level of their own pass settings on unchanged, binary structures consume a left or right level, indexed structures an index level; settings sent to a listener take effect in order before the next sample.",
 ["inputs", "programs", "histories"], "all addresses up to four levels, all values, every operator and wrapper, any order of sends",
 "Existing tests apply few settings to few structures, and none through a listener whose effect is observed.",
 A(["setting.rs", "audionode.rs", "audiounit.rs", "feedback.rs", "oversample.rs", "resample.rs"], [("Setting address levels, direction and peel", "setting.rs"), ("set of every structural node", "audionode.rs"), ("setting listener", "setting.rs")]))
claim("C05", "Kani contracts over recording components", "proof", "All structural nodes and wrappers; the listener queue is an assumed sequential FIFO." + COMMON)

prop("C06", "Network edits change exactly what they name",
 "After any sequence of edits of a network (pushing, replacing and removing nodes, connecting, disconnecting, piping and linking through), exactly the named nodes and connections have changed: every other node keeps its ID, its unit and its sources, every output keeps its source. Removing a node redirects or zeroes exactly the connections that used it, and every connection always names an existing port of an existing node and never its own node.",
 ["histories", "inputs"], "all networks of any size and all edit operations with valid arguments, in any order",
 "Tests edit a few small networks; a stale index after a removal or a connection lost by renumbering needs a particular shape and order of edits.",
 A(["net.rs", "vertex.rs"], [("remove_2: swap with the last vertex and renumbering", "net.rs"), ("connect / set_source / pipe_* / chain / push / replace", "net.rs")], [("node_index", "node ID to vertex index", "net.rs"), ("Vertex::source", "edges into a vertex", "vertex.rs")]))
claim("C06", "Verus contracts laid over the real functions, extracted on every run; bounded native model comparison", "proof", "All networks and edits, for the graph; the sound of an edited network is a labelled bounded stand-in." + NETNOTE)

prop("C07", "Networks run nodes in order and compose as their operators say",
 "A network runs every node exactly once per sample, after all the nodes it is connected to, unless the connections contain a cycle; an error is reported exactly then. Combining networks with the graph operators yields a network with all nodes of both, connected as before except where the operator joins them, whose output is that of the same combination of static graphs; IDs stay unique, and unaffected IDs are kept.",
 ["programs", "histories", "inputs"], "all networks of any size, all operators, any input, sample-by-sample and block processing",
 "Tests compare a few random networks; ordering mistakes need particular shapes, and shortcuts between vertices particular connections.",
 A(["net.rs", "vertex.rs"], [("determine_order_in and propagate", "net.rs"), ("update_source_vertex", "vertex.rs"), ("branch, stack, pipe, bus, binary, thru, disambiguate_ids", "net.rs")], [("order", "evaluation order", "net.rs"), ("source_vertex", "shortcut for contiguous inputs", "vertex.rs")]))
claim("C07", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison with static graphs", "proof", "Order determination (termination, permutation, topological order, cycle reports) and all operators are proved for networks of any size; evaluation of the samples is a labelled bounded stand-in." + NETNOTE)

prop("C08", "Commits and crossfades carry a running network over",
 "Committing a frontend makes its backend sound like the frontend: nodes that were not changed keep running in the very state they were in, in mid-fade too, changed and new nodes take the frontend's unit, and messages take effect in the order they were sent. A crossfade ends at the unit requested last, passes from the old unit to the new one within the fade time without losing the node's connections, and all units involved run at the network's sample rate.",
 ["histories", "schedules", "inputs"], "all networks of any size, any sequence of edits, crossfades, settings, rate changes and commits, at any time relative to running fades",
 "Tests commit a few networks once or twice; a stale index or revision, or an edit lost while a fade runs, needs a particular sequence of edits and commits.",
 A(["net.rs", "vertex.rs", "realnet.rs"], [("migrate, commit, backend, apply_edits, crossfade", "net.rs"), ("next_phase, enqueue", "vertex.rs"), ("handle_messages", "realnet.rs")], [("Vertex::changed", "revision of the last change", "vertex.rs"), ("next / latest", "unit being faded in and the one after it", "vertex.rs"), ("edit_queue", "crossfades waiting for a commit", "net.rs")]))
claim("C08", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison of frontend and backend", "proof", "The hand-over of units, edits, revisions and rates is proved for networks of any size and message sequences of any length; the fade curves and the sound are a labelled bounded stand-in; queues are sequential FIFOs (no concurrency)." + NETNOTE)

prop("C11", "The sequencer plays every event exactly in its time",
 "Every event pushed to a sequencer is in exactly one of three places - waiting, active or past - and none is lost, duplicated or confused with another by any sequence of pushes, edits, resets and sample rate changes. An event becomes active in the block in which it starts, with any edit made to it, is given exactly one turn per block or sample until it ends, and sounds from its start sample to its end sample with its fades; a frontend's changes reach the backend in order, at the backend's sample rate.",
 ["histories", "inputs", "schedules"], "any number of events with any times, edits, resets and rate changes, in any order, sample-by-sample and in blocks of any length",
 "Tests play a handful of events; index mistakes in the active list need several events ending in a particular order, and edits must meet their event at particular times.",
 A(["sequencer.rs", "realseq.rs"], [("push_event, edit, ready_to_active, tick, process, reset, set_sample_rate", "sequencer.rs"), ("handle_messages", "realseq.rs")], [("active / active_map", "playing events and their index", "sequencer.rs"), ("ready", "heap of waiting events", "sequencer.rs"), ("edit_map", "edits of waiting events", "sequencer.rs")]))
claim("C11", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison with a direct mix", "proof", "The bookkeeping of events is proved for any number of events and blocks; sample positions, fades and the backend are a labelled bounded stand-in. Trusted: Verus/Z3; the extraction and its listed rewrites (times and rates as opaque numbers, samples not modelled); heap, hash map, queues and boxed units with assumed contracts.")

prop("C12", "A slot crossfades to the unit set last",
 "Units set into a slot are taken up in the order they were set: the first starts fading in at once, later ones wait, and the last one set is where the slot ends up, with its own fade shape and time. The playing unit is never cut off except by reset, which adopts the unit set last; every unit runs at the slot's sample rate, whenever the rate was changed.",
 ["histories", "schedules", "inputs"], "any sequence of updates, resets, rate changes and blocks, at any time relative to running fades",
 "Tests set a slot once; the order of adoption, stale fade parameters and stale sample rates need several updates while a fade is running.",
 A(["slot.rs"], [("handle_messages, next_phase, reset, set_sample_rate", "slot.rs"), ("Slot::set", "slot.rs")], [("next / latest", "unit being faded in and the one after it", "slot.rs")]))
claim("C12", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison with a reference crossfade", "proof", "The hand-over of units is proved for update sequences of any length; fade curves and sound are a labelled bounded stand-in. Trusted: Verus/Z3; the extraction and its listed rewrites (times and rates as opaque numbers, samples not modelled); heap, hash map, queues and boxed units with assumed contracts.")

prop("C13", "Delay lines and look-ahead windows are exact",
 "A fixed delay puts out exactly the sample that entered round(time x sample rate) samples ago, for every time and rate, after any history of resets and rate changes, and silence before that. Variable delays read the input at the delay given with each sample, clamped to their limits, whatever the length of the line. A limiter delays by exactly its reported look-ahead, its window knows the largest magnitude of exactly the frames on their way through, and it never amplifies, never lets a frame exceed -1...1 and scales all channels alike.",
 ["inputs", "histories", "configurations"], "any delay times and sample rates, any signals and delay signals, any window length, sample-by-sample and in blocks of any length",
 "Tests try a few delays; mistakes in the wrap-around of a ring buffer or in the tree of window maxima need particular lengths and positions.",
 A(["delay.rs", "dynamics.rs"], [("Delay, Tap, TapLinear", "delay.rs"), ("ReduceBuffer, Limiter", "dynamics.rs")], [("buffer / i", "ring buffer and its write position", "delay.rs"), ("ReduceBuffer::buffer", "tree of maxima over the window", "dynamics.rs")]))
claim("C13", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison with direct references", "proof", "Delay, the maximum tree and the limiter's window are proved for lines of any length and signals of any length; interpolation and the follower are a labelled bounded stand-in. Trusted: Verus/Z3; the extraction and its listed rewrites (frames and products of samples opaque, order of magnitudes assumed total); Vec operations with assumed contracts.")

prop("C15", "Signal flow analysis composes as the graph does",
 "Latency and frequency response of a graph are composed from those of its components as the graph's operators prescribe: every component is analysed on exactly its own inputs, linear mixing and constant scaling preserve responses, nonlinear combination preserves only the earliest latency, and latency is added once. The reported latency of a graph is the earliest over its outputs, and its response is that of the requested output.",
 ["programs", "inputs", "configurations"], "any components with any signal annotations, every operator, any frequency",
 "Tests compare a few filter graphs against FFT measurements; mis-assigned inputs and mixed constant, latency and response operands need particular shapes.",
 A(["signal.rs", "audionode.rs", "audiounit.rs"], [("Signal algebra and Routing", "signal.rs"), ("route of every combinator", "audionode.rs"), ("latency and response queries", "audiounit.rs")]))
claim("C15", "Kani contracts over opaque components", "proof", "Signal kinds symbolic; arithmetic over 8-bit integer values." + COMMON)

prop("C17", "Waves keep their shape through edits, rendering and files",
 "All channels of a wave have the same length, and every edit - pushing, inserting, removing, resizing, appending, retaining, mixing, setting, amplifying - changes exactly the samples it names and keeps the rest in place. A rendered or filtered wave has the requested length and holds exactly what the unit puts out at the wave's sample rate, with its latency discarded when asked. A player plays exactly the chosen span and loop, and a written file holds the wave's samples or reports an error.",
 ["inputs", "histories", "configurations"], "waves of any number of channels and samples, any sequence of edits with any positions, spans, units, sample rates and sinks",
 "Tests render a few waves; spans beyond the end, empty waves, several channels, rates other than the default and failing sinks are untested.",
 A(["wave.rs", "write.rs"], [("editing and rendering", "wave.rs"), ("WavePlayer", "wave.rs"), ("write_wav16, write_wav32", "write.rs")], [("vec / len", "channels and their common length", "wave.rs")]))
claim("C17", "Verus contracts laid over the real functions, extracted on every run; bounded native comparison with a plain model", "proof", "Editing and playing are proved for waves of any size; rendering, filtering and files are a labelled bounded stand-in. Trusted: Verus/Z3; the extraction and its listed rewrites (samples and their products opaque); Vec operations with assumed contracts.")

prop("C21", "Reset, clones and fresh instances reproduce a unit exactly",
 "After any history of samples, blocks and sample rate changes, a reset puts every state variable of a node back to where it starts from its hash, seed or initial phase, and keeps its parameters: the unit then puts out what a freshly made one at that rate would. A freshly made unit needs no reset and does the same as any other made in the same way; a clone taken at any time continues exactly like the original, and neither disturbs the other.",
 ["histories", "inputs", "configurations"], "every node, any history of processing and rate changes before the reset or the clone, any input after it",
 "Tests reset a unit at few points of few histories; a state variable left behind by reset shows only after a history that has moved it.",
 A(["filter.rs", "svf.rs", "biquad.rs", "moog.rs", "follow.rs", "noise.rs", "oscillator.rs", "wavetable.rs", "envelope.rs", "reverb.rs"], [("reset of every node", "audionode.rs"), ("reset and seeding of generators", "noise.rs"), ("reset and phase of oscillators", "oscillator.rs")]))
claim("C21", "Verus contracts laid over the real reset functions, extracted on every run; bounded native comparison of reset, fresh and cloned instances", "proof", "The reset of 37 leaf nodes is proved to restore the stated start state and keep the parameters; that a tick changes nothing else, the constructors, clones and the remaining nodes are a labelled bounded stand-in over all opcodes; that reset reaches all nodes of a graph is C04. Trusted: Verus/Z3; the extraction and its listed rewrites (numbers, coefficients, tables opaque).")

prop("C20", "Frontends and backends stay consistent across threads",
 "A network, sequencer or slot frontend and its backend may be used from different threads at any relative timing: every message is received at most once, in order and complete, nothing is shared without synchronisation, and shared variables and snoop buffers are never seen torn.",
 ["schedules"], "any interleaving of a frontend thread and an audio thread",
 "Tests run both sides in one thread; races need particular interleavings.",
 A(["realnet.rs", "realseq.rs", "slot.rs", "shared.rs", "snoop.rs"], [("message queues", "realnet.rs"), ("shared variables", "shared.rs")]))
NA["C20"] = "Verus and Kani decide sequential code here: the queues are thingbuf's lock-free channels and atomics in dependencies, for which neither tool has a memory model; the contracts of C08, C11 and C12 assume the queue is a FIFO. Interleaving exploration (loom) is another family."

prop("C22", "Audio processing neither allocates nor blocks",
 "After allocate() has been called, tick and process of any unit, including a backend that adopts messages, neither allocate nor free memory, nor take a lock.",
 ["inputs", "histories", "programs"], "any unit, any history, any message sequence",
 "Tests do not count allocations; growth of a buffer needs particular sizes and histories.",
 A(["audiounit.rs", "realnet.rs", "net.rs"], [("allocate", "audiounit.rs"), ("handle_messages", "realnet.rs")]))
NA["C22"] = "Heap allocation is not part of what a Verus or Kani contract can state about safe Rust (no allocation effect in the logic, Vec capacity is not modelled); that allocate reaches every component is C04."

prop("C24", "Finite input gives finite output",
 "For stable parameters, every unit maps bounded finite input of any length to bounded finite output.",
 ["inputs", "histories"], "any unit at stable parameters, any bounded input of any length",
 "Tests run short signals; instability and divisions by zero need particular parameters or long inputs.",
 A(["svf.rs", "biquad.rs", "moog.rs", "filter.rs", "reverb.rs"], [("filters", "svf.rs"), ("feedback", "feedback.rs")]))
NA["C24"] = "Bounds over unbounded runs of floating-point recurrences with transcendental coefficients are out of reach of both verifiers (Verus has no float arithmetic, Kani is bounded in time and does not model sin or tan); a native search (n24_finite) exists as a developer aid but decides nothing."

prop("C25", "Oscillators and filters have their documented sound",
 "Oscillators have the requested frequency, phase and spectrum without audible aliasing, filters the documented response, and approximations in math.rs their documented accuracy.",
 ["inputs", "configurations"], "any frequency, parameter and sample rate in range",
 "Tests sample a few parameters.",
 A(["oscillator.rs", "wavetable.rs", "math.rs", "svf.rs"], [("oscillators", "oscillator.rs"), ("approximations", "math.rs")]))
NA["C25"] = "Accuracy of transcendental functions and spectra is analysis over the reals; no contract in the installed deductive verifiers can state it about this code. That reported responses compose correctly is C15."
