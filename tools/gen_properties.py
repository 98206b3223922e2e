#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
N = "neural_graph_composer/"
GB = N + "midi_graph_builder.py"
NOTE = N + "midi/midi_note.py"
SEQ = N + "midi/midi_sequence.py"
SEQS = N + "midi/midi_sequences.py"
RD = N + "midi_reader.py"
PM = N + "custom_pretty_midi.py"
DS = N + "midi_dataset.py"

# ---------------------------------------------------------------- graph building
prop("C01", "Every sounded pitch, and nothing else, becomes a chord node",
 "The graph built for an instrument has exactly one node per distinct pitch set among the groups of simultaneously sounded notes: notes starting together share a group, no pitch is lost or invented, and a group larger than the feature size is split into pieces no larger than it that together cover it exactly. A node's features are the group's pitches zero-padded to the feature size (with a parallel velocity row when velocities are requested). Drum notes and notes of zero velocity never contribute, single-note groups are left out only when asked, and an instrument with nothing to sound yields an empty graph.",
 ["inputs", "configurations"], "all short note lists over a small grid of start times, pitches, velocities and drum flags, in every order, times feature size, velocity and single-note options",
 "the stable tests build three hand-made triads with one configuration; grouping, splitting and filtering interact over the whole input space",
 [GB], [("grouping by start time", GB + ":compute_data"), ("splitting and node creation", GB + ":build_sequence"), ("feature tensor", GB + ":create_tensor")],
 ["nodes, attributes of the graph returned for one sequence"])
prop("C02", "Edge weights count the chronological chord transitions",
 "Walking an instrument's chord groups in order of time, the first group contributes a self-connection of weight one and every step to the next group adds exactly one to the weight of the connection between the two chords, in whichever direction it already exists, otherwise a new edge from the earlier chord to the later one; a group split for the feature size is walked as its parts, one after another. No other edges exist, so the total weight equals the number of groups (or parts), whatever order the notes were supplied in.",
 ["inputs", "histories"], "all note lists up to a bounded length on a time grid with repeats, in every supply order",
 "the tests that look at weights fail or check one triad; ordering bugs need particular start times and revisits of earlier chords",
 [GB], [("transition loop", GB + ":build_sequence"), ("chronological ordering of groups", GB + ":compute_data, build_sequence")],
 ["edges and weights of the graph"])
prop("C03", "Chord, hash and class-index tables stay mutually inverse",
 "At every moment the builder's chord-to-hash and hash-to-chord tables are inverse to each other, as are its hash-to-index and index-to-hash tables, and all four describe the same chords; distinct chords get distinct indices. An index once assigned to a chord never changes and no entry disappears, however many pieces are built, in whatever order, with whatever options, and whatever a caller does to the tables it was handed.",
 ["histories"], "all sequences of builds of small pieces sharing some chords, interleaved with draining the produced graphs",
 "no stable test builds twice on one builder or reads the tables back",
 [GB], [("tables updated per chord", GB + ":build_sequence")], ["the four read-only table properties"],
 [("hash/index tables", "chord identity shared by all graphs of a corpus", GB)])
prop("C04", "Conversion of a graph to tensors is lossless",
 "Converting a chord graph to tensor form yields one feature row per node in node order, one column of the edge index per directed edge in edge order with the weight alongside it, and per-node hashes in the same order, so the original graph can be reconstructed exactly. The input graph is not modified, an undirected graph becomes the symmetric directed one, and a graph whose nodes (or edges) carry differing attributes is refused. Asked for particular node or edge attributes, or for 'all' of them, exactly those become columns, in the order asked, and the others stay as lists in node or edge order.",
 ["inputs"], "all weighted directed graphs on up to three or four nodes, plus undirected ones and malformed attributes",
 "the stable tests never convert a graph",
 [GB], [("conversion", GB + ":from_midi_networkx")], ["tensors of the returned data object"])
prop("C05", "Every built graph is delivered exactly once and labelled decodably",
 "After building any number of pieces, iterating the builder delivers one data object per non-empty graph, in build order, each exactly once, after which nothing is left to deliver; graphs built later are delivered later. Each delivered object's class targets decode, through the builder's tables, to exactly the chord of the corresponding node, and the optional consistency check and label suppression do not change what is delivered otherwise.",
 ["histories", "schedules"], "all interleavings of build, start iterating, take next, abandon, up to a bounded depth",
 "tests never consume the generator across several instruments or builds",
 [GB], [("delivery generator", GB + ":graphs, __iter__"), ("store of pending graphs", GB + ":build")],
 ["objects yielded; pending list"])
prop("C06", "Velocity features preserve loudness order within range",
 "Rescaling a chord's velocities returns one value per input, all between the target bounds, that never reverses the order of two inputs and gives equal inputs equal outputs; when inputs differ, the quietest maps to the lower and the loudest to the upper bound. When a pitch is struck several times within a group its velocity is the loudest, so the velocity row of a node does not depend on the order of the notes. Relative scaling keeps results in 0..127, in order, and scaled by the given factor.",
 ["inputs"], "all velocity vectors up to length 4 over boundary values and all pairs 0..127, and all orders of duplicated pitches",
 "no stable test exercises velocities in graph features",
 [GB], [("rescaling", GB + ":rescale_velocities, scale_relative_velocities"), ("max per pitch", GB + ":build_sequence")], ["returned lists; second feature row"])
prop("C07", "Whole-piece graphs contain every instrument's chords and transitions",
 "Building one graph for a whole piece yields a single graph whose chords are exactly the union of the instruments' chords and which contains every chord transition of every instrument, with weights summed over the instruments, plus at most one connection of weight one that joins each later instrument to the graph built so far; building per instrument yields one graph per sounding instrument, in track order, each equal to that instrument built alone. Drum tracks and tracks with a single note are skipped in both modes. Building an instrument onto a graph handed over adds its chords and transitions to it, and a silent one adds nothing and loses nothing.",
 ["inputs", "configurations"], "all pieces of up to three small tracks drawn from a set of melodies, including drum, empty, silent and one-note tracks",
 "the tests of multi-instrument builds do not run to completion",
 [GB], [("per-instrument loop and merge", GB + ":build")], ["pending graphs after build"])
prop("C08", "Graph queries agree with the graph",
 "Looking up a chord's neighbours, the edge from a first to a second chord, or whether the first chord is reached by an edge from the second, gives exactly what the graph's edge set says, whether chords are given as pitches or as notes and in any order of pitches; chords of anything else are refused. Merging nodes replaces them by one new node that keeps every outgoing connection of the merged nodes to the rest, with a weight taken from the merged connections, and leaves the rest of the graph untouched.",
 ["inputs"], "all directed graphs over three small chords and every query and every subset to merge",
 "tests query one edge of one graph",
 [GB], [("queries", GB + ":neighbors, is_connected, get_edge_connected, merge_nodes")], ["return values"])
prop("C09", "However music is handed to a graph builder, the same graphs come out",
 "Given the same build options, a builder makes the same graphs, tensors and tables whether the piece is given to the build, to the constructor or to one of the factory methods, as a piece or as a single track, or as a file read by any of the entry points (builder, reader, piece with a reader) - which give the content of the file and remember its name. A builder with a piece of its own builds it whenever no other is given, in any history of builds and of drawing the produced graphs, just as if it had been given. Creating a builder builds nothing. What is not music, a file that is missing, unreadable or not named as MIDI, and sizes, tolerances or options that make no sense are refused without effect.",
 ["inputs", "histories", "configurations"], "all small pieces through every way in, all histories of up to three or four builds on each kind of builder, and a list of things that are not music",
 "the tests construct builders one way only, from the one piece they have",
 [GB, RD, SEQS], [("constructors and factories", GB + ":__init__, from_midi_sequence, from_midi_sequences, from_file"), ("own piece", GB + ":build"), ("reading", RD + ":from_file"), ("reading", SEQS + ":from_file")],
 ["graphs, tensors and tables of the builder"])

# ---------------------------------------------------------------- notes and sequences
prop("C10", "Notes stay valid under every operation, and refused changes change nothing",
 "However a note is created or changed (attributes assigned, quantized, copied, shifted or stretched without moving its start below zero), its pitch and velocity stay within 0..127, its program within 0..255, its instrument within 0..127, and it starts at a non-negative time strictly before it ends, provided it was created so; out-of-range pitch, velocity, program and instrument are clamped on creation. The pitch name always follows the pitch. A change that would break this is refused with an error and leaves the note exactly as it was.",
 ["histories", "inputs"], "all sequences of property assignments and time operations up to a bounded depth from several initial notes",
 "tests set single attributes on fresh notes",
 [NOTE], [("constructor clamping", NOTE + ":__init__"), ("validating setters", NOTE + ":start_time, end_time, pitch, program setters")], ["attributes after every operation"])
prop("C11", "Note order, equality, copies and decoding are coherent",
 "Notes whose times differ by more than a microsecond or not at all are totally ordered by start, then end, then pitch, consistently with less-or-equal, so sorting any list is deterministic up to ties; whether two notes overlap is symmetric and holds exactly when they sound at a common moment. A copy, or a note decoded from a serialized description, equals the note it describes, and changing a copy never changes the original.",
 ["inputs"], "all pairs and triples of notes over a small attribute grid; every single-attribute difference",
 "tests compare a few hand-picked pairs",
 [NOTE], [("ordering", NOTE + ":__lt__, __le__, __eq__"), ("copying, decoding", NOTE + ":make_copy, from_json, MidiNoteJSONDecoder")], ["comparison results; copies"])
prop("C12", "Quantizing a note puts it on the grid without inverting or emptying it",
 "For any grid and strength, quantizing gives non-negative steps with start strictly before end, namely the time in steps plus the slack, rounded down for the start and up for the end, and leaves a note that still starts before it ends at non-negative time. At full strength, the strongest there is, both times lie on the grid, the quantized note covers the original one, and quantizing again on the same grid changes nothing. The copying form leaves the original untouched, and a non-positive grid or strength is refused.",
 ["inputs", "histories"], "all start/end pairs on a fine time lattice times grid rates and strengths, and repeated quantization",
 "tests check isolated numeric examples",
 [NOTE], [("quantization", NOTE + ":quantize_in_place, quantize, quantize_to_nearest_step")], ["times and steps"])
prop("C13", "A track's total time always equals its latest note end",
 "After any history of adding, inserting, appending, extending, merging, replacing, removing, stretching or shifting notes, a track reports as total time the latest end among its notes (zero when empty), its length and contents are exactly the notes put in, and an operation refused with an error leaves contents and total time unchanged. Bulk and single-note forms of the same operation give the same result. Shifting a track whose notes are all quantized, or an empty one, is refused.",
 ["histories"], "all operation sequences up to a bounded depth over a small set of notes, melodic and drum tracks",
 "tests apply one operation to one track",
 [SEQ], [("total time maintenance", SEQ + ":append, extend, add_note, insert, merge, stretch, shift_times, cut_in_place, notes setter")], ["total_time, notes, len"])
prop("C14", "Merging and inserting keep every note, in order",
 "Merging (or adding with +) two tracks of the same instrument and resolution leaves the receiver with the combined collection of notes in sorted order and the other track unchanged, and the result does not depend on which order notes or tracks were supplied. Inserting into an ordered track keeps it ordered. Tracks of different instruments or resolutions, or holding foreign notes, are refused without any change.",
 ["histories", "inputs"], "all pairs and triples of small tracks and all insertion orders of small note sets",
 "tests merge one pair",
 [SEQ], [("merge, insert", SEQ + ":merge, insert, validate_instrument")], ["notes of receiver and argument"])
prop("C15", "Windowing a track selects exactly the right notes and never touches the source",
 "Slicing keeps exactly the notes that start inside the half-open window, clipped to its end; truncating keeps exactly those ending by the limit; cutting keeps the first so many; extracting at given times gives one piece per interval holding the notes starting there, shifted to the interval and clipped to it. The source track and its notes are left unchanged, later changes to the result do not affect the source for slices, truncations and extractions, and the instrument is preserved by slicing, truncating and cutting. Splitting by a span or a list of times partitions the notes by start; extraction is refused on quantized tracks and for times past the end; trimming or truncating a piece does so to each of its tracks.",
 ["inputs", "histories"], "all tracks of up to three notes on a time grid and all window bounds on and between grid points",
 "tests slice two or three fixed tracks and do not look at the source",
 [SEQ], [("windowing", SEQ + ":slice, truncate, cut, cut_in_place, extract, split, compute_intervals, clone_empty")], ["result and source notes"])
prop("C16", "Stretching, shifting and cloning are exact and isolated",
 "Stretching multiplies every start and end by the factor and shifting adds the offset, in place, preserving order, durations up to the factor, pitches and all other attributes; stretching by a factor and then by its inverse, or shifting forth and back, restores the track. A clone equals its source in notes, controllers, instrument, resolution and total time, and changes to either never show in the other.",
 ["histories", "inputs"], "all operation words up to a bounded depth over exact binary factors and offsets, applied to source and clone in all interleavings",
 "tests stretch one track once",
 [SEQ, NOTE], [("stretch, shift_times, clone", SEQ), ("stretch, shift_time", NOTE)], ["notes of source and clone"])
prop("C17", "Quantizing a track quantizes every note and controller and counts the steps",
 "Quantizing a track on any grid of up to 32 steps per second quantizes each of its notes and controller events exactly as that event alone would be, loses none, and reports a total step count equal to the largest end step and a total time equal to the latest end. A track reports itself quantized exactly when all its notes are, and a piece exactly when all its tracks are. Note objects handed in are not modified.",
 ["histories", "inputs"], "all small tracks times grids and strengths, repeated, with and without controllers",
 "the test that quantizes a track fails; none covers controllers or the step count",
 [SEQ, SEQS, N + "midi/midi_control_change.py"], [("track quantization", SEQ + ":_quantize, quantize, is_quantized"), ("piece flag", SEQS + ":is_quantized"), ("controller quantization", N + "midi/midi_control_change.py:quantize_in_place")], ["notes, control changes, total steps"])

# ---------------------------------------------------------------- collections of tracks
prop("C18", "Note names, frequencies and step durations agree",
 "For every MIDI pitch the note's name, in any usual spelling (flats, doubled or unicode accidentals, lower case), read back gives a note of that pitch with the attributes given and the defaults otherwise. Frequencies put A4 at 440 Hz, double per octave and grow by the twelfth root of two per semitone, whether asked by number or by pitch name and octave. A quantized note's duration is its steps divided by the grid in seconds and the number of steps covered inclusively in samples; seconds from steps are rounded to five places, halves up; unquantized notes and non-positive grids are refused. Notes anywhere in a JSON document (as text or bytes) decode to notes and the rest stays as it was.",
 ["inputs"], "all 128 pitches in all spellings, all attribute combinations, a grid of step pairs and grids, documents nested to a bounded depth",
 "tests check a few names and one duration",
 [N + "midi/midi_note.py"], [("name, frequency and step conversions", N + "midi/midi_note.py:MidiNote")], ["attributes of notes", "return values"])
prop("C19", "Queries leave tracks, pieces and notes as they are and repeat their answers",
 "Asking a note, a track or a piece about itself - its notes, pitches, text form, parts (slices, splits, cuts, extracts, truncations), copies, sums, signatures, listings, tempo, minimal step, graphs or MIDI form - changes nothing that can be observed of it: notes keep their order and attributes, signatures, controllers and totals stay. Whatever was asked before, and how often, a question gets the answer it would have got first.",
 ["histories"], "all sequences of queries up to a bounded depth on all small tracks (in every order of their notes), pieces and notes",
 "tests ask each object one question and rarely look at the object afterwards",
 [N + "midi/midi_sequence.py", SEQS, N + "midi/midi_note.py"], [("queries", N + "midi/midi_sequence.py:as_note_seq, compute_intervals, slice, split, cut, extract, truncate, __add__"), ("listings", SEQS + ":slice_time_signatures, get_all_sequence_events")], ["state before and after", "answers"])
prop("C20", "The signature in force at any time is the latest one at or before it",
 "After any sequence of additions in any order, asking for the time signature, key or tempo in force at a moment gives the most recently effective entry at or before that moment (the later added one when several coincide, and an addition at the time of the first entry replaces it); before any change the default applies (four-four time; 120 quarters a minute at the default resolution; tempos are reported as whole quarters and resolution). The answer always reflects all additions made so far, on this piece only, even when the same question was asked before the addition.",
 ["histories"], "all interleavings of additions and queries of the three signature kinds over a small time grid, up to a bounded depth, on two pieces",
 "tests add in time order, query away from change points and never re-query",
 [SEQS, N + "midi/midi_time_signature.py", N + "midi/midi_key_signature.py"], [("ordered insertion", SEQS + ":add_time_signatures, add_key_signatures, add_tempo_signature"), ("cached lookup", SEQS + ":time_signature, key_signature, tempo_signature, initial_tempo")], ["lookup results"],
 [("signature lists", "time-ordered", SEQS), ("per-method caches", "cleared on addition", SEQS)])
prop("C21", "Tracks are never lost or confused by track operations",
 "After any history of creating, getting, indexing, assigning and merging-in tracks, each track number given out names the same track from then on, distinct numbers name distinct tracks, a track's contents change only through operations on that track, and iteration visits every track once in ascending order. Creating an existing track returns it unchanged, out-of-range or wrongly typed numbers are refused without effect, and tracks of the same instrument given at construction are merged into one.",
 ["histories"], "all operation sequences up to a bounded depth over a small set of track numbers, including gaps and high numbers",
 "tests create tracks in ascending order and never mix the access paths",
 [SEQS, N + "midi/sorted_dict.py"], [("track map", SEQS + ":__getitem__, __setitem__, create_track, get_track, _add_midi_note_sequence"), ("ordered map", N + "midi/sorted_dict.py")], ["iteration, identity and contents of tracks"],
 [("track map and index map", "must agree", SEQS)])
prop("C22", "Signature listings are complete, ordered and bounded",
 "Listing time, key or tempo signatures up to a bound yields exactly the entries at or before the bound (all of them when no bound is given), each once, in time order whatever order they were stored in; the tempo listing leaves out only a tempo at time zero. Listing does not modify the piece, and listing all events of a piece yields every note of every track in order of start.",
 ["inputs", "histories"], "all signature lists up to length four in any order and all bounds on and off the grid",
 "the stable tests list with one bound",
 [SEQS], [("listing", SEQS + ":slice_time_signatures, slice_key_signatures, slice_tempo_signature, get_all_sequence_events")], ["yielded entries"])

# ---------------------------------------------------------------- reading and writing
prop("C30", "Reading a MIDI file yields exactly the notes it contains",
 "For every well-formed file, each note-on becomes one note on the track of its channel, of the program in force on that channel at the note-on, and of its file track, with the pitch and velocity of the note-on, start and end times given by the tempo map, and the drum flag of channel ten; nothing else becomes a note. A note ends at the first note-off of its key on its channel after its start tick, at the next note-on of the same key, or at the end of its file track, whichever comes first; a note whose note-off falls on its own start tick ends at the next note-on in its file track (or at its end), and notes of zero length are dropped. The result is the same whether the file is given as a path, as bytes or as a parsed file object.",
 ["inputs", "histories"], "all well-formed event schedules up to a bounded number of events over few pitches, channels, programs and tempo changes",
 "tests read a handful of recorded files and check a few notes",
 [RD, PM], [("event decoding", PM + ":from_file, _load_instruments"), ("assembly", RD + ":read, read_instrument")], ["notes of the tracks read"])
prop("C31", "Writing a piece and reading it back gives the same piece",
 "Writing any piece (MIDI-representable values, positive velocities, notes at least one tick long, no two overlapping notes of one pitch on a track, no range given) and reading it back yields the same notes, control changes and pitch bends on the same instruments (program, drum flag, name, pitch, velocity) with times equal to within one tick, the same resolution, and the same time, key and tempo signatures at the same times. Writing does not modify the piece, writing twice gives the same file, and serializing in memory or exporting a single track gives the same content as writing the file. A piece read from a file and written again is read the same, however often.",
 ["inputs", "configurations"], "all small pieces of up to three tracks times signatures, tempos, resolutions and programs",
 "the round-trip tests either fail or compare one file",
 [RD, PM], [("export", RD + ":to_pretty_midi, write"), ("serialization", PM + ":write, serialize")], ["piece before and after"])
prop("C32", "Writing never destroys an existing file without permission",
 "Writing a piece with the reader's write function to a path that exists fails and leaves the file byte-for-byte unchanged unless overwriting was requested; with that permission the file is replaced by the complete new content. Invalid pieces, file names or ranges are refused before anything is created or changed, and every refused or failing write leaves an existing file as it was, also when another process creates the file meanwhile.",
 ["histories", "fault_sequences", "configurations"], "all sequences of writes over a few paths, argument combinations and prior file-system states up to a bounded depth",
 "tests exercise one refusal",
 [RD], [("checks before writing", RD + ":write")], ["file system before and after"])
prop("C33", "Tick and second conversions follow the tempo map exactly",
 "For every history of tempo changes on a file's first track, the time of a tick equals the accumulated duration of the ticks before it at the tempos in force, is strictly increasing, and converting a tick to time and back returns the same tick; a time between two ticks gives the nearest tick, and beyond the end of the piece the last tempo applies. A tempo change at the start replaces the default tempo, the last of several changes at one tick wins, and the reported tempo list describes the same map (repetitions of the tempo in force may be left out).",
 ["inputs", "histories"], "all tempo histories of up to four changes over a tick grid, several tempos and resolutions, at every tick",
 "tests read files with a constant tempo",
 [PM], [("tempo map", PM + ":_load_tempo_changes, _update_tick_to_time, tick_to_time, time_to_tick, get_tempo_changes, update_scale")], ["conversion results"])
prop("C34", "Controllers, bends and meta events survive reading",
 "Every control change and pitch bend (-8192 to 8191) on a channel that sounds notes is attached once, with its number or amount and its time by the tempo map, wherever it falls in the piece: to the track of its channel's program in force, or, if that has not finished a note yet, to the next track to finish a note on that channel and file track. Time and key signatures of the file's first track are read with their values at their times, and each note carries the time signature in force at its start.",
 ["inputs", "histories"], "all placements of up to three control, bend and signature events around up to two notes",
 "no test reads a controller or bend from a file",
 [RD, PM], [("event assembly", RD + ":read_instrument_control_changes, read_instrument_pitch_bends, read_time_signature, read_key_signature")], ["control_changes, pitch_bends, signatures"])
prop("C35", "Beats and downbeats follow the tempo map and the time signatures",
 "From any start before the end of a piece, the first beat is at the start and each next one comes one beat later at the tempos in force meanwhile, a beat being a note of the denominator of the time signature in force (three of them if the numerator is a multiple of three greater than three; a quarter without signatures), except that a time signature change met on the way starts a beat of its own, after which counting goes on from there; beats strictly increase and all lie before the end. Downbeats are the beats that begin a bar: the first after the start or after each signature change, and from it every bar of the signature in force (four-four without one). Of several signatures at one time the last is in force.",
 ["inputs", "histories"], "all histories of up to three time signatures and two tempo changes on a tick grid, from several starts",
 "no test asks for beats",
 [PM], [("beat walk", PM + ":get_beats"), ("bar selection", PM + ":get_downbeats")], ["returned times"])
prop("C36", "Summaries of a piece combine all of its instruments",
 "The onsets of a piece are the starts of all notes of all instruments in order; its end is the latest time of any note end, controller, bend, signature, lyric or tempo change, or zero; its piano roll has as many columns as the longest of its instruments and in each cell the sum of theirs (drums sound nothing), the chroma folds that roll into twelve rows; the histogram of pitch classes counts the notes that are not drums, weighted by duration or velocity on request, and the transition matrix sums those of the instruments; normalized forms are these divided by their total and are zero for a piece with nothing to count. Asking changes nothing.",
 ["inputs", "configurations"], "all pieces of up to three or four instruments over twelve small instruments, all options",
 "no test asks for these",
 [PM], [("sums over instruments", PM + ":get_onsets, get_end_time, get_piano_roll, get_chroma, get_pitch_class_histogram, get_pitch_class_transition_matrix")], ["returned arrays"])
prop("C37", "Warping the times of a piece moves every event along the map",
 "Given pairs of old and new times (sorted by old time and made non-decreasing), adjusting a piece keeps exactly the notes that lie wholly between the first and last old time, with start and end interpolated along the map and everything else unchanged, except that notes left without duration are dropped; controllers, bends, key signatures and lyrics are interpolated likewise, keeping those strictly inside the new range and the last of those at or before its beginning. At every downbeat kept, the time signature in force is the one that was in force there, and the tempos are scaled so that events within the range stay at their ticks relative to one another, to within rounding.",
 ["inputs", "histories"], "all maps of two to four old times over a grid to non-decreasing new times, in any order, times eight pieces",
 "no test warps a piece",
 [PM], [("piecewise linear map of events", PM + ":adjust_times"), ("new tempo map", PM + ":adjust_times")], ["events and tempo map after the call"])
prop("C38", "Tempo and first-beat estimates follow the onsets, the waveform sums its parts",
 "The tempo estimates of a piece come from pooling the gaps between successive onsets (longer than 50 ms, shorter than 2 s, doubled until at least 0.2 s) with the nearest pool less than 25 ms away: one tempo per pool, with its share of the gaps, the largest share first, and none is an error. The estimated first beat is the one of the first onsets (as many as asked for) whose beats carry the most velocity per beat, an onset counting if it lies near a beat; a piece without onsets is refused. The waveform of a piece is the sum of the waveforms of its instruments, each from its beginning, scaled to a peak of one, and silence if nothing sounds. Removing invalid notes keeps exactly those that last. Asking changes nothing.",
 ["inputs", "histories"], "all rhythms of up to four or five gaps, all sets of up to four or six onsets, all pieces of up to two or three small instruments",
 "no test asks for estimates or waveforms",
 [PM], [("pooling", PM + ":estimate_tempi, estimate_tempo"), ("scores", PM + ":estimate_beat_start"), ("mixing", PM + ":synthesize"), ("cleaning", PM + ":remove_invalid_notes")], ["returned estimates and samples"])

prop("C39", "A file object written out and read again is the same music",
 "For every file object read from a well-formed file or built by hand (instruments with at least one note, notes of a key not overlapping and at least a tick long), serializing it, writing it to a path or an open file, or serializing it into a given file, and reading that with the same drum channel gives the same resolution, tempos to the microsecond, time and key signatures (a 4/4 is added at the beginning if none starts there), lyrics, and instruments with program, drum flag, name, notes, control changes and bends at the same or nearest ticks. All forms write the same, and further rounds change nothing. Writing changes neither the object nor tracks a given file has; reading gives the same from a path, an open file, a parsed file or into a used object, and leaves a parsed file as it was. Absurdly long files are refused.",
 ["inputs", "histories", "configurations"], "all files of up to three events of each of two alphabets, all small objects built by hand, every program, drum channel and key, windows of tempo values",
 "no test writes a file object out",
 [PM], [("writing", PM + ":serialize, write"), ("reading", PM + ":from_file")], ["file object before and after", "bytes written"])

# ---------------------------------------------------------------- containers and theory
prop("C40", "The ordered map behaves as a sorted dictionary",
 "After any history of assignments, deletions and the other standard mapping operations, the ordered map holds exactly what an ordinary dictionary would, and iterates keys, values and items in ascending key order; bulk construction and update equal the same assignments one at a time, and a failed operation changes nothing.",
 ["histories"], "all operation sequences up to a bounded depth over four keys and two values, covering the whole mapping interface",
 "two tests insert three keys",
 [N + "midi/sorted_dict.py"], [("sorted key list kept with the dictionary", N + "midi/sorted_dict.py")], ["mapping interface"],
 [("_keys vs dictionary", "must hold the same keys", N + "midi/sorted_dict.py")])
prop("C41", "The interval-keyed map is a sorted map and slices by overlap",
 "After any history of insertions, replacements and removals the interval-keyed map holds exactly the entries put in, iterates them in interval order, returns the entry stored under an interval or reports absence, and slicing by bounds gives exactly the entries whose intervals meet the bounds. Keys that are not intervals are refused without effect.",
 ["histories"], "all operation sequences up to a bounded depth over a small set of intervals",
 "one stable test",
 [N + "midi/sorted_interval_dict.py"], [("sorted interval list", N + "midi/sorted_interval_dict.py")], ["mapping interface"])
prop("C42", "Interval algebra obeys its laws",
 "For all closed intervals (start at most end), equality agrees with hashing, the order is a strict total order by start then end, overlap is symmetric and holds exactly when some point lies in both, the intersection contains exactly the common points (and is absent when there are none), and the union is the smallest interval holding both.",
 ["inputs"], "all pairs and triples of intervals with end points on a small grid including negative and degenerate ones",
 "tests check a handful of pairs",
 [N + "midi/Interval.py"], [("interval operations", N + "midi/Interval.py")], ["return values"])
prop("C43", "Scales and triads follow the interval patterns in every key",
 "For every root and scale type the scale's notes are the root plus the cumulative scale steps, in order, so transposing the root transposes the scale; the triad on each degree consists of the first, third and fifth of the scale from that degree with the quality those intervals give, every chord stays within the scale, and a chord's pitches are its root plus its intervals. The chords listed for a root and scale are exactly the chord types whose pitches on that root all lie within the scale. Roots may be given as pitch class or name in either case.",
 ["inputs"], "all roots, all scale types, all degrees",
 "tests check the C major and A minor cases",
 [N + "midi/midi_scales.py"], [("scale tables", N + "midi/midi_scales.py:MusicTheory")], ["return values"])
prop("C44", "Interval and chord naming are inverse to their semitone tables",
 "Converting semitones to an interval and back, a chord name to its intervals and back, or a pitch number to a note name and octave and back gives the value started from, for every value in the supported range, and compound intervals are the simple one plus octaves; a chord's step table and its interval table describe the same pitches (a thirteenth chord may leave out the eleventh), as do the tables of intervals, of triads to ninths by type, and of scale steps; unsupported values are refused.",
 ["inputs"], "every interval, chord, pitch",
 "tests check a few names",
 [N + "midi/midi_scales.py"], [("interval and chord tables", N + "midi/midi_scales.py")], ["return values"])
prop("C45", "Instrument descriptions compare, hash and round-trip faithfully",
 "Two instrument descriptions are equal exactly when number, name and drum flag agree, equal ones hash alike, and converting to a dictionary and back yields an equal one; numbers outside 0..255 are refused, and a missing name is derived from the number.",
 ["inputs"], "all instrument numbers and all combinations of attributes",
 "tests check one instrument",
 [N + "midi/midi_instruments.py"], [("value semantics", N + "midi/midi_instruments.py")], ["equality, hash, dictionaries"])
prop("C46", "Controllers and bends stay valid and ordered",
 "A control change is created with number, value, program and instrument clamped to 0..255 and a non-negative time; a pitch bend with an amount in -8192..8191, program and instrument in 0..127 and a non-negative time, or is refused. Quantizing (1 to 32 steps a second) gives the step at the time in steps plus the slack rounded down, and puts the event on the grid spanning one step at a non-negative time; copies equal their source, in all but a time or steps asked for anew (zero included), and are independent, control changes and bends are equal exactly when all their attributes are, and control changes order by time, earlier arrivals first.",
 ["histories", "inputs"], "all operation words up to a bounded depth over boundary values",
 "tests read back constructor arguments",
 [N + "midi/midi_control_change.py", N + "midi/midi_pitch_bend.py"], [("validating setters", N + "midi/midi_control_change.py, midi_pitch_bend.py")], ["attributes"])

prop("C47", "Tracks and pieces start with exactly what they are made from",
 "A track holds exactly the notes it is made from, in order (drum notes given apart too, on a drum track), with the instrument given as number or description (or the default), the resolution, and the total time of its notes. A piece holds each given track under the number of its instrument, tracks of one instrument merged in order of time, and its signature lists answer alike in whatever order they are given, with defaults for what is missing. What is given stays as it was, and later changes to the track, the piece or the lists given do not show in one another; changing a resolution moves no notes; tracks order by instrument number. Arguments of wrong types are refused.",
 ["inputs", "histories", "configurations"], "all lists of up to three notes, tracks and signatures of small alphabets, every argument of a wrong kind",
 "tests construct single tracks with ordered notes",
 [N + "midi/midi_sequence.py", N + "midi/midi_sequences.py"], [("construction of a track", N + "midi/midi_sequence.py:__init__, from_notes"), ("construction of a piece", N + "midi/midi_sequences.py:__init__")], ["attributes of tracks and pieces, arguments before and after"])

prop("C48", "Tempo, time and key signatures convert, validate and order faithfully",
 "After any assignments of quarter notes or beats per minute a tempo signature's two rates agree (beats are a quarter of the quarters a minute), as do seconds per quarter and per tick, and a tempo given in microseconds per quarter converts exactly; defaults are 120 and 480. Invalid tempos, resolutions, numerators, denominators (powers of two are valid) and modes are refused. A measure has the numerator's number of beats, in compound meters (a multiple of three eighths or shorter, beyond three) a third of it. Signatures order by time, earlier arrivals first at one time.",
 ["histories", "inputs"], "all assignment histories to a bounded depth, all pairs of numerator and denominator up to a bound, all orderings of small lists",
 "tests construct a few valid signatures",
 [N + "midi/midi_time_signature.py", N + "midi/midi_key_signature.py"], [("signature values", N + "midi/midi_time_signature.py, midi_key_signature.py")], ["attributes", "sort order"])

# ---------------------------------------------------------------- datasets and transforms
prop("C50", "Train, validation and test masks partition every graph's nodes",
 "Whatever the random shuffle, every node of every graph is in exactly one of the train, validation and test masks, masks have the graph's length, and the number of nodes in each follows the configured ratios to within rounding; masking one graph does not disturb another. Without the request for a split no graph has masks.",
 ["schedules", "inputs", "configurations"], "every permutation of nodes up to six nodes, all graph sizes up to a bound, a grid of ratios",
 "no stable test constructs a dataset; a random permutation is drawn once per run",
 [DS], [("mask construction", DS + ":_mask_per_instrument, _mask_entire_graph")], ["mask tensors"])
prop("C51", "A processed dataset holds every graph of every file, in both layouts",
 "Processing a list of MIDI files yields, in the per-instrument layout, one graph for each instrument of each file that building that file gives a graph for, and in the whole-piece layout one graph per file with anything that sounds, in the order of the files (also of files with one name from different folders), with features and weights equal to building that file directly; silent files contribute nothing, and the list given stays as it was. Reloading gives the same data without reprocessing, and a run interrupted at any point while it copies or processes the files and then repeated gives the same dataset as an uninterrupted one.",
 ["crash_points", "histories", "configurations"], "all small corpora of generated files, both layouts, every interruption point between or within the writes of processed files",
 "dataset tests are not among the tests that run",
 [DS], [("processing and saving", DS + ":process, load_processed"), ("layout selection", DS + ":processed_file_names")], ["graphs obtained by indexing"])
prop("C52", "Class labels across a corpus are consistent",
 "Over all graphs of a dataset, two nodes carry the same class label exactly when they are the same chord, every label decodes to that chord through the dataset's tables, and the dataset's number of classes is greater than every label; a label used in both layouts means the same chord in both. Merging label maps keeps them one-to-one and preserves entries.",
 ["histories", "inputs"], "all small corpora, and all add and merge histories of label maps up to a bounded depth",
 "not exercised by any running test",
 [DS], [("label maps", DS + ":NodeHashIndexMapper, hash/index maps")], ["labels and tables"])
prop("C53", "Random graph transforms drop exactly what they say",
 "Whatever the random draws, dropping nodes removes the configured fraction of the nodes (rounded down) and keeps the features, labels, masks and hashes of exactly the others and exactly the edges between them with their weights, still pointing to the right ones, and every such selection is possible. Dropping edges (of graphs without link-prediction labels) keeps any selection of the edges with their weights and leaves the nodes alone; none are dropped at probability zero and all at one. The degree transform appends to each node's flattened features the number of edges that start at it, and the identity transform the position of the graph in its dataset. The given graph is left as it was.",
 ["schedules", "inputs"], "all directed graphs on up to three nodes times every outcome of the random draws",
 "no test covers transforms",
 [N + "transforms.py"], [("transforms", N + "transforms.py")], ["returned data"])
prop("C54", "One-hot encodings represent exactly the notes",
 "The one-hot encoding of a piece with at least one track has one row per pitch and one column per time step up to the end of its last note; a cell is 1 where a note of that pitch starts, otherwise -1 where one ends, and 0 everywhere else, whatever order notes are given in. (Cells in which one track starts a note and another ends one are left open.) The one-hot form of a list of indices has in each row a single one, at that index.",
 ["inputs"], "all small pieces of up to three notes and three tracks, all small index vectors",
 "no test covers the encoders",
 [N + "utils.py"], [("encoders", N + "utils.py:pretty_midi_to_one_hot, np_onehot")], ["encoded arrays"])
prop("C55", "Datasets of different configuration sharing a folder never mix",
 "When datasets over the same files but with other settings (velocity, feature size, tolerance, single-note filter, split into masks and its ratios, labels) are created one after another in one root folder, in any order and in both layouts, each holds exactly the graphs its own settings give when built directly, with its own masks or none; earlier ones are found again unchanged.",
 ["histories", "configurations"], "all ordered pairs of a grid of configurations and bounded triples",
 "dataset tests are not among the tests that run",
 [DS], [("names of processed files", DS + ":processed_file_names, process, load_processed")], ["graphs obtained by indexing"])
prop("C56", "A dataset repeats its content under any accesses and refuses senseless settings",
 "A dataset hands out exactly the graphs its files give, under any history of accesses by number, from the end, by slice or selection, in a loop, of statistics and of its tables (which are copies: changing them changes nothing); an access beyond the end is an index error. Its statistics are the total numbers of nodes, edges and labels of its graphs. Settings that make no sense - of a wrong type, not finite, ratios beyond one alone or together, missing folders - are refused before anything is written; all others are accepted.",
 ["histories", "configurations"], "all histories of up to three or four of eleven kinds of access on eight small datasets; fifty senseless settings and all ratios on a grid",
 "dataset tests are not among the tests that run",
 [DS], [("access", DS + ":get, len, properties"), ("statistics", DS + ":compute_statistics"), ("validation", DS + ":__init__")], ["graphs, tables, statistics; the folder"])
prop("C57", "Datasets of a folder's pieces are fetched completely, whatever fails meanwhile",
 "A dataset made without a list of files takes exactly the files of the given local folder whose names end in .mid (not other entries, subfolders or what else the server has), fetches each under its name - whatever characters the name has - from the server, leaves those already fetched alone, and holds the graphs of the files served, in the order of the listing. A piece the server lacks is an error. After any sequence of failed or interrupted fetches, or an end of the process in the middle of one, making the dataset again gives the same as if nothing had happened.",
 ["fault_sequences", "crash_points", "inputs"], "small folders and servers, every transfer failing or breaking off at every one of several points, all bounded sequences of such failures",
 "no test fetches anything",
 [DS], [("listing", DS + ":raw_file_names"), ("fetching", DS + ":download")], ["requests at a server of its own; files in the raw folder; graphs of the dataset"])

# ---------------------------------------------------------------- support for training
SH = "ngc_shared.py"
prop("C60", "Training resumes from the newest complete checkpoint of its model",
 "After any history of checkpoints saved for several models at any epochs, a new run of a model restores exactly the network and optimizer state of that model's checkpoint with the highest epoch and starts at the epoch after it; with none it starts from scratch with its own state. A save interrupted at any point leaves either the checkpoints before it or those after it, never something a later run fails on, and saving again works.",
 ["crash_points", "histories"], "all histories of up to three saves of two models, every interruption point of the last save, model names of any characters",
 "no test covers training support",
 [SH], [("save_checkpoint, load_checkpoint", SH + ":Experiments")], ["network and optimizer state, epochs"])
prop("C61", "Recorded training metrics are exactly those reported, also after a restart",
 "After any history of reports of training, validation and test metrics, each list holds exactly the values given for it (values not given are left out), in order. Whenever saving is on and the epoch is a multiple of the rate, a report saves the lists of its kind, and a run resumed from a checkpoint finds all lists of its own model as last saved (others empty), also when a save was interrupted at any point; clearing empties all lists; with saving off nothing is written.",
 ["crash_points", "histories"], "all histories of up to four reports, epochs, clearings and restarts, every interruption point of the last report",
 "no test covers training support",
 [SH], [("update_metrics, update_val_metric, update_test_metric, load_checkpoint, clear_metric", SH + ":Experiments")], ["metric lists", "files of metrics"])
prop("C62", "Splitting a dataset partitions it and thinning a graph keeps it consistent",
 "Whatever the random draws, a split puts every graph of the dataset into exactly one of the train and test sets, in the configured ratio to within rounding, and every selection is possible. Removing a fraction of a graph's nodes (rounded down) leaves the features, labels, masks and hashes of exactly the others and exactly the edges between them with their weights, still pointing to the right ones.",
 ["schedules", "inputs"], "all datasets of up to four graphs and all directed graphs on up to three nodes under every outcome of the draws",
 "no test covers training support",
 [SH], [("split, remove_nodes_and_edges", SH + ":Experiments")], ["train and test sets", "returned graph"])

# ---------------------------------------------------------------- the interval tree
IT = "neural_graph_composer/interval/intervaltree.py"; IN = "neural_graph_composer/interval/node.py"; IV = "neural_graph_composer/interval/interval.py"
prop("C70", "The interval tree holds exactly its intervals and answers queries exactly",
 "After any history of additions and removals, in any order, the interval tree contains exactly the intervals added and not removed (equal range and data count once); querying a point returns exactly the half-open intervals holding it, querying a range exactly those overlapping it, querying an envelop exactly those inside it; size, bounds, span, membership, equality, copies and pickles agree. Removing a missing interval raises ValueError, discarding one does nothing, an empty interval is refused.",
 ["histories"], "every reachable state of the balanced tree, for every shape that rotations and prunings can produce",
 "no test covers the tree; which intervals a query finds depends on the shape that the whole history left",
 [IT, IN], [("FloatIntervalTree", IT + ":FloatIntervalTree"), ("Node", IN + ":Node")], ["results of queries", "contents"])
prop("C71", "Cutting, splitting and merging an interval tree changes exactly what it says",
 "Chopping a range leaves exactly the parts of intervals outside it, slicing at a point splits exactly the intervals holding it inside, splitting overlaps cuts every interval at every end inside it; removing by point, range or envelop removes exactly the matching intervals; merging overlaps, equals or neighbours joins exactly the intervals that overlap (or touch, or lie within the distance), combining data in order; set operations give the set results; afterwards the tree still answers every query exactly.",
 ["histories", "inputs"], "all small sets of intervals, every operation at every end and between ends, words of two operations, pairs of trees",
 "no test covers the tree", [IT, IN], [("chop, slice, split_overlaps, merge_*, remove_*, set operations", IT + ":FloatIntervalTree")], ["contents after the operation"])
prop("C72", "Half-open intervals overlap, contain, measure and order coherently",
 "An interval of the tree holds exactly the points from its begin up to, without, its end; two intervals overlap iff some point lies in both, and then the overlap's size is that of the common part, otherwise 0; the distance is the gap between them, 0 when they touch or overlap, the same both ways; ordering is by begin, end, data, is total and agrees with equality and hash; the strict comparisons refuse empty intervals; copies, pickles and text evaluate to the same interval.",
 ["inputs"], "all pairs of intervals and points on a grid, all triples for the order",
 "no test covers it", [IV], [("FloatInterval", IV + ":FloatInterval")], ["results of the methods"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
