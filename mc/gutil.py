"""Helpers to drive the real graph builder."""
import warnings


def load():
    warnings.simplefilter("ignore")
    global torch, nx, MidiNote, MidiInstrumentInfo, MidiNoteSequence, MidiNoteSequences
    global MidiGraphBuilder, NodeAttributeType
    import torch
    import networkx as nx
    torch.set_num_threads(1)
    from neural_graph_composer.midi.midi_note import MidiNote
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi_graph_builder import MidiGraphBuilder, NodeAttributeType


def seq(notes, instrument=0, drum_track=False, name="x"):
    """notes: [[pitch, start, velocity, drum]] -> real MidiNoteSequence

    Ends and programs vary with the pitch, some notes end together that do not start together.
    """
    return MidiNoteSequence(
        notes=[MidiNote(pitch=p, start_time=s, end_time=s + 0.125 * (1 + p % 3) if p % 4 else max(4.0, s + 1), velocity=v,
                        instrument=instrument, is_drum=d, program=p % 7) for p, s, v, d in notes],
        instrument=MidiInstrumentInfo(instrument, name, drum_track))


def chords_of(builder, g):
    h = builder.hash_to_notes
    return {n: h[n] for n in g.nodes}


def edges_of(builder, g):
    h = builder.hash_to_notes
    return {(h[u], h[v]): d["weight"] for u, v, d in g.edges(data=True)}
