"""Helpers to drive the real dataset over generated MIDI files (in the current scratch directory)."""
import os
import warnings
from . import gutil as gu
from . import smf

STEP = 4                      # ticks between two notes; resolution 4, 0.5 s a quarter


def load():
    global MidiDataset, NodeHashIndexMapper, MidiGraphBuilder, MidiReader, torch, np, md
    warnings.simplefilter("ignore")
    gu.load()
    import numpy as np
    import torch
    from neural_graph_composer import midi_dataset as md
    from neural_graph_composer.midi_dataset import MidiDataset, NodeHashIndexMapper
    from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
    from neural_graph_composer.midi_reader import MidiReader
    import torch._dynamo     # what torch.save and torch.load pull in lazily
    from torch_geometric.data import Data
    import io
    b = io.BytesIO()
    torch.save(Data(x=torch.zeros(1)), b)
    b.seek(0)
    torch.load(b)


def midi(tracks):
    """bytes of a file; a track is (channel, program, [(pitches, velocity)]), one chord after another"""
    out = [[[0, ["tempo", 500000]]]]
    for ch, prog, chords in tracks:
        t = [[0, ["prog", ch, prog]]]
        for i, (ps, vel) in enumerate(chords):
            t += [[i * STEP, ["on", ch, p, vel + k]] for k, p in enumerate(ps)]
            t += [[i * STEP + STEP - 1, ["off", ch, p]] for p in ps]
        out.append(t)
    return smf.encode(out, 4, kind=1)


def put(path, data):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return path


def dataset(files, root, per, **kw):
    os.makedirs("loc", exist_ok=True)
    kw.setdefault("default_midi_loc", "loc")
    return MidiDataset(root=root, midi_files=files, per_instrument_graph=per, **kw)


def graph(g, chord_of):
    """a graph as plain values: chords in node order, features, edges between chords"""
    ch = [tuple(sorted(chord_of[h])) for h in g.node_hash]
    ei = g.edge_index.tolist()
    w = g.edge_attr.reshape(-1).tolist() if g.edge_attr is not None else [None] * len(ei[0])
    return (tuple(ch), tuple(map(str, g.x.tolist())), tuple(sorted((ch[u], ch[v], x) for u, v, x in zip(ei[0], ei[1], w))))


def direct(path, per, trim=3, feature_vec_size=12, velocity_num_buckets=8, tolerance=0.2, filter_single_notes=False,
           include_velocity=False):
    """the graphs of one file, built directly"""
    b = MidiGraphBuilder(None)
    b.build(MidiReader.read(path), default_trim_time=trim, feature_vec_size=feature_vec_size,
            velocity_num_buckets=velocity_num_buckets, filter_single_notes=filter_single_notes,
            tolerance=tolerance, is_include_velocity=include_velocity, is_per_instrument=per)
    if not b.hash_to_notes:
        return []
    return [graph(g, b.hash_to_notes) for g in b.graphs()]
