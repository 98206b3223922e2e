"""Helpers for checks of tracks: fresh notes, controllers, observable contents."""
from . import nmodel as nm

# pitch, start, end, velocity
POOL = [(60, 0.0, 1.0, 80), (62, 0.5, 3.0, 90), (60, 0.0, 1.0, 70), (64, 2.0, 2.5, 100), (59, 0.5, 2.0, 1)]


def note(spec, drum=False, instrument=1):
    from neural_graph_composer.midi.midi_note import MidiNote
    p, s, e, v = spec
    return MidiNote(p, s, e, velocity=v, instrument=instrument, program=3, is_drum=drum, voice=2, numerator=3, denominator=8)


def info(num=1, drum=False, name="Some"):
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
    return MidiInstrumentInfo(num, name=name, is_drum=drum)


def track(specs, drum=False, num=1, resolution=220, instrument=1, name="Some"):
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    return MidiNoteSequence(notes=[note(s, drum, instrument) for s in specs], instrument=info(num, drum, name),
                            resolution=resolution)


def atts(seq):
    return [nm.att(n) for n in seq.notes]


def key(a):
    """sort key of an attribute tuple"""
    return a[4], a[5], a[0]


def cc_att(c):
    return (c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, c.is_drum)


def is_sorted(al):
    return all(key(x) <= key(y) for x, y in zip(al, al[1:]))


def latest(al):
    return max([a[5] for a in al], default=0.0)
