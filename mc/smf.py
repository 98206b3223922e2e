"""Standard MIDI files: an independent encoder, and the reading model of C30/C33/C34.

A schedule is a list of file tracks, each a list of [tick, event] in order of tick;
an event is one of ["on",ch,pitch,vel] ["off",ch,pitch] ["prog",ch,p] ["cc",ch,num,val]
["bend",ch,amount] ["tempo",us] ["ts",num,den] ["ks",sf,mode] ["name",text] ["text",text] ["lyric",text]
["raw",bytes of any other event].
"""
import struct


def varlen(n):
    out = [n & 127]
    n >>= 7
    while n:
        out.insert(0, 128 | n & 127)
        n >>= 7
    return bytes(out)


def message(ev):
    k = ev[0]
    if k == "on":
        return bytes([0x90 | ev[1], ev[2], ev[3]])
    if k == "off":
        return bytes([0x80 | ev[1], ev[2], 64])
    if k == "prog":
        return bytes([0xC0 | ev[1], ev[2]])
    if k == "cc":
        return bytes([0xB0 | ev[1], ev[2], ev[3]])
    if k == "bend":
        v = ev[2] + 8192
        return bytes([0xE0 | ev[1], v & 127, v >> 7])
    if k == "tempo":
        return b"\xff\x51\x03" + struct.pack(">I", ev[1])[1:]
    if k == "ts":
        return b"\xff\x58\x04" + bytes([ev[1], ev[2].bit_length() - 1, 24, 8])
    if k == "ks":
        return b"\xff\x59\x02" + struct.pack(">bB", ev[1], ev[2])
    if k in ("name", "text", "lyric"):
        b = ev[1].encode("latin1")
        return b"\xff" + {"name": b"\x03", "text": b"\x01", "lyric": b"\x05"}[k] + varlen(len(b)) + b
    if k == "raw":
        return bytes(ev[1])
    raise ValueError(k)


def encode(tracks, resolution=4, kind=None, tail=None):
    """bytes of the file; tail[i] = extra ticks before the end of track i"""
    kind = (0 if len(tracks) == 1 else 1) if kind is None else kind
    out = b"MThd" + struct.pack(">IHHH", 6, kind, len(tracks), resolution)
    for i, t in enumerate(tracks):
        body, now = b"", 0
        for tick, ev in t:
            body += varlen(tick - now) + message(ev)
            now = tick
        body += varlen((tail or [0] * len(tracks))[i]) + b"\xff\x2f\x00"
        out += b"MTrk" + struct.pack(">I", len(body)) + body
    return out


def tempo_map(tracks, resolution):
    """[(tick, microseconds per quarter)], one entry per change in force, from tick 0"""
    m = {0: 500000}
    for tick, ev in tracks[0]:
        if ev[0] == "tempo":
            m[tick] = ev[1]              # the last change at a tick wins
    out = []
    for tick in sorted(m):
        if not out or out[-1][1] != m[tick]:
            out.append((tick, m[tick]))
    return out


def seconds(tick, tmap, resolution):
    """exact accumulated duration as a fraction of microseconds, then seconds"""
    total = 0
    for i, (t0, us) in enumerate(tmap):
        t1 = tmap[i + 1][0] if i + 1 < len(tmap) else None
        if t1 is None or tick < t1:
            return (total + (tick - t0) * us) / (resolution * 1e6)
        total += (t1 - t0) * us
    raise AssertionError


def finish_ticks(track, tail=0, at=False):
    """[(on tick, off tick, channel, pitch, velocity, program)] in order of note-on;
    with at, also the place of the event that finished the note"""
    notes, open_, prog = [], {}, [0] * 16
    for place, (tick, ev) in enumerate(track):
        k = ev[0]
        if k == "prog":
            prog[ev[1]] = ev[2]
        elif k == "on" and ev[3] > 0:
            key = (ev[1], ev[2])
            struck = False
            for kk in list(open_):
                rest = []
                for n in open_[kk]:
                    if n["tick"] < tick and (kk == key or n["ended"]):
                        n["off"], n["at"] = tick, place
                        struck = struck or (kk == key and not n["ended"])
                    else:
                        rest.append(n)
                open_[kk] = rest
            n = dict(tick=tick, off=None, ch=ev[1], pitch=ev[2], vel=ev[3], prog=prog[ev[1]], ended=False, struck=struck)
            notes.append(n)
            open_.setdefault(key, []).append(n)
        elif k == "off" or k == "on":
            key = (ev[1], ev[2])
            cur = open_.get(key, [])
            early = [n for n in cur if n["tick"] < tick]
            if early:
                for n in early:
                    n["off"], n["at"] = tick, place
                open_[key] = [n for n in cur if n["tick"] == tick]
            else:
                for n in cur:             # all start here
                    if n["struck"]:
                        n["struck"] = False
                    else:
                        n["ended"] = True
    end = (track[-1][0] if track else 0) + tail
    for v in open_.values():
        for n in v:
            n["off"], n["at"] = end, len(track)
    return [(n["tick"], n["off"], n["ch"], n["pitch"], n["vel"], n["prog"]) + ((n["at"],) if at else ()) for n in notes]
