"""Raw-socket framing is exact: what was written is what is read."""
from vmon import gen, msgspec as S, wire
from vmon.core import FnWorkload, short
from vmon.rig import attempt, need, pick
from wampproto.transports import rawsocket
from wampproto.transports.rawsocket import Handshake, MessageHeader

RULE = "a case is a slice of a range of values, a few hostile values, or a stream; every value is compared, so every case is non-trivial"
NEEDS = ["handshake written and read", "handshake read from bytes", "limit not a power of two", "handshake refused when writing", "protocol refused when writing",
         "handshake refused: reserved bytes", "handshake refused: magic", "handshake refused: length", "header written and read", "header refused when writing", "header refused: length",
         "frames read from a stream", "frames cut across pieces", "empty frames", "ping and pong frames"]
ASSUMPTIONS = ["kinds other than 0, 1 and 2 are only required to be given back as they were", "limits, ids and lengths are integers"]
MAX = 2**24


def limit(n):
    return 1 << (n.bit_length() - 1)


def write_handshake(st, p, n):
    r = attempt(lambda: Handshake(p, n).to_bytes())
    need(r.ok, "a handshake with protocol {} and limit {} could not be written: {}", p, n, r)
    want = bytes([0x7F, (n.bit_length() - 10) << 4 | p, 0, 0])
    need(bytes(r.val) == want, "a handshake with protocol {} and limit {} is {} on the wire, should be {}", p, n, r.val, want)
    h = attempt(Handshake.from_bytes, r.val)
    need(h.ok, "a handshake with protocol {} and limit {}, read back: {}", p, n, h)
    need((h.val.protocol, h.val.max_msg_size) == (p, limit(n)), "a handshake with protocol {} and limit {} came back as {}", p, n, (h.val.protocol, h.val.max_msg_size))


def do_limits(st, start, stop, step, p):
    """A range of limits, cheaply; the slow path explains a difference."""
    k = 0
    to, fr = Handshake.to_bytes, Handshake.from_bytes
    for n in range(start, stop, step):
        try:
            h = fr(to(Handshake(p, n)))
            good = h.protocol == p and h.max_msg_size == limit(n)
        except Exception:
            good = False
        if not good:
            write_handshake(st, p, n)
        p = (p + 1) & 15
        k += 1
    st.ev("handshake written and read", k)
    st.ev("limit not a power of two", k)
    st.nontrivial()


def do_handshake(st, p, n):
    write_handshake(st, p, n)
    st.ev("handshake written and read")
    st.ev("limit not a power of two", n & (n - 1) != 0)
    st.nontrivial()


def do_badhandshake(st, p, n):
    r = attempt(lambda: Handshake(p, n).to_bytes())
    need(not r.ok, "a handshake with protocol {} and limit {} cannot be held by the format, but {}", p, n, r)
    st.ev("handshake refused when writing" if not 512 <= n <= MAX else "protocol refused when writing")
    st.nontrivial()


def read_handshake(st, data):
    h = attempt(Handshake.from_bytes, data)
    if len(data) != 4:
        why = "length"
    elif data[0] != 0x7F:
        why = "magic"
    elif data[2] or data[3]:
        why = "reserved bytes"
    else:
        need(h.ok, "the handshake {} could not be read: {}", data, h)
        want = (data[1] & 15, 512 << (data[1] >> 4))
        need((h.val.protocol, h.val.max_msg_size) == want, "the handshake {} was read as {}, should be {}", data, (h.val.protocol, h.val.max_msg_size), want)
        again = attempt(h.val.to_bytes)
        need(again.ok and bytes(again.val) == bytes(data), "the handshake {}, read and written again, {}", data, again)
        st.ev("handshake read from bytes")
        return
    need(not h.ok, "the handshake {} ({}) was accepted: protocol {}", data, why, h.val.protocol if h.ok else None)
    st.ev("handshake refused: " + why)


NUMBERS = {"SERIALIZER_TYPE_JSON": 1, "SERIALIZER_TYPE_MSGPACK": 2, "SERIALIZER_TYPE_CBOR": 3, "MSG_TYPE_WAMP": 0,
           "MSG_TYPE_PING": 1, "MSG_TYPE_PONG": 2}


def do_names(st):
    """The names the module gives to serializers and frame kinds stand for the numbers of the specification."""
    for name, n in NUMBERS.items():
        have = getattr(rawsocket, name, n)
        need(have == n, "{} is {}, the specification says {}", name, have, n)
        st.ev("names of serializers and kinds")


def do_read(st, *datas):
    for d in datas:
        read_handshake(st, d)
    st.nontrivial()


def do_reserved(st, b1, b2s):
    """All third bytes for some second and fourth bytes."""
    fr = Handshake.from_bytes
    n = 0
    for b2 in b2s:
        for b3 in range(256):
            if b2 or b3:
                try:
                    fr(bytes((0x7F, b1, b2, b3)))
                except Exception:
                    n += 1
                    continue
            read_handshake(st, bytes((0x7F, b1, b2, b3)))
    st.ev("handshake refused: reserved bytes", n)
    st.nontrivial()


def write_header(st, kind, n):
    r = attempt(lambda: MessageHeader(kind, n).to_bytes())
    need(r.ok, "a header of kind {} and length {} could not be written: {}", kind, n, r)
    want = bytes([kind]) + n.to_bytes(3, "big")
    need(bytes(r.val) == want, "a header of kind {} and length {} is {} on the wire, should be {}", kind, n, r.val, want)
    h = attempt(MessageHeader.from_bytes, r.val)
    need(h.ok and (h.val.kind, h.val.length) == (kind, n), "a header of kind {} and length {} came back as {}", kind, n, (h.val.kind, h.val.length) if h.ok else h)


def do_lengths(st, start, stop, step, kind):
    to, fr = MessageHeader.to_bytes, MessageHeader.from_bytes
    k = 0
    for n in range(start, stop, step):
        try:
            b = to(MessageHeader(kind, n))
            h = fr(b)
            good = h.kind == kind and h.length == n and b == kind.to_bytes(1, "big") + n.to_bytes(3, "big")
        except Exception:
            good = False
        if not good:
            write_header(st, kind, n)
        kind = (kind + 1) % 256 if kind > 2 else (kind + 1) % 3
        k += 1
    st.ev("header written and read", k)
    st.nontrivial()


def do_header(st, kind, n):
    write_header(st, kind, n)
    st.ev("header written and read")
    st.nontrivial()


def do_badheader(st, kind, n):
    r = attempt(lambda: MessageHeader(kind, n).to_bytes())
    need(not r.ok, "a header of kind {} and length {} cannot be held by the format, but {}", kind, n, r)
    st.ev("header refused when writing")
    st.nontrivial()


def do_readheader(st, data):
    h = attempt(MessageHeader.from_bytes, data)
    if len(data) == 4:
        need(h.ok and (h.val.kind, h.val.length) == (data[0], int.from_bytes(data[1:], "big")), "the header {} was read as {}", data, (h.val.kind, h.val.length) if h.ok else h)
        st.ev("header written and read")
    else:
        need(not h.ok, "{} bytes were accepted as a header: {}", len(data), data)
        st.ev("header refused: length")
    st.nontrivial()


def do_stream(st, hs, frames, cuts):
    """frames: (kind, payload); cuts: piece lengths.  A reader that knows only the pieces rebuilds the frames."""
    out = bytearray(Handshake(*hs).to_bytes())
    for kind, body in frames:
        out += MessageHeader(kind, len(body)).to_bytes() + body
    out = bytes(out)
    buf = bytearray()
    state, got, at, k, split = "handshake", [], 0, 0, 0
    hdr = None
    while at < len(out):
        n = cuts[k % len(cuts)]
        k += 1
        buf += out[at:at + n]
        at += n
        while True:
            if state == "handshake" and len(buf) >= 4:
                h = Handshake.from_bytes(bytes(buf[:4]))
                need((h.protocol, h.max_msg_size) == (hs[0], limit(hs[1])), "the stream's handshake was read as {}, was {}", (h.protocol, h.max_msg_size), hs)
                del buf[:4]
                state = "header"
            elif state == "header" and len(buf) >= 4:
                hdr = MessageHeader.from_bytes(bytes(buf[:4]))
                del buf[:4]
                state = "body"
            elif state == "body" and len(buf) >= hdr.length:
                got.append((hdr.kind, bytes(buf[:hdr.length])))
                del buf[:hdr.length]
                state = "header"
            else:
                if state == "body" or (buf and at < len(out)):
                    split += 1
                break
    need(state == "header" and not buf, "the stream ends inside a frame (state {}, {} bytes left)", state, len(buf))
    need(len(got) == len(frames), "{} frames were written, {} read", len(frames), len(got))
    for i, (a, b) in enumerate(zip(frames, got)):
        need(a[0] == b[0] and a[1] == b[1], "frame {} was written as {}, read as {}", i, a, b)
        st.ev("empty frames", not a[1])
        st.ev("ping and pong frames", a[0] in (1, 2))
    st.ev("frames read from a stream", len(frames))
    st.ev("frames cut across pieces", split > 0)
    st.nontrivial()


def run(ops, st):
    for op in ops:
        globals()["do_" + op[0]](st, *op[1:])


# ---------------------------------------------------------------- generation

PIECES = 64


def gen_ranges(rng, i, tier):
    """Case i covers the i-th piece of each range; in the thorough tier every value."""
    step = 1 if tier == "thorough" else 11
    w = MAX // PIECES
    lo = max(512, i * w)
    hi = (i + 1) * w + (i == PIECES - 1)
    return [("names",), ("limits", lo + (rng.randrange(step) if step > 1 else 0), hi, step, rng.randrange(16)),
            ("lengths", i * w + (rng.randrange(step) if step > 1 else 0), (i + 1) * w, step, rng.choice([0, 3]))]


def gen_bytes(rng, i, tier):
    b2s = range(256) if tier == "thorough" else sorted({0, 1, 2, 0x7F, 0x80, 0xFF, rng.randrange(256)})
    return [("read", bytes((0x7F, i, 0, 0)), bytes((i, 0x7F, 0, 0)), bytes((i, 0xF1, 0, 0)), bytearray((0x7F, i, 0, 0))), ("reserved", i, b2s)] + [
        ("header", i, n) for n in (0, 1, 255, 256, 65535, 65536, MAX - 1)] + [("handshake", i % 16, min(MAX, max(512, (1 << (9 + i // 16)) + d))) for d in (-1, 0, 1, 2, -2)]


def gen_random(rng, i, tier):
    out = []
    for _ in range(8):
        r = rng.random()
        if r < 0.15:
            n = rng.choice([0, 1, -1, -512, 256, 510, 511, MAX + 1, MAX + 2, 2**25 - 1, 2**25, 2**31, 2**32, 2**40, 2**63, 2**64, 2**200, 3]) if rng.random() < 0.8 else rng.randint(MAX + 1, 2**30)
            out.append(("badhandshake", rng.randrange(16), n))
        elif r < 0.3:
            p = rng.choice([-1, 16, 17, 31, 32, 100, 240, 255, 256, 257, -16, 2**31]) if rng.random() < 0.8 else rng.randint(16, 10**6)
            out.append(("badhandshake", p, rng.choice([512, 1024, 2**20, MAX, 513, rng.randint(512, MAX)])))
        elif r < 0.45:
            n = rng.choice([-1, -2, -256, MAX, MAX + 1, MAX + 255, 2**25, 2**32, 2**32 + 1, 2**48, 2**64]) if rng.random() < 0.8 else rng.randint(MAX, 2**40)
            out.append(("badheader", rng.choice([0, 1, 2, 200]), n))
        elif r < 0.5:
            out.append(("badheader", rng.choice([-1, 256, 257, 1000]), rng.choice([0, 1, 100, MAX - 1])))
        elif r < 0.6:
            out.append(("handshake", rng.randrange(16), rng.randint(512, MAX) if rng.random() < 0.5 else min(MAX, max(512, (1 << rng.randint(9, 24)) + rng.randint(-3, 3)))))
        elif r < 0.7:
            out.append(("header", rng.randrange(256), rng.choice([n for n in gen.BOUNDARY_INTS if n < MAX])))
        elif r < 0.85:
            d = bytearray(rng.choice([b"\x7f\xf1\x00\x00", b"\x7f\x01\x00\x00", b"\x7f\x00\x00\x00", b"\x7f\xff\x00\x00"]))
            q = rng.random()
            if q < 0.5:
                n = rng.choice([0, 1, 2, 3, 5, 6, 8, 16])
                d = (d + rng.choice([b"\x00" * 16, rng.randbytes(16)]))[:n]
            elif q < 0.9:
                d[rng.randrange(4)] ^= 1 << rng.randrange(8)
            else:
                d = bytearray(rng.randbytes(4))
            out.append(("read", bytes(d)))
        else:
            n = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 12])
            out.append(("readheader", rng.randbytes(n) if rng.random() < 0.7 else b"\x00" * n))
    return out


def gen_stream(rng, i, tier):
    frames = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        if r < 0.5:
            code = rng.choice(S.CODES)
            d = wire.DUMPS[f := rng.randrange(3)](S.layout(code, S.gen_values(rng, code)))
            frames.append((0, d.encode() if isinstance(d, str) else d))
        elif r < 0.7:
            frames.append((rng.choice([1, 2]), rng.randbytes(rng.choice([0, 1, 4, 100]))))
        elif r < 0.8:
            frames.append((0, b""))
        elif r < 0.97:
            frames.append((rng.choice([0, 1, 2]), bytes([rng.choice([0, 0x7F, 0xFF])]) * rng.choice([1, 3, 4, 5, 255, 256, 257])))
        else:
            frames.append((0, b"\x01" * rng.choice([65535, 65536, 70000])))
    cuts = rng.choice([[1], [2], [3], [4], [5], [7, 1], [rng.randint(1, 40) for _ in range(7)], [10**6], [1, 1000]])
    if sum(len(b) for _, b in frames) > 50000:
        cuts = [rng.randint(1000, 40000) for _ in range(4)]
    return [("stream", (rng.randrange(16), rng.randint(512, MAX)), frames, cuts)]


def sig(ops):
    return repr([[short(x, 300) for x in o] for o in ops])


WORKLOADS = [
    FnWorkload("ranges", PIECES, PIECES, gen_ranges, run),
    FnWorkload("bytes", 256, 256, gen_bytes, run),
    FnWorkload("values", 4000, 200000, gen_random, run, sig=sig),
    FnWorkload("streams", 1500, 60000, gen_stream, run, sig=sig),
]
