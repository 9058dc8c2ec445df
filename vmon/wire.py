"""The three formats by way of the plain format libraries, and the library's serializers."""
import json
import struct

import cbor2
import msgpack

from vmon.gen import fresh
from wampproto import messages as M, serializers

FORMATS = ["json", "msgpack", "cbor"]
SER = [serializers.JSONSerializer, serializers.MsgPackSerializer, serializers.CBORSerializer]
DUMPS = [json.dumps, msgpack.packb, cbor2.dumps]
LOADS = [json.loads, msgpack.unpackb, cbor2.loads]
CLASSES = {
    1: M.Hello, 2: M.Welcome, 3: M.Abort, 4: M.Challenge, 5: M.Authenticate, 6: M.Goodbye, 8: M.Error, 16: M.Publish,
    17: M.Published, 32: M.Subscribe, 33: M.Subscribed, 34: M.Unsubscribe, 35: M.Unsubscribed, 36: M.Event, 48: M.Call,
    49: M.Cancel, 50: M.Result, 64: M.Register, 65: M.Registered, 66: M.Unregister, 67: M.Unregistered,
    68: M.Invocation, 69: M.Interrupt, 70: M.Yield,
}


def parse(wire):
    return CLASSES[wire[0]].parse([fresh(x) for x in wire])


class NotPlain(Exception):
    """Not one value in the format's own types."""


def _number(data, p, n):
    if p + n > len(data):
        raise NotPlain("ends early")
    return int.from_bytes(data[p:p + n], "big"), p + n


def _float(data, p, n):
    if p + n > len(data):
        raise NotPlain("ends early")
    return struct.unpack({2: ">e", 4: ">f", 8: ">d"}[n], data[p:p + n])[0], p + n


def plain_cbor(data):
    """Reads one CBOR value of numbers, texts, byte strings, arrays, maps and simple values: no tags, nothing left over."""
    def head(p):
        if p >= len(data):
            raise NotPlain("ends early")
        major, info = data[p] >> 5, data[p] & 31
        if info < 24:
            return major, info, info, p + 1
        if info > 27:
            raise NotPlain(f"additional information {info}")
        n, q = _number(data, p + 1, 1 << (info - 24))
        return major, info, n, q

    def read(p):
        major, info, n, q = head(p)
        if major == 0:
            return n, q
        if major == 1:
            return -1 - n, q
        if major in (2, 3):
            if q + n > len(data):
                raise NotPlain("ends early")
            raw = bytes(data[q:q + n])
            return raw if major == 2 else raw.decode("utf-8"), q + n
        if major == 4:
            out = []
            for _ in range(n):
                x, q = read(q)
                out.append(x)
            return out, q
        if major == 5:
            out = {}
            for _ in range(n):
                k, q = read(q)
                if type(k) is not str or k in out:
                    raise NotPlain(f"map key {k!r}")
                out[k], q = read(q)
            return out, q
        if major == 6:
            raise NotPlain(f"tag {n}")
        if info in (20, 21, 22):
            return {20: False, 21: True, 22: None}[info], q
        if info in (25, 26, 27):
            return _float(data, p + 1, 1 << (info - 24))
        raise NotPlain(f"simple value {n}")

    v, end = read(0)
    if end != len(data):
        raise NotPlain("goes on after its end")
    return v


def plain_msgpack(data):
    """Reads one MessagePack value without extension types, nothing left over."""
    def chunk(q, n, text):
        if q + n > len(data):
            raise NotPlain("ends early")
        raw = bytes(data[q:q + n])
        return raw.decode("utf-8") if text else raw, q + n

    def seq(q, n):
        out = []
        for _ in range(n):
            x, q = read(q)
            out.append(x)
        return out, q

    def table(q, n):
        out = {}
        for _ in range(n):
            k, q = read(q)
            if type(k) is not str or k in out:
                raise NotPlain(f"map key {k!r}")
            out[k], q = read(q)
        return out, q

    def read(p):
        if p >= len(data):
            raise NotPlain("ends early")
        b, q = data[p], p + 1
        if b < 0x80:
            return b, q
        if b < 0x90:
            return table(q, b & 15)
        if b < 0xA0:
            return seq(q, b & 15)
        if b < 0xC0:
            return chunk(q, b & 31, True)
        if b >= 0xE0:
            return b - 256, q
        if b in (0xC0, 0xC2, 0xC3):
            return {0xC0: None, 0xC2: False, 0xC3: True}[b], q
        if b in (0xC4, 0xC5, 0xC6):
            n, q = _number(data, q, 1 << (b - 0xC4))
            return chunk(q, n, False)
        if b in (0xCA, 0xCB):
            return _float(data, q, 4 if b == 0xCA else 8)
        if 0xCC <= b <= 0xCF:
            return _number(data, q, 1 << (b - 0xCC))
        if 0xD0 <= b <= 0xD3:
            size = 1 << (b - 0xD0)
            n, q = _number(data, q, size)
            return n - (1 << 8 * size) if n >> (8 * size - 1) else n, q
        if b in (0xD9, 0xDA, 0xDB):
            n, q = _number(data, q, 1 << (b - 0xD9))
            return chunk(q, n, True)
        if b in (0xDC, 0xDD):
            n, q = _number(data, q, 2 if b == 0xDC else 4)
            return seq(q, n)
        if b in (0xDE, 0xDF):
            n, q = _number(data, q, 2 if b == 0xDE else 4)
            return table(q, n)
        raise NotPlain(f"type {b:#x}")

    v, end = read(0)
    if end != len(data):
        raise NotPlain("goes on after its end")
    return v


def plain_json(data):
    def bad(x):
        raise NotPlain(x)

    def pairs(p):
        out = dict(p)
        if len(out) != len(p):
            raise NotPlain("a key twice")
        return out

    return json.loads(data, parse_constant=bad, object_pairs_hook=pairs)


PLAIN = [plain_json, plain_msgpack, plain_cbor]
