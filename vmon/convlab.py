"""Whole conversations: clients (Joiner, WAMPSession and an application) and one router (Acceptor, Broker, Dealer),
joined by ordered links that carry nothing but bytes, under any schedule of deliveries.

Every unit on a link travels with an intent the library never sees: what the sender meant.  The shadow of what is in
effect at the router is kept from the intents, in the order in which the router takes them.

Operations (c: client number, taken modulo the number of clients)
  ("join", format, method, framed)
  ("sub", c, topic, opts) ("unsub", c, n) ("pub", c, topic, ack, args, kwargs, opts)
  ("reg", c, proc, opts) ("unreg", c, n) ("call", c, proc, receive_progress, chunks, opts)   chunks: [(args, kwargs)]
  ("chunk", n) the n-th call with unsent chunks sends one   ("answer", c, n, how, args, kwargs) how: final progress error
  ("up", c, k) ("down", c, k)  k units (messages, or hundredths of the bytes in flight) arrive
  ("leave", c, how)  how: "goodbye", or a number: the link is cut with that share of what was sent arriving
"""
import collections
import copy
import random
import zlib

from vmon import authlab as A, gen, wire
from vmon.core import short
from vmon.rig import CALL, INVOCATION, M, attempt, call, error, need, pub, reg, sub, unreg, unsub, yield_
from wampproto import auth
from wampproto.acceptor import Acceptor
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.idgen import SessionScopeIDGenerator
from wampproto.joiner import Joiner
from wampproto.session import WAMPSession
from wampproto.transports import rawsocket as rs

METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]


class Link:
    """Ordered, lossless until cut.  Units are whole messages."""

    def __init__(self):
        self.q = collections.deque()
        self.ended = False  # nothing more will be put on it
        self.closed = False  # the end was seen by the receiver

    def put(self, data, intent):
        if not self.ended:
            self.q.append((data, intent))

    def busy(self):
        return bool(self.q) or (self.ended and not self.closed)

    def flight(self):
        return len(self.q)

    def intents(self):
        return [i for _, i in self.q]

    def take(self, k):
        for _ in range(max(1, k)):
            if not self.q:
                return
            yield self.q.popleft()

    def cut(self, share):
        keep = int(len(self.q) * share)
        while len(self.q) > keep:
            self.q.pop()
        self.ended = True


class Framed(Link):
    """The same over a byte stream: raw-socket handshake, then frames, arriving in arbitrary pieces."""

    def __init__(self, protocol, limit):
        super().__init__()
        self.out = bytearray(rs.Handshake(protocol, limit).to_bytes())
        self.want = (protocol, limit)
        self.buf = bytearray()
        self.shaken = False
        self.kind = None
        self.text = protocol == 1

    def put(self, data, intent):
        if self.ended:
            return
        raw = data.encode() if isinstance(data, str) else bytes(data)
        self.out += rs.MessageHeader(rs.MSG_TYPE_WAMP, len(raw)).to_bytes() + raw
        self.q.append((data, intent))

    def busy(self):
        return bool(self.out) or (self.ended and not self.closed)

    def take(self, k):
        n = max(1, len(self.out) * k // 100)
        self.buf += self.out[:n]
        del self.out[:n]
        while True:
            if not self.shaken:
                if len(self.buf) < 4:
                    return
                h = rs.Handshake.from_bytes(bytes(self.buf[:4]))
                need((h.protocol, h.max_msg_size) == self.want, "a handshake of {} was read as {}", self.want, (h.protocol, h.max_msg_size))
                del self.buf[:4]
                self.shaken = True
            if len(self.buf) < 4:
                return
            h = rs.MessageHeader.from_bytes(bytes(self.buf[:4]))
            if len(self.buf) < 4 + h.length:
                return
            raw = bytes(self.buf[4 : 4 + h.length])
            del self.buf[: 4 + h.length]
            data, intent = self.q.popleft()
            need(raw == (data.encode() if isinstance(data, str) else data), "a frame of {} arrived as {}", short(data), short(raw))
            yield (raw.decode() if self.text else raw), intent

    def cut(self, share):
        del self.out[int(len(self.out) * share) :]
        self.ended = True


class Host(auth.IServerAuthenticator):
    def methods(self):
        return METHODS

    def authenticate(self, q):
        if q.method == "wampcra":
            return auth.WAMPCRAResponse(q.authid, "user", "secret")
        if q.method == "ticket" and q.ticket != "ticket":
            raise ValueError("wrong ticket")
        return auth.Response(q.authid, "user")


def authenticator(method, name):
    if method == "ticket":
        return auth.TicketAuthenticator(name, "ticket", {})
    if method == "wampcra":
        return auth.WAMPCRAAuthenticator(name, "secret", {})
    if method == "cryptosign":
        return auth.CryptoSignAuthenticator(name, A.KEYS[0].private_hex, {})
    return auth.AnonymousAuthenticator(name, {})


class Req:
    """A request of a client and what came back."""

    def __init__(self, kind, rid, what):
        self.kind, self.rid, self.what = kind, rid, what
        self.replies = []
        self.taken = False  # the router has processed it

    def __repr__(self):
        return f"<{self.kind} {self.rid} {short(self.what, 80)}>"


class Call(Req):
    def __init__(self, rid, proc, recv, chunks, opts, tag):
        super().__init__("call", rid, proc)
        self.recv, self.chunks, self.opts, self.tag = recv, chunks, opts, tag
        self.sent = 0
        self.arrived = 0  # chunks the router took
        self.state = "new"  # new, open, nosuch, answered, dropped: at the router
        self.callee = None
        self.answers = []  # what the callee gave
        self.got = []  # what the caller received
        self.late = False  # a chunk arrived at the router when the call was over
        self.seen = 0  # chunks the callee received


class Client:
    def __init__(self, n, fmt, method, framed):
        self.n, self.fmt, self.method = n, fmt, method
        self.name = f"client{n}"
        if framed:
            self.up, self.down = Framed(fmt + 1, 2**20), Framed(fmt + 1, 2**24)
        else:
            self.up, self.down = Link(), Link()
        self.joiner = Joiner("realm", wire.SER[fmt](), authenticator(method, self.name))
        self.session = None
        self.sid = None
        self.state = "joining"  # joined, leaving, gone
        self.how = None
        self.ids = SessionScopeIDGenerator()
        self.reqs = {}
        self.subs, self.regs, self.old_regs = {}, {}, {}
        self.ending_subs, self.ending_regs = set(), set()
        self.invs = {}
        self.early = {}  # invocations failed before all chunks were seen
        self.received = []
        self.expected = []
        # the router's side of the connection
        self.rser = wire.SER[fmt]()
        self.acceptor = Acceptor(wire.SER[fmt](), Host())
        self.attached = False
        self.dropped = False

    def __repr__(self):
        return f"{self.name} ({wire.FORMATS[self.fmt]}, {self.state})"


class Inv:
    def __init__(self, id, proc, call, recv):
        self.id, self.proc, self.call, self.recv = id, proc, call, recv
        self.chunks = []
        self.complete = False


class Conv:
    def __init__(self, st):
        self.st = st
        self.c = []
        self.broker, self.dealer = Broker(), Dealer()
        self.by_sid = {}
        self.tags = 0
        self.calls = {}  # tag -> (client, Call)
        self.topics = collections.defaultdict(dict)  # shadow: topic -> clients subscribed, in order
        self.holders = {}  # shadow: procedure -> client
        self.formats = {}  # publication tag -> format of the publisher
        self.units = 0

    def play(self, ops):
        for op in ops:
            getattr(self, "do_" + op[0])(*op[1:])
        self.drain()
        self.judge()

    # ------------------------------------------------------------ applications

    def who(self, c):
        """An active client, or None."""
        a = [x for x in self.c if x.state == "joined"]
        return a[c % len(a)] if a else None

    def send(self, c, m, intent):
        r = attempt(c.session.send_message, m)
        need(r.ok, "{} could not send {}: {}", c, m, r)
        c.up.put(r.val, intent)

    def do_join(self, fmt, method, framed):
        c = Client(len(self.c), fmt, method, framed)
        self.c.append(c)
        c.up.put(c.joiner.send_hello(), None)

    def request(self, c, cls, kind, *a):
        req = cls(*([kind] if cls is Req else []), c.ids.next(), *a)
        need((kind, req.rid) not in c.reqs, "{} was given request id {} twice", c, req.rid)
        c.reqs[(kind, req.rid)] = req
        return req

    def do_sub(self, i, topic, opts):
        c = self.who(i)
        if c:
            q = self.request(c, Req, "subscribe", topic)
            self.send(c, sub(q.rid, topic, copy.deepcopy(opts)), ("subscribe", q))

    def do_unsub(self, i, n):
        c = self.who(i)
        held = [s for s in c.subs if s not in c.ending_subs] if c else []
        if held:
            s = held[n % len(held)]
            c.ending_subs.add(s)
            q = self.request(c, Req, "unsubscribe", (s, c.subs[s]))
            self.send(c, unsub(q.rid, s), ("unsubscribe", q))

    def do_pub(self, i, topic, ack, args, kwargs, opts):
        c = self.who(i)
        if c:
            self.tags += 1
            args = [f"event{self.tags}"] + copy.deepcopy(args)
            opts = copy.deepcopy(opts)
            q = Req("publish", c.ids.next(), (topic, args, kwargs))
            if ack:
                opts["acknowledge"] = True
                c.reqs[("publish", q.rid)] = q
            self.formats[args[0]] = c.fmt
            self.send(c, pub(q.rid, topic, copy.deepcopy(args), copy.deepcopy(kwargs), opts), ("publish", q))

    def do_reg(self, i, proc, opts):
        c = self.who(i)
        if c:
            q = self.request(c, Req, "register", proc)
            self.send(c, reg(q.rid, proc, copy.deepcopy(opts)), ("register", q))

    def do_unreg(self, i, n):
        c = self.who(i)
        held = [r for r in c.regs if r not in c.ending_regs] if c else []
        if held:
            r = held[n % len(held)]
            c.ending_regs.add(r)
            q = self.request(c, Req, "unregister", (r, c.regs[r]))
            self.send(c, unreg(q.rid, r), ("unregister", q))

    def do_call(self, i, proc, recv, chunks, opts):
        c = self.who(i)
        if c and chunks:
            self.tags += 1
            tag = f"call{self.tags}"
            chunks = [([tag, k] + copy.deepcopy(a), copy.deepcopy(kw)) for k, (a, kw) in enumerate(chunks)]
            q = self.request(c, Call, "call", proc, recv, chunks, opts, tag)
            self.calls[tag] = (c, q)
            self.send_chunk(c, q)

    def send_chunk(self, c, q):
        args, kwargs = q.chunks[q.sent]
        q.sent += 1
        opts = copy.deepcopy(q.opts)
        if q.recv:
            opts["receive_progress"] = True
        if q.sent < len(q.chunks):
            opts["progress"] = True
        self.send(c, call(q.rid, q.what, copy.deepcopy(args), copy.deepcopy(kwargs), opts), ("call", q))

    def unsent(self):
        # a caller that was told the outcome sends no further chunk
        return [(c, q) for c, q in self.calls.values() if c.state == "joined" and q.sent < len(q.chunks) and not q.replies]

    def do_chunk(self, n):
        u = self.unsent()
        if u:
            self.send_chunk(*u[n % len(u)])

    def do_answer(self, i, n, how, args, kwargs):
        c = self.who(i)
        if not c:
            return
        ready = list(c.invs.values())
        if not ready:
            return
        v = ready[n % len(ready)]
        if how == "progress" and not v.recv:
            how = "final"
        if how == "final" and not v.complete:
            if not v.recv:
                return
            how = "progress"
        self.answer(c, v, how, args, kwargs)

    def answer(self, c, v, how, args, kwargs):
        q = v.call
        if how != "progress":
            del c.invs[v.id]
        # the outcome: who computed it, for which procedure, from which chunks
        args = [c.name, v.proc, copy.deepcopy(v.chunks), len(q.answers)] + copy.deepcopy(args)
        n = zlib.crc32(q.tag.encode())
        uri = gen.nth_error_uri(n // 3) if n % 3 == 0 else "com.app.failed." + q.tag
        if how == "error":
            q.answers.append(("error", uri, copy.deepcopy(args), copy.deepcopy(kwargs)))
            m = error(INVOCATION, v.id, uri, args, kwargs, {})
        else:
            q.answers.append((how, None, copy.deepcopy(args), copy.deepcopy(kwargs)))
            m = yield_(v.id, args, kwargs, {"progress": True} if how == "progress" else {})
        if how == "error" and q.seen < len(q.chunks):
            c.early[v.id] = q
            self.st.ev("progressive call failed before its last chunk was seen")
        self.send(c, m, ("answer", q, how))

    def do_leave(self, i, how):
        c = self.who(i)
        if not c:
            return
        c.how = how
        if how == "goodbye":
            c.state = "leaving"
            self.send(c, M.Goodbye(M.GoodbyeFields({}, "wamp.close.close_realm")), ("goodbye",))
        else:
            c.state = "gone"
            c.up.cut(how)
            c.down.cut(0)
            c.down.closed = True

    # ------------------------------------------------------------ deliveries

    def do_up(self, i, k):
        c = self.c[i % len(self.c)] if self.c else None
        if not c or c.up.closed:
            return
        for data, intent in c.up.take(k):
            self.units += 1
            self.router(c, data, intent)
            if c.dropped:
                break
        if c.up.ended and not c.up.closed and not (c.up.q if type(c.up) is Link else c.up.out):
            c.up.closed = True
            self.detach(c)
            self.st.ev("links cut")

    def do_down(self, i, k):
        c = self.c[i % len(self.c)] if self.c else None
        if not c or c.down.closed:
            return
        for data, intent in c.down.take(k):
            self.units += 1
            self.client(c, data, intent)

    def drain(self):
        rnd = random.Random(random.random())
        for _ in range(200000):
            todo = [("up", c.n) for c in self.c if c.up.busy() and not c.up.closed and not c.dropped]
            todo += [("down", c.n) for c in self.c if c.down.busy() and not c.down.closed]
            todo += [("chunk", k) for k in range(len(self.unsent()))]
            for c in self.c:
                if c.state == "joined":
                    todo += [("finish", c, v) for v in c.invs.values() if v.complete]
            if not todo:
                return
            t = rnd.choice(todo)
            if t[0] in ("up", "down"):
                getattr(self, "do_" + t[0])(t[1], rnd.choice([1, 1, 2, 5, 60, 100]))
            elif t[0] == "chunk":
                self.do_chunk(t[1])
            else:
                self.answer(t[1], t[2], "final" if rnd.random() < 0.8 else "error", [], None)
        raise RuntimeError("the conversation does not come to rest")

    # ------------------------------------------------------------ the router

    def post(self, to, m, intent):
        if to is None or to.dropped:
            return
        r = attempt(to.rser.serialize, m)
        need(r.ok, "the router could not write {} for {}: {}", m, to, r)
        to.down.put(r.val, intent)

    def detach(self, c):
        if c.attached:
            self.broker.remove_session(c.sid)
            self.dealer.remove_session(c.sid)
            c.attached = False
            for t in self.topics.values():
                t.pop(c, None)
            for p in [p for p, h in self.holders.items() if h is c]:
                del self.holders[p]
            for caller, q in self.calls.values():
                if q.state == "open" and c in (caller, q.callee):
                    q.state = "dropped"
                    self.st.ev("callee left an open call", caller is not c)
        c.dropped = True

    def router(self, c, data, intent):
        st = self.st
        if not c.attached:
            r = attempt(c.acceptor.receive, data)
            need(r.ok, "the router side refused the handshake of {}: {}", c, r)
            out, final = r.val
            if final:
                d = c.acceptor.get_session_details()
                c.sid = d.session_id
                self.by_sid[c.sid] = c
                self.broker.add_session(d)
                self.dealer.add_session(d)
                c.attached = True
            c.down.put(out, ("handshake", final))
            return
        r = attempt(c.rser.deserialize, data)
        need(r.ok, "the router could not read {} of {}: {}", intent, c, r)
        m = r.val
        kind = intent[0]
        if kind == "goodbye":
            self.post(c, M.Goodbye(M.GoodbyeFields({}, "wamp.close.goodbye_and_out")), ("goodbye",))
            self.detach(c)
            st.ev("goodbyes")
            return
        if kind == "publish":
            q = intent[1]
            q.taken = True
            r = attempt(self.broker.receive_publish, c.sid, m)
            need(r.ok, "the router refused {} of {}: {}", q, c, r)
            for x in self.topics[q.what[0]]:
                x.expected.append(q.what)
                st.ev("publications to the publisher itself", x is c)
            p = r.val
            acks = [(self.by_sid.get(p.ack.recipient), p.ack.message)] if p.ack is not None else []
            outs = [(self.by_sid.get(s), p.event) for s in (p.recipients or [])]
            for to, x in outs + acks if q.rid % 2 else acks + outs:
                self.post(to, x, ("publish", q))
            return
        if kind in ("subscribe", "unsubscribe"):
            r = attempt(self.broker.receive_message, c.sid, m)
        else:
            if kind == "call":
                self.before_call(c, intent[1])
            r = attempt(self.dealer.receive_message, c.sid, m)
        if kind == "answer":
            self.answered(c, intent[1], intent[2], m, r)
            return
        q = intent[1]
        q.taken = True
        if kind == "call" and q.late:
            if r.ok:
                self.forward(r.val, ("late", q))
            return
        need(r.ok, "the router refused {} of {}: {}", q, c, r)
        if kind == "subscribe":
            self.topics[q.what][c] = True
        elif kind == "unsubscribe":
            self.topics[q.what[1]].pop(c, None)
        elif kind == "register" and isinstance(r.val.message, M.Registered):
            self.holders[q.what] = c
        elif kind == "unregister" and self.holders.get(q.what[1]) is c:
            del self.holders[q.what[1]]
        self.forward(r.val, (kind, q))

    def before_call(self, c, q):
        q.arrived += 1
        if q.arrived == 1:
            q.callee = self.holders.get(q.what)
            q.state = "open" if q.callee else "nosuch"
        elif q.state != "open":
            q.late = True
            self.st.ev("chunks after the end of their call")
        elif self.holders.get(q.what) is not q.callee:
            self.st.ev("chunks after the registration ended")

    def answered(self, c, q, how, m, r):
        caller = self.calls[q.tag][0]
        if not r.ok:
            if q.late:
                return
            need(not caller.attached, "the router refused the answer ({}) of {} to {}: {}", how, c, q, r)
            self.st.ev("answers to a caller that left")
            return
        if how != "progress" and q.state == "open":
            q.state = "answered"
        self.forward(r.val, ("answer", q, how))

    def forward(self, out, intent):
        self.post(self.by_sid.get(out.recipient), out.message, intent)

    # ------------------------------------------------------------ the clients

    def client(self, c, data, intent):
        st = self.st
        if c.session is None:
            r = attempt(c.joiner.receive, data)
            need(r.ok, "{} refused its {} handshake: {}", c, c.method, r)
            if r.val is not None:
                c.up.put(r.val, None)
                return
            d = c.joiner.get_session_details()
            need(d.session_id == c.sid, "{} holds session id {}, the router {}", c, d.session_id, c.sid)
            c.session = WAMPSession(wire.SER[c.fmt]())
            c.state = "joined"
            st.ev("joined")
            st.ev("joined later", self.units > 40)
            return
        q = intent[1] if len(intent) > 1 else None
        late = isinstance(q, Call) and q.late
        r = attempt(c.session.receive, data)
        if not r.ok and late:
            st.flag("late-chunk", f"{c} refused {intent} (a chunk reached the router after the call was over): {r}")
            return
        if not r.ok and isinstance(q, Call) and intent[0] == "call" and q in c.early.values():
            st.flag("late-chunk", f"{c} refused a chunk of {q}, which it had answered early, after its registration ended: {r}")
            return
        need(r.ok, "{} refused what the router sent on {}: {}", c, intent, r)
        m = r.val
        if isinstance(m, M.Goodbye):
            c.state = "gone"
            return
        if isinstance(m, M.Event):
            topic = c.subs.get(m.subscription_id)
            need(topic is not None, "{} got an event of subscription {}, it holds {}", c, m.subscription_id, c.subs)
            c.received.append((topic, m.args, m.kwargs))
            st.ev("events received")
            st.ev("events received while unsubscribing", m.subscription_id in c.ending_subs)
            st.ev("events over two formats", bool(m.args) and self.formats.get(str(m.args[0]), c.fmt) != c.fmt)
        elif isinstance(m, M.Invocation):
            self.invoked(c, m)
        elif isinstance(m, M.Result):
            self.result(c, m, "progress" if m.details.get("progress") else "final", None)
        elif isinstance(m, M.Error) and m.message_type == CALL:
            self.result(c, m, "error", m.uri)
        else:
            self.reply(c, m, intent)

    def reply(self, c, m, intent):
        kinds = {M.Subscribed: "subscribe", M.Unsubscribed: "unsubscribe", M.Registered: "register", M.Unregistered: "unregister", M.Published: "publish"}
        kind = kinds.get(type(m))
        if isinstance(m, M.Error):
            kind = {32: "subscribe", 34: "unsubscribe", 64: "register", 66: "unregister", 16: "publish"}.get(m.message_type)
        q = c.reqs.get((kind, m.request_id))
        need(q is not None, "{} was answered {} to no request of its own", c, m)
        q.replies.append(m)
        self.st.ev("replies received")
        if isinstance(m, M.Subscribed):
            c.subs[m.subscription_id] = q.what
        elif isinstance(m, M.Unsubscribed):
            c.subs.pop(q.what[0], None)
            c.ending_subs.discard(q.what[0])
        elif isinstance(m, M.Registered):
            c.regs[m.registration_id] = q.what
        elif isinstance(m, M.Unregistered):
            c.old_regs[q.what[0]] = c.regs.pop(q.what[0], None)
            c.ending_regs.discard(q.what[0])

    def invoked(self, c, m):
        st = self.st
        args = m.args if isinstance(m.args, list) else []
        tag = args[0] if args and isinstance(args[0], str) else None
        need(tag in self.calls, "{} was invoked with {}, which no caller sent", c, m)
        caller, q = self.calls[tag]
        proc = c.regs.get(m.registration_id) or c.old_regs.get(m.registration_id)
        v = c.invs.get(m.request_id)
        if v is None and c.early.get(m.request_id) is q:
            st.ev("chunks that crossed an early answer")
            return
        if not q.late:
            need(q.callee is c and proc == q.what, "{} of {} (held by {}) invoked {} at {}", q, caller, q.callee, proc, c)
            need(q.seen < len(q.chunks), "{} of {} reached {} once too often", q, caller, c)
            want = q.chunks[q.seen]
            need(gen.same_payload(m.args, m.kwargs, *want), "{} of {} sent {}, its callee got {} {}", q, caller, want, m.args, m.kwargs)
            if v is None:
                need(q.seen == 0, "chunk {} of {} reached {} as an invocation of its own", q.seen, q, c)
            else:
                need(v.call is q, "{} of {} came in as a chunk of {}", q, caller, v.call)
                st.ev("further chunks received")
        q.seen += 1
        if v is None:
            v = c.invs[m.request_id] = Inv(m.request_id, proc, q, bool(m.details.get("receive_progress")))
            need(v.recv == q.recv or q.late, "{} asked for progress: {}; its callee was told {}", q, q.recv, v.recv)
        v.chunks.append([copy.deepcopy(m.args), copy.deepcopy(m.kwargs) or None])
        v.complete = not m.details.get("progress")
        if c.state != "joined":
            st.ev("invocations of a callee that is leaving")
        st.ev("invocations received")
        st.ev("invocations over two formats", caller.fmt != c.fmt)
        st.ev("invocations of the caller itself", caller is c)
        st.ev("invocations while unregistering", m.registration_id in c.ending_regs)

    def result(self, c, m, how, uri):
        st = self.st
        q = c.reqs.get(("call", m.request_id))
        need(q is not None, "{} was answered {} to no call of its own", c, m)
        if how != "progress":
            q.replies.append(m)
            if len(q.replies) > 1:
                msg = f"{q} of {c} was finally answered {len(q.replies)} times"
                if q.late:
                    st.flag("late-chunk", msg)
                need(q.late, "{}", msg)
        q.got.append((how, uri, m.args, m.kwargs))
        st.ev("progressive results received" if how == "progress" else "results received" if how == "final" else "call errors received")
        if not q.late and q.callee is not None:
            k = len(q.got) - 1
            need(k < len(q.answers), "{} of {} was answered {} and its callee gave only {}", q, c, q.got, q.answers)
            a, b = q.got[k], q.answers[k]
            need(a[:2] == b[:2] and gen.same_payload(a[2], a[3], b[2], b[3]), "{} of {} was answered {}, its callee gave {}", q, c, a, b)
            st.ev("answers compared")
            st.ev("answers while other calls are open", any(x is not q and x.state == "open" for _, x in self.calls.values()))

    # ------------------------------------------------------------ at rest

    def judge(self):
        st = self.st
        for c in self.c:
            if c.state == "gone" and c.how != "goodbye":
                n = len(c.received)
                need(self.same_events(c.received, c.expected[:n]), "{} received {}, published for it were {}", c, c.received, c.expected)
                continue
            if c.state == "gone":
                need(self.same_events(c.received, c.expected), "{} received {} before its goodbye, published for it were {}", c, c.received, c.expected)
            else:
                need(c.state == "joined", "{} never got in", c)
                need(self.same_events(c.received, c.expected), "{} received {}, published for it were {}", c, c.received, c.expected)
            st.ev("event streams compared", bool(c.expected))
            for q in c.reqs.values():
                if q.kind == "call":
                    self.judge_call(c, q)
                else:
                    need(len(q.replies) == 1, "{} of {} was answered {} times", q, c, len(q.replies))
        st.top("units on links", self.units)
        st.ev("units on links", self.units)
        if self.units > 20:
            st.nontrivial()

    def judge_call(self, c, q):
        if q.late or c.state == "gone":
            return
        if q.state == "dropped":
            need(len(q.replies) <= 1, "{} of {} was answered {} times", q, c, len(q.replies))
            self.st.ev("calls whose callee left")
            return
        need(len(q.replies) == 1, "{} of {} to {} was finally answered {} times", q, c, q.callee, len(q.replies))
        if q.callee is None:
            need(q.got == [("error", "wamp.error.no_such_procedure", q.got[0][2], q.got[0][3])], "{} of {} to nobody was answered {}", q, c, q.got)
            self.st.ev("calls to nobody")
            return
        need(len(q.got) == len(q.answers), "{} of {} was answered {}, its callee gave {}", q, c, q.got, q.answers)
        self.st.ev("calls settled")
        self.st.ev("progressive calls settled", len(q.chunks) > 1)

    @staticmethod
    def same_events(got, want):
        return len(got) == len(want) and all(
            a[0] == b[0] and gen.same_payload(a[1], a[2], b[1], b[2]) for a, b in zip(got, want)
        )
