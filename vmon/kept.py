"""What a router answered stays what it was, whatever the router does afterwards: transports send later than the router
answers.  Answers are looked at when they are given and again after later operations."""
from vmon import gen
from vmon.rig import M, T, need

RECENT = 6
MOST = 400


def look(m, recipient):
    """What is to be seen of one addressed message."""
    try:
        wire = list(m.marshal())
    except Exception:
        return None
    if isinstance(m, (M.Invocation, M.Result)):
        wire += [m.payload, m.payload_serializer, m.payload_is_binary()]
    return [type(m).__name__, recipient, wire]


def kind(m):
    return f"Error{m.message_type}" if isinstance(m, M.Error) else type(m).__name__


class Kept:
    def __init__(self, st, kinds):
        self.st, self.kinds = st, kinds
        self.all = []  # what it was, how to look again

    def note(self, res):
        if not self.kinds or not res.ok:
            return
        v = res.val
        if isinstance(v, T.Publication):
            if "Event" in self.kinds and v.event is not None and isinstance(v.recipients, list):
                self.add(lambda: look(v.event, list(v.recipients)))
            if "Published" in self.kinds and isinstance(v.ack, T.MessageWithRecipient):
                self.add(lambda: look(v.ack.message, v.ack.recipient))
        elif isinstance(v, T.MessageWithRecipient) and isinstance(v.message, M.Message) and kind(v.message) in self.kinds:
            self.add(lambda: look(v.message, v.recipient))

    def add(self, see):
        was = see()
        if was is not None:
            self.all.append((was, see))
            if len(self.all) > MOST:
                del self.all[:MOST // 2]

    def recheck(self, n=RECENT):
        for was, see in self.all[-n:]:
            now = see()
            need(gen.same(now, was), "an answer given earlier has become {}; it was {}", now, was)
            self.st.ev("earlier answers looked at again")
