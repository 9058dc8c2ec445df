From e32e0d3ea01713fd5a21a6404b1b7b544c30da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 01/32] fix: dealer refuses a CALL from a session that is not
 attached

---
 wampproto/dealer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..b72cb59 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -66,6 +66,9 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
+            if session_id not in self.registrations_by_session:
+                raise ValueError(f"cannot call, session {session_id} doesn't exist")
+
             registration = self.registrations_by_procedure.get(message.procedure)
             if registration is None:
                 err = messages.Error(
-- 
2.43.0


From d2e2283b568ce7a1181fc76be12babf95b69b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 02/32] fix: dealer accepts an invocation ERROR only from the
 invoked callee

---
 wampproto/dealer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index b72cb59..f30aa89 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -183,10 +183,15 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"dealer: received unexpected error from session={session_id}")
+
+            del self.pending_calls[message.request_id]
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 8342ba03fe82774ba5eaa88ddc115ae91ffbd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 03/32] fix: dealer forgets the call id when an ERROR closes
 the call

---
 wampproto/dealer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index f30aa89..e90fcd5 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -191,6 +191,7 @@ class Dealer:
                 raise ValueError(f"dealer: received unexpected error from session={session_id}")
 
             del self.pending_calls[message.request_id]
+            del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
 
             err_msg = messages.Error(
                 messages.ErrorFields(
-- 
2.43.0


From 0134342801a34e13473174f006276c1c1da271cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 04/32] fix: dealer drops the pending calls of a session that
 leaves

---
 wampproto/dealer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index e90fcd5..6bfcc33 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,11 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid in (pending.caller_id, pending.callee_id):
+                del self.pending_calls[invocation_id]
+                del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From c765bf3720066fa22ccc86985e15478f7bb05f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 05/32] fix: dealer keeps all chunks of a progressive call in
 one invocation

---
 wampproto/dealer.py | 63 ++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 6bfcc33..babb168 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -11,6 +11,7 @@ class PendingInvocation:
     request_id: int
     caller_id: int
     callee_id: int
+    registration_id: int
     progress: bool
     receive_progress: bool
 
@@ -64,9 +65,18 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        registration_id: int,
+        progress: bool,
+        receive_progress: bool,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, registration_id, progress, receive_progress
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
@@ -74,28 +84,39 @@ class Dealer:
             if session_id not in self.registrations_by_session:
                 raise ValueError(f"cannot call, session {session_id} doesn't exist")
 
-            registration = self.registrations_by_procedure.get(message.procedure)
-            if registration is None:
-                err = messages.Error(
-                    messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
-                )
-                return types.MessageWithRecipient(err, session_id)
-
-            callee_id: int = 0
-            for session in registration.registrants.keys():
-                callee_id = session
-                break
-
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is not None:
+                # only a progressive call that is not completely sent yet can be continued
+                pending = self.pending_calls[invocation_id]
+                if not pending.progress:
+                    raise ValueError(f"cannot call, request {message.request_id} of session {session_id} is pending")
+
+                pending.progress = progress
+                callee_id = pending.callee_id
+                registration_id = pending.registration_id
             else:
+                registration = self.registrations_by_procedure.get(message.procedure)
+                if registration is None:
+                    err = messages.Error(
+                        messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
+                    )
+                    return types.MessageWithRecipient(err, session_id)
+
+                callee_id = next(iter(registration.registrants))
+                registration_id = registration.id
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id,
+                    invocation_id,
+                    session_id,
+                    callee_id,
+                    registration_id,
+                    progress,
+                    receive_progress,
+                )
 
             details = {}
             if receive_progress:
@@ -107,7 +128,7 @@ class Dealer:
             invocation = messages.Invocation(
                 messages.InvocationFields(
                     request_id=invocation_id,
-                    registration_id=registration.id,
+                    registration_id=registration_id,
                     args=message.args,
                     kwargs=message.kwargs,
                     details=details,
-- 
2.43.0


From e03bbf3955950f5c8dea78ca1a7363b276883bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 06/32] fix: dealer forwards opaque binary payloads of calls
 and results

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index babb168..726cdc3 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -134,6 +134,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -157,7 +158,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From 3f84674c4a53d63b4a0248d5f5f43320f7df64d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 07/32] fix: session keeps a call outstanding after a
 progressive RESULT

---
 wampproto/session.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..5bd6a0c 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -54,10 +54,12 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            # a progressive result leaves the call outstanding
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From 6905eec1fa23603ba54134b9fd1968f9b47e0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:33 +0000
Subject: [PATCH 08/32] fix: session keeps an invocation open after a
 progressive YIELD

---
 wampproto/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 5bd6a0c..357c8ad 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,9 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            # a progressive yield leaves the invocation open
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
-- 
2.43.0


From 3b8f2f3c689b6155440020fca608aee14ee8f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 09/32] fix: session does not count a message as sent when it
 cannot be serialized

---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 357c8ad..634395d 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # serialize first, a message that can't be serialized isn't sent
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -48,7 +51,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From 5561b16a5059352b73aee6c559a4dbebe8aeb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 10/32] fix: session keeps the pending request when it refuses
 an UNREGISTERED or UNSUBSCRIBED

---
 wampproto/session.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 634395d..0fcf493 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -74,7 +74,7 @@ class WAMPSession:
             self._registrations.add(msg.registration_id)
         elif isinstance(msg, messages.Unregistered):
             try:
-                registration_id = self._unregister_requests.pop(msg.request_id)
+                registration_id = self._unregister_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid request_id")
 
@@ -82,6 +82,8 @@ class WAMPSession:
                 self._registrations.remove(registration_id)
             except KeyError:
                 raise ValueError("received UNREGISTERED for invalid registration_id")
+
+            del self._unregister_requests[msg.request_id]
         elif isinstance(msg, messages.Invocation):
             if msg.registration_id not in self._registrations:
                 raise ValueError("received INVOCATION for invalid registration_id")
@@ -101,7 +103,7 @@ class WAMPSession:
             self._subscriptions.add(msg.subscription_id)
         elif isinstance(msg, messages.Unsubscribed):
             try:
-                subscription_id = self._unsubscribe_requests.pop(msg.request_id)
+                subscription_id = self._unsubscribe_requests[msg.request_id]
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid request_id")
 
@@ -109,6 +111,8 @@ class WAMPSession:
                 self._subscriptions.remove(subscription_id)
             except KeyError:
                 raise ValueError("received UNSUBSCRIBED for invalid subscription_id")
+
+            del self._unsubscribe_requests[msg.request_id]
         elif isinstance(msg, messages.Event):
             if msg.subscription_id not in self._subscriptions:
                 raise ValueError("received EVENT for invalid subscription_id")
-- 
2.43.0


From 6f596d6b44c44098bfb7843adc9a1ecdcb960b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 11/32] fix: acceptor is aborted once the authenticator has
 rejected the client

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From 0929856f92d009b979159529d5e5d1c595c69956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 12/32] fix: acceptor checks that a cryptosign signature is
 over the challenge it issued

---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..23b72e9 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -114,6 +114,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -148,7 +149,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..a3a37fb 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,14 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed_challenge = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    return challenge is None or signed_challenge == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From c9f02aedf9444693e0a0b06bd6f0e636083150a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 13/32] fix: malformed authentication signatures verify as
 false instead of raising

---
 wampproto/auth/cryptosign.py | 2 +-
 wampproto/auth/wampcra.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index a3a37fb..f2c13d3 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,7 @@ def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: st
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         signed_challenge = verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     return challenge is None or signed_challenge == binascii.unhexlify(challenge)
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..8ffe322 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -76,7 +76,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From f575c389a2bf67456979bc5a7d5a475f80befd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 14/32] fix: authentication challenges come from the system's
 secure random source

---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index f2c13d3..4fea5a5 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 8ffe322..9524ec1 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From 549565dbf22d47a357cb42ea053d3c37b8bf707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 15/32] fix: acceptor handles ABORT, refuses unexpected
 messages and everything after an abort

---
 wampproto/acceptor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 23b72e9..c5bc535 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -44,18 +44,23 @@ class Acceptor:
         self._challenge: str = None
         self._secret: str = None
 
-    def receive(self, data: bytes) -> (bytes, bool):
+    def receive(self, data: bytes) -> (bytes | None, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
         )
 
-    def receive_message(self, msg: messages.Message) -> messages.Message:
+    def receive_message(self, msg: messages.Message) -> messages.Message | None:
         if self._state == Acceptor.STATE_WELCOME_SENT:
             raise ValueError("session was established, not expecting any new messages")
 
+        if self._state == Acceptor.STATE_ABORTED:
+            raise ValueError("session was aborted, not expecting any new messages")
+
         if isinstance(msg, messages.Hello):
             if self._state != Acceptor.STATE_NONE:
                 raise ValueError("unknown state")
@@ -209,6 +214,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unexpected message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From 42669e2b862adfee0e4e1f8b26e999716ec93580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 16/32] fix: acceptor refuses a cryptosign HELLO without
 authextra with a proper error

---
 wampproto/acceptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index c5bc535..5a10225 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -104,7 +104,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
-- 
2.43.0


From 2ded16a349c5543efda49dc04300100b6a7246e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 17/32] fix: acceptor sends the salting parameters of a salted
 WAMP-CRA credential

---
 wampproto/acceptor.py      | 8 +++++++-
 wampproto/auth/__init__.py | 2 ++
 wampproto/auth/auth.py     | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 5a10225..d423db5 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -142,7 +142,13 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        extra["salt"] = response.salt
+                        extra["iterations"] = response.iterations
+                        extra["keylen"] = response.keylen
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 1ba7a70442453417167c5ddfeba1fbc817adc91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 18/32] fix: joiner accepts no challenge or welcome after an
 ABORT

---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 2c2322ab909d1deae2978aa7f78da1a8e5e27a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 19/32] fix: joiner is not joining before its HELLO could be
 serialized

---
 wampproto/joiner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index a10ca28..baaf444 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -47,8 +47,9 @@ class Joiner:
             )
         )
 
+        data = self._serializer.serialize(hello)
         self._state = Joiner.STATE_HELLO_SENT
-        return self._serializer.serialize(hello)
+        return data
 
     def receive(self, data: bytes) -> Optional[bytes]:
         received_message = self._serializer.deserialize(data)
-- 
2.43.0


From c3e6d0351eb817157500cd9386dabe95d57ac860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 20/32] fix: ABORT is sent with its arguments and keyword
 arguments

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 850300b3a0cdf6cc26c7c52c9abd9f591d3c3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 21/32] fix: booleans are not integers on the wire and an empty
 list is refused as invalid

---
 wampproto/messages/util.py          | 2 +-
 wampproto/serializers/serializer.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..63dc010 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -133,7 +133,7 @@ class Fields:
 
 
 def validate_int_or_raise(value: int, index: int, message: str):
-    if not isinstance(value, int):
+    if not isinstance(value, int) or isinstance(value, bool):
         return exceptions.InvalidDataTypeError.format(
             message=message, index=index, expected_type=INT, actual_type=type(value).__name__
         )
diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..26edda7 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,8 +18,11 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message, expected a non-empty list")
+
     message_type = message[0]
-    if not isinstance(message_type, int):
+    if not isinstance(message_type, int) or isinstance(message_type, bool):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
 
     match message_type:
-- 
2.43.0


From 4415b811fce5a44da65e3172eaa75a2066e49fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 22/32] fix: CBOR data after the end of a message or payload is
 refused

---
 wampproto/serializers/cbor.py    | 14 +++++++++++++-
 wampproto/serializers/payload.py |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/wampproto/serializers/cbor.py b/wampproto/serializers/cbor.py
index cc320e5..f74f921 100644
--- a/wampproto/serializers/cbor.py
+++ b/wampproto/serializers/cbor.py
@@ -1,3 +1,6 @@
+import io
+from typing import Any
+
 import cbor2
 
 from wampproto import messages, serializers
@@ -6,12 +9,21 @@ from wampproto.serializers.serializer import to_message
 CBOR_SERIALIZER_ID = 3
 
 
+def cbor_loads(data: bytes) -> Any:
+    stream = io.BytesIO(data)
+    value = cbor2.load(stream)
+    if stream.read(1):
+        raise ValueError("unexpected data after the end of the CBOR value")
+
+    return value
+
+
 class CBORSerializer(serializers.Serializer):
     def serialize(self, message: messages.Message) -> bytes:
         return cbor2.dumps(message.marshal())
 
     def deserialize(self, data: bytes) -> messages.Message:
-        wamp_message = cbor2.loads(data)
+        wamp_message = cbor_loads(data)
         return to_message(wamp_message)
 
     def static(self) -> bool:
diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..cbffbc2 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -5,6 +5,7 @@ import cbor2
 import msgpack
 
 from wampproto import serializers
+from wampproto.serializers.cbor import cbor_loads
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
@@ -52,7 +53,7 @@ def cbor_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | No
     if len(b) == 0:
         return None, None
 
-    arr = cbor2.loads(b)
+    arr = cbor_loads(b)
 
     return decode(arr)
 
-- 
2.43.0


From 60699a525c3083adcf9e75a720d6a703681d9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 23/32] fix: a payload that is not a list is refused

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index cbffbc2..eba3841 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -9,6 +9,9 @@ from wampproto.serializers.cbor import cbor_loads
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 4256ac775eb3cea7fad6815d1ac36482b90ae1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 24/32] fix: raw-socket handshake with any non-zero reserved
 byte is refused

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From 60a3828ca939d006d4b8acf5256909742733ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 25/32] fix: raw-socket handshake refuses limits and protocols
 it cannot hold

---
 wampproto/transports/rawsocket.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..c42ae84 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -1,6 +1,7 @@
 import math
 
 MAGIC = 0x7F
+PROTOCOL_MIN_MSG_SIZE = 2**9
 # 16 megabyte
 PROTOCOL_MAX_MSG_SIZE = 2**24
 DEFAULT_MAX_MSG_SIZE = 2**20
@@ -67,8 +68,12 @@ class MessageHeader:
 
 
 def send_handshake(hs: Handshake) -> bytes:
-    # FIXME: max_msg_size must not be more than 16 megabytes.
+    if not PROTOCOL_MIN_MSG_SIZE <= hs.max_msg_size <= PROTOCOL_MAX_MSG_SIZE:
+        raise ValueError(f"max_msg_size must be between {PROTOCOL_MIN_MSG_SIZE} and {PROTOCOL_MAX_MSG_SIZE}")
+
     # FIXME: protocol must be checked to ensure only supported serializers are used.
+    if not 0 <= hs.protocol <= 0xF:
+        raise ValueError("protocol must be between 0 and 15")
 
     return bytes(
         [
-- 
2.43.0


From a8de3612f88c934107f6b2af12719f78641c8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 26/32] fix: raw-socket header refuses lengths it cannot hold
 and anything but four bytes

---
 wampproto/transports/rawsocket.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index c42ae84..8edf484 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -52,6 +52,9 @@ class MessageHeader:
         return self._length
 
     def to_bytes(self) -> bytes:
+        if not 0 <= self._length < PROTOCOL_MAX_MSG_SIZE:
+            raise ValueError(f"message length must be between 0 and {PROTOCOL_MAX_MSG_SIZE - 1}")
+
         data = int_to_bytes(self._length)
         return bytes(
             [
@@ -64,6 +67,9 @@ class MessageHeader:
 
     @classmethod
     def from_bytes(cls, data: bytes) -> "MessageHeader":
+        if len(data) != 4:
+            raise ValueError("Expected 4 bytes for message header, got %d" % len(data))
+
         return MessageHeader(data[0], bytes_to_int(data[1:]))
 
 
-- 
2.43.0


From 53a95e3e1e1620251e454483172ec3c1b6736872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 27/32] fix: reading options or details does not modify the
 dictionary the application passed in

---
 wampproto/messages/call.py       | 2 +-
 wampproto/messages/invocation.py | 2 +-
 wampproto/messages/result.py     | 2 +-
 wampproto/messages/yield_.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..8eab000 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,7 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..c4949bf 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,7 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..7b117ff 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,7 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..3ac20e9 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,7 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From dd885c2248a815cb967c2c05c25c7636910afc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 28/32] fix: cryptosign authenticator does not modify the
 authextra it was given

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 4fea5a5..983ce0a 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -18,7 +18,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
         if "pubkey" not in self._auth_extra:
             public_key = self._private_key.verify_key.encode(HexEncoder).decode()
-            self._auth_extra["pubkey"] = public_key
+            self._auth_extra = {**self._auth_extra, "pubkey": public_key}
 
     def authenticate(self, challenge: messages.Challenge) -> messages.Authenticate:
         challenge_hex = challenge.extra.get("challenge")
-- 
2.43.0


From 9f7a285a8a57c81aebf6fdab5e53d6c873901e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 29/32] fix: application error without arguments carries none

---
 wampproto/exception.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wampproto/exception.py b/wampproto/exception.py
index 9bc7546..7a175bd 100644
--- a/wampproto/exception.py
+++ b/wampproto/exception.py
@@ -3,8 +3,7 @@ from typing import Any
 
 class ApplicationError(RuntimeError):
     def __init__(self, message: str, args: list[Any], kwargs: dict[str, Any]):
-        if args is not None:
-            super().__init__(*args)
+        super().__init__(*(args or []))
         self.message = message
         self._args = args
         self.kwargs = kwargs
-- 
2.43.0


From 6c7ad3f350a6e3895f2fd77968bf9c3fda3108cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 30/32] fix: session accepts further chunks of an open
 invocation after its registration ended

---
 wampproto/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 0fcf493..9c29e0c 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -85,7 +85,8 @@ class WAMPSession:
 
             del self._unregister_requests[msg.request_id]
         elif isinstance(msg, messages.Invocation):
-            if msg.registration_id not in self._registrations:
+            # a progressive invocation that is still open can be continued after its registration has ended
+            if msg.registration_id not in self._registrations and msg.request_id not in self._invocation_requests:
                 raise ValueError("received INVOCATION for invalid registration_id")
 
             self._invocation_requests.add(msg.request_id)
-- 
2.43.0


From 13b687670c26c1089bad534c35912a1843fb1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 31/32] fix: refuse altered encodings of a WAMP-CRA signature

---
 wampproto/auth/wampcra.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 9524ec1..a419291 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -79,4 +79,8 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     except ValueError:
         return False
 
+    # b64decode() skips what is no base64, an altered signature isn't the signature
+    if base64.b64encode(sig_bytes).decode() != signature:
+        return False
+
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 5463b4149216e59360417c21bfaa89aeed016629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 32/32] fix: JSON refuses NaN and infinities instead of writing
 constants no JSON reader knows

---
 wampproto/serializers/json.py    | 2 +-
 wampproto/serializers/payload.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/serializers/json.py b/wampproto/serializers/json.py
index dce9f51..4395cfa 100644
--- a/wampproto/serializers/json.py
+++ b/wampproto/serializers/json.py
@@ -8,7 +8,7 @@ JSON_SERIALIZER_ID = 1
 
 class JSONSerializer(serializers.Serializer):
     def serialize(self, message: messages.Message) -> str:
-        return json.dumps(message.marshal())
+        return json.dumps(message.marshal(), allow_nan=False)
 
     def deserialize(self, data: str) -> messages.Message:
         wamp_message = json.loads(data)
diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index eba3841..13eee52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -83,7 +83,7 @@ def json_encode_payload(args: list, kwargs: dict) -> bytes | None:
     if data is None:
         return None
 
-    return json.dumps(data).encode()
+    return json.dumps(data, allow_nan=False).encode()
 
 
 def json_decode_payload(b: bytes) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
-- 
2.43.0

