From 89fce8508d9396127735715ce81224b67c4e9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 01/38] fix: require all elements of HELLO and AUTHENTICATE

A list one element short passed the length check and the validator of the
missing element then indexed out of range.
---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From 142ed32d150418df9970fa6e6dce72bbde155c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 02/38] fix: return an error for an empty message list instead
 of panicking

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..303bb01 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("empty message")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From 4875cf50d0b45ed2e4327cc6f14f4ec6cee64b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 03/38] fix: check the number of elements of a CBOR payload
 before using them

---
 serializers/cbor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..0231124 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,6 +64,10 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid cbor payload length: %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
 	if !ok {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
-- 
2.43.0


From c164797adf8386afcc64e4ebbc9e008518c8eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 04/38] fix: encode absent CBOR payload arguments so that
 DecodeCBOR accepts them

nil arguments were encoded as null, which DecodeCBOR rejects.
---
 serializers/cbor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index 0231124..207a84e 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -47,6 +47,13 @@ func (c *CBORSerializer) Static() bool {
 }
 
 func EncodeCBOR(args []any, kwargs map[string]any) ([]byte, error) {
+	if args == nil {
+		args = []any{}
+	}
+	if kwargs == nil {
+		kwargs = map[string]any{}
+	}
+
 	var payload []any
 	payload = append(payload, args)
 	payload = append(payload, kwargs)
-- 
2.43.0


From 2a2de10a20906ecb17001e3158e9cf5cd7793f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 05/38] fix: do not panic on a WELCOME without authid or
 authrole

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..06d6300 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,10 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod,
+			j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From d62147a83ee17e3acf60770189e4af84d62ad28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 06/38] fix: make UNREGISTER forget the callee and the
 registration completely

The session stayed in the list callees are picked from and kept its claim on
the registration while others were left, the prefix tree was not updated, and
an unknown registration id dereferenced nil.
---
 dealer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..f2c49db 100644
--- a/dealer.go
+++ b/dealer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math/rand"
 	"path"
+	"slices"
 	"sync"
 
 	"github.com/hashicorp/go-immutable-radix/v2"
@@ -346,14 +347,22 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
+
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.callees = slices.DeleteFunc(registration.callees, func(callee uint64) bool {
+			return callee == sessionID
+		})
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From aba2b94764e91528a1256bf9a8e1c90270d80660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 07/38] fix: keep a shared registration callable when one of
 its callees leaves

Removing a session dropped wildcard registrations that still had callees,
never dropped prefix registrations that had none, and modified the callee list
while ranging over it.
---
 dealer.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/dealer.go b/dealer.go
index f2c49db..6dafcd7 100644
--- a/dealer.go
+++ b/dealer.go
@@ -117,24 +117,18 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			continue
 		}
 		delete(registration.Registrants, id)
+		registration.callees = slices.DeleteFunc(registration.callees, func(callee uint64) bool {
+			return callee == id
+		})
+
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
-
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
-		}
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
 			}
 		}
 	}
-- 
2.43.0


From 953dcdfd46d2a9083385b5526eaab95d185a5b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 08/38] fix: list a callee once when it registers a shared
 procedure again

---
 dealer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index 6dafcd7..81b2652 100644
--- a/dealer.go
+++ b/dealer.go
@@ -303,9 +303,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From 11e2d976dd0fdd4257a5d3707b41f624004bc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 09/38] fix: refuse a CALL from a session that is not attached

It was routed although no result could be delivered, or dereferenced nil when
caller disclosure is on.
---
 dealer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 81b2652..545f832 100644
--- a/dealer.go
+++ b/dealer.go
@@ -160,6 +160,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		caller, exists := d.sessions[sessionID]
+		if !exists {
+			return nil, fmt.Errorf("call: session %d doesn't exist", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
@@ -238,7 +243,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		if d.details {
-			caller := d.sessions[sessionID]
 			details["procedure"] = call.Procedure()
 			details["caller"] = sessionID
 			details["caller_authid"] = caller.AuthID()
-- 
2.43.0


From 0ac9dd513d802f3c4c8bfe61c33bee4f19fc98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 10/38] fix: keep all parts of a progressive call on one
 invocation and callee

Every part picked a callee anew, the final part got an invocation id of its
own, and a call could reuse the id of an invocation that was already answered.
---
 dealer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dealer.go b/dealer.go
index 545f832..baf8be6 100644
--- a/dealer.go
+++ b/dealer.go
@@ -193,8 +193,19 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
+		callMap := CallMap{CallerID: sessionID, CallID: call.RequestID()}
+		invocationID := d.invocationIDbyCall[callMap]
+		pending, continued := d.pendingCalls[invocationID]
+		if continued {
+			// only an open progressive call is continued, and only by a callee still there.
+			_, registered := regs.Registrants[pending.CalleeID]
+			continued = pending.Progress && registered
+		}
+
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -220,8 +231,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		if continued {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
@@ -230,7 +242,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
 			}
-			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
+			d.invocationIDbyCall[callMap] = invocationID
 		}
 
 		details := map[string]any{}
-- 
2.43.0


From 778ff14c5691e09d8e48eb3b1c4a5577b35f556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 11/38] fix: release the invocation id of a call once it got
 its final answer

invocationIDbyCall was only ever added to.
---
 dealer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index baf8be6..86765ce 100644
--- a/dealer.go
+++ b/dealer.go
@@ -287,7 +287,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.releaseCall(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -393,7 +393,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.releaseCall(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
@@ -403,6 +403,16 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	}
 }
 
+// releaseCall forgets an invocation that is not going to be answered any more.
+func (d *Dealer) releaseCall(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+
+	callMap := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[callMap] == invocationID {
+		delete(d.invocationIDbyCall, callMap)
+	}
+}
+
 func wildcardMatch(str, pattern string) bool {
 	matched, err := path.Match(pattern, str)
 	return err == nil && matched
-- 
2.43.0


From d46bbd9d9a649cd3068d76f654151e46a6186e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 12/38] fix: release the calls of a session that is removed
 from the dealer

---
 dealer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dealer.go b/dealer.go
index 86765ce..c207642 100644
--- a/dealer.go
+++ b/dealer.go
@@ -133,6 +133,12 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		}
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.releaseCall(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
-- 
2.43.0


From 0c02cffa5d555737e6f4627af4df0b626d542fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 13/38] fix: record a pending call only once its invocation can
 be sent

---
 dealer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dealer.go b/dealer.go
index c207642..8f610bf 100644
--- a/dealer.go
+++ b/dealer.go
@@ -234,6 +234,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			calleeID = regs.callees[0]
 		}
 
+		callee := d.sessions[calleeID]
+		if callee == nil {
+			return nil, fmt.Errorf("call: callee %d gone before sending invocation", calleeID)
+		}
+
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
@@ -268,11 +273,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		var invocation *messages.Invocation
-		callee := d.sessions[calleeID]
-		if callee == nil {
-			return nil, fmt.Errorf("call: callee %d gone before sending invocation", calleeID)
-		}
-
 		if call.PayloadIsBinary() && callee.StaticSerializer() {
 			invocation = messages.NewInvocationBinary(invocationID, regs.ID, details, call.Payload(),
 				call.PayloadSerializer())
-- 
2.43.0


From b3ef160ed038f5bbbf9f7141d554d5cd6acbdfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 14/38] fix: accept an ERROR for an invocation only from the
 callee it was sent to

---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index 8f610bf..8cc16f4 100644
--- a/dealer.go
+++ b/dealer.go
@@ -399,6 +399,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
+		if pending.CalleeID != sessionID {
+			return nil, fmt.Errorf("dealer: invocation %d was not sent to session %d", wErr.RequestID(), sessionID)
+		}
+
 		d.releaseCall(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
-- 
2.43.0


From 07c6f1a60d0a9083f44c103eb37ce794bad01a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 15/38] fix: keep a prefix or wildcard subscription while it
 has subscribers

One subscriber leaving removed it from the tables a publish is matched with.
---
 broker.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..954418d 100644
--- a/broker.go
+++ b/broker.go
@@ -63,14 +63,16 @@ func (b *Broker) RemoveSession(id uint64) error {
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
 		subscription, ok := b.subscriptionsByTopic[v.Topic]
-		if ok {
-			delete(subscription.Subscribers, id)
+		if !ok {
+			continue
 		}
 
-		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
+		delete(subscription.Subscribers, id)
+		if len(subscription.Subscribers) > 0 {
+			continue
 		}
 
+		delete(b.subscriptionsByTopic, v.Topic)
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 		}
@@ -155,12 +157,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From df2984f6739f1bb06279dca704abd393b59ec083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 16/38] fix: require a cryptosign signature to cover the issued
 challenge

Any message signed with the right key was accepted, so a signature captured
in an earlier handshake could be replayed.
---
 acceptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..04e28ef 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -240,7 +241,8 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			// the signed message follows the signature, it must be the challenge that was issued.
+			if !verified || !strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From d58e7187ab85c04d4f1031a39b9cb46f1b2b4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 17/38] fix: end the handshake when the acceptor sends ABORT

The client could send another AUTHENTICATE and guess again.
---
 acceptor.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 04e28ef..b4707e1 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -17,6 +17,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -101,6 +102,10 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("session was aborted, not expecting any new messages")
+	}
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
@@ -110,7 +115,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		authMethod, err := auth.SelectAuthMethod(a.authenticator.Methods(), hello.AuthMethods())
 		if err != nil {
 			abort := messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, []any{err.Error()}, nil)
-			return abort, nil
+			return a.sendAbort(abort), nil
 		}
 
 		a.authMethod = authMethod
@@ -122,7 +127,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, nil), nil
@@ -134,7 +139,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			craResponse, ok := response.(*auth.CRAResponse)
@@ -181,7 +186,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			a.request = request
@@ -211,7 +216,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil
@@ -228,7 +233,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 
 			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -244,7 +249,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			// the signed message follows the signature, it must be the challenge that was issued.
 			if !verified || !strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(abort), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -272,6 +277,11 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 	return welcome
 }
 
+func (a *Acceptor) sendAbort(abort *messages.Abort) *messages.Abort {
+	a.state = AcceptorStateAborted
+	return abort
+}
+
 func (a *Acceptor) SessionDetails() (*SessionDetails, error) {
 	if a.sessionDetails == nil {
 		return nil, fmt.Errorf("session is not setup yet")
-- 
2.43.0


From 7844a7693b079d9b1f7f42beb38a391839cd2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 18/38] fix: select anonymous for a HELLO without authmethods
 only if it is enabled

---
 auth/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..2ce61ac 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -11,7 +11,7 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var method Method
 
 	if len(proposedMethods) == 0 {
-		return Anonymous, nil
+		proposedMethods = []string{MethodAnonymous}
 	}
 
 	for _, proposed := range proposedMethods {
-- 
2.43.0


From 1a0c8fbf2acaee1c43a36a02cd067557a4901bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 19/38] fix: encode an empty list for the missing arguments of
 an ABORT

null was encoded, which the decoder rejects.
---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 531b375fc1f49840fe32a1538eeae6048a071a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 20/38] fix: default the dictionaries of CHALLENGE and WELCOME
 like those of other messages

nil was encoded as null, which the decoder rejects.
---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 632a326dfc643438e7c40e38080acb8a26514601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 21/38] fix: report a binary RESULT as binary for serializer id
 0 too

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From 2c5306ff728411b08c025528198e353ce80df368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 22/38] fix: accept SUBSCRIBED, UNSUBSCRIBED and UNREGISTERED
 only once per request

---
 session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..f57ec55 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From b137d0fbd401004a2f0c277b747cc9f1ce51a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 23/38] fix: check the length of a raw socket message header

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..1b1ca6a 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -106,6 +106,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From 2145f507785d12b1f485cdec63fbc192541e1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 24/38] fix: do not panic on a raw socket handshake with a size
 below 1

---
 transports/rawsocket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 1b1ca6a..a875be2 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -49,7 +49,7 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 	}
 
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
-	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
+	if log2 < 9 || (1<<log2) != hs.MaxMessageSize() {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
 	}
 
-- 
2.43.0


From 704d9a937acd1ee36e39f4117ad998981f7af6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 25/38] fix: refuse to encode a raw socket handshake with a
 serializer that does not fit

It was silently encoded as another serializer.
---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index a875be2..8d845ca 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -53,6 +53,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
 	}
 
+	if hs.Serializer() < 0 || hs.Serializer() > 0x0F {
+		return nil, errors.New("serializer must fit in 4 bits")
+	}
+
 	b1 := byte((log2-9)<<4 | (int(hs.Serializer()) & 0x0F))
 	return []byte{MAGIC, b1, 0x00, 0x00}, nil
 }
-- 
2.43.0


From 63146d01c652e2f5688f8ac4c760b0e2577515e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 26/38] fix: check the length of cryptosign keys

A short public key was padded with zeroes and a private key of the wrong
length panicked.
---
 auth/cryptosign.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..f8dc85e 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -29,6 +29,10 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 		return nil, errors.New("invalid private key")
 	}
 
+	if len(privateKeyRaw) != ed25519.SeedSize {
+		return nil, errors.New("invalid private key length")
+	}
+
 	privateKey := ed25519.NewKeyFromSeed(privateKeyRaw)
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
@@ -96,6 +100,10 @@ func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error)
 		return false, fmt.Errorf("signed message has invalid length (was %v, but should have been 96)", len(signatureBytes))
 	}
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been 32)", len(publicKey))
+	}
+
 	signedOut := make([]byte, 32)
 	var pubkey [32]byte
 	copy(pubkey[:], publicKey)
-- 
2.43.0


From 6609e65f966c40452f725b24793731387b7c6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 27/38] fix: do not panic on a wampcra challenge with an absurd
 key length

---
 auth/wampcra.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..d59d73b 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxKeyLength is the longest derived key a router may ask for.
+const maxKeyLength = 1 << 16
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -58,6 +61,10 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
 
+		if keylen > maxKeyLength {
+			return nil, fmt.Errorf("keylen must be at most %d, was %d", maxKeyLength, keylen)
+		}
+
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
 		rawSecret = []byte(a.secret)
@@ -85,10 +92,10 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	// If salting info give, then compute a derived key using PBKDF2.
 	salt := []byte(saltStr)
 
-	if iterations == 0 {
+	if iterations <= 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From 7f902e0fc114b4cfe00d966af3d8674abc17dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 28/38] fix: seed the random source that session ids are taken
 from

The seeded source was dropped, so every process produced the same ids.
---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..1ac8771 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From fa07cb0a9f8639159a441ace4bbd1a8c652cb6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 29/38] fix: never generate 0 as a session id

---
 idgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index 1ac8771..0c81216 100644
--- a/idgen.go
+++ b/idgen.go
@@ -17,8 +17,8 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
-	return id
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID) - 1))
+	return id + 1
 }
 
 type SessionScopeIDGenerator struct {
-- 
2.43.0


From 072eb5b4ab7a7389acb40a32ff4042c008b067c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 30/38] fix: do not convert negative numbers and numbers out of
 range to ids

They wrapped around to huge ids.
---
 util/util.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/util/util.go b/util/util.go
index f09eba5..9d4bb42 100644
--- a/util/util.go
+++ b/util/util.go
@@ -50,17 +50,25 @@ func AsInt(i any) (int, bool) {
 func AsUInt64(i any) (uint64, bool) {
 	switch v := i.(type) {
 	case int64:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true // #nosec
+		}
 	case uint64:
 		return v, true // #nosec
 	case uint8:
 		return uint64(v), true
 	case int:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true // #nosec
+		}
 	case int8:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true // #nosec
+		}
 	case int32:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true // #nosec
+		}
 	case uint:
 		return uint64(v), true // #nosec
 	case uint16:
@@ -68,9 +76,13 @@ func AsUInt64(i any) (uint64, bool) {
 	case uint32:
 		return uint64(v), true
 	case float64:
-		return uint64(v), true
+		if v >= 0 && v < math.MaxUint64 {
+			return uint64(v), true
+		}
 	case float32:
-		return uint64(v), true
+		if v >= 0 && v < math.MaxUint64 {
+			return uint64(v), true
+		}
 	}
 
 	return 0, false
-- 
2.43.0


From b5b348ac46d6956f558c12e9bcef3bea5cadb55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 31/38] fix: accept int16 as an id

MessagePack and CBOR decode integers to the smallest type that holds them.
---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index 9d4bb42..d13661f 100644
--- a/util/util.go
+++ b/util/util.go
@@ -65,6 +65,10 @@ func AsUInt64(i any) (uint64, bool) {
 		if v >= 0 {
 			return uint64(v), true // #nosec
 		}
+	case int16:
+		if v >= 0 {
+			return uint64(v), true // #nosec
+		}
 	case int32:
 		if v >= 0 {
 			return uint64(v), true // #nosec
-- 
2.43.0


From 8cc2029f25c885a9001e60bfb3a2684c6b09e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 32/38] fix: decode an empty payload to no arguments

That is what no arguments are encoded to.
---
 serializers/payload.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..a9e16cb 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -111,6 +123,10 @@ func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
 func DeserializePayload(serializerID uint64, payload []byte) ([]any, map[string]any, error) {
 	switch serializerID {
 	case NoneSerializerID:
+		if len(payload) == 0 {
+			return nil, nil, nil
+		}
+
 		return []any{payload}, make(map[string]any), nil
 	case JSONSerializerID:
 		return JSONDecodePayload(payload)
-- 
2.43.0


From 51aa8bfa8a8d433c2079e11d2b983e8d89b72b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 33/38] fix: announce the authmethod in WELCOME as a string

A joiner that is handed the message itself did not recognize the method.
---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index b4707e1..73ff03d 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -267,7 +267,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From d4ea1b28d2b7571d62f744468a07ef1014efbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 34/38] fix: welcome a wampcra session with the session id its
 challenge was issued for

---
 acceptor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 73ff03d..f050ccd 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -58,6 +58,7 @@ type Acceptor struct {
 	request    auth.Request
 	response   auth.Response
 	challenge  string
+	sessionID  uint64
 
 	sessionDetails *SessionDetails
 }
@@ -147,7 +148,8 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 				return nil, errors.New("internal response for WAMPCRA auth was of invalid type")
 			}
 
-			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), response.AuthID(), response.AuthRole(), "dynamic")
+			sessionID := GenerateID()
+			chStr, err := auth.GenerateWAMPCRAChallenge(sessionID, response.AuthID(), response.AuthRole(), "dynamic")
 			if err != nil {
 				return nil, err
 			}
@@ -163,6 +165,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			a.challenge = chStr
+			a.sessionID = sessionID
 			a.response = response
 			a.state = AcceptorStateChallengeSent
 
@@ -236,7 +239,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 				return a.sendAbort(abort), nil
 			}
 
-			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
+			return a.sendWelcome(a.sessionID, a.response, authenticate.Extra()), nil
 		case auth.CryptoSign:
 			authenticate := msg.(*messages.Authenticate)
 			request := a.request.(*auth.RequestCryptoSign)
-- 
2.43.0


From 599491185e17ed662002e0006a7b217e60dbd665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 35/38] fix: refuse floats just above the largest int instead
 of overflowing

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index d13661f..9aec048 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < -float32(intMin) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < -float64(intMin) {
 			return int(v), true
 		}
 	}
-- 
2.43.0


From 73646663a0bdd4c9d06146faca3eee594cdeb29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 36/38] fix: accept int16 as a floating point number

---
 util/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/util.go b/util/util.go
index 9aec048..9cb6e29 100644
--- a/util/util.go
+++ b/util/util.go
@@ -106,6 +106,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From 616bc2ab3fc8a871dab1a95d99acbf77f44bfc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 37/38] fix: Session: of several final RESULTs of a call
 received at once only one is accepted

---
 session.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/session.go b/session.go
index f57ec55..1797b03 100644
--- a/session.go
+++ b/session.go
@@ -128,16 +128,16 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
-		_, exists := w.callRequests.Load(result.RequestID())
+		var exists bool
+		if progress, _ := result.Details()[OptionProgress].(bool); progress {
+			_, exists = w.callRequests.Load(result.RequestID())
+		} else {
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
+		}
 		if !exists {
 			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
-		progress, _ := result.Details()[OptionProgress].(bool)
-		if !progress {
-			w.callRequests.Delete(result.RequestID())
-		}
-
 		return result, nil
 	case messages.MessageTypeRegistered:
 		registered := msg.(*messages.Registered)
-- 
2.43.0


From 9291b2ff638fd92fe1c7b10e711ff257dbc58a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 38/38] fix: NewCryptoSignAuthenticator: a pubkey in authextra
 that is no string does not correspond to the private key

---
 auth/cryptosign.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index f8dc85e..923c3f6 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -43,7 +43,8 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 
 	if authExtra["pubkey"] == nil {
 		authExtra["pubkey"] = publicKeyHex
-	} else if val, ok := authExtra["pubkey"].(string); ok {
+	} else {
+		val, _ := authExtra["pubkey"].(string)
 		if val != publicKeyHex {
 			return nil, errors.New("provided pubkey does not correspond to the private key")
 		}
-- 
2.43.0

