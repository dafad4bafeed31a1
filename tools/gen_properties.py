#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H = ["histories"]
HI = ["histories", "inputs"]
I = ["inputs"]

# ---------------------------------------------------------------- pubsub
prop("C01", "Events go to exactly the current subscribers of the matched subscription",
     "Every event a publish produces is addressed to all sessions that currently hold the matched subscription, each once, and to nobody else: a session is included from its SUBSCRIBE on and is excluded as soon as it has unsubscribed or been removed from the broker. "
     "The subscription id inside the event is the id that SUBSCRIBED reported to those sessions. A PUBLISH of an attached session is never refused.",
     H, "every history of attach, subscribe, unsubscribe, publish and remove, with any number of sessions and topics",
     "Tests use one subscriber on one topic; the recipient set depends on the whole history of joins and leaves of many sessions.",
     ["broker.go", "types.go"],
     [("subscribe/unsubscribe/remove update the subscriber set and the per-session set together", "broker.go ReceiveMessage, RemoveSession"),
      ("recipients are collected from the matched subscription's subscriber set", "broker.go ReceivePublish")],
     [("subscriber set", "sessions that receive the subscription's events", "types.go Subscription.Subscribers")],
     ["Publication.Recipients", "Publication.Event"])
prop("C02", "A subscription is matchable exactly while it has a subscriber",
     "Whatever its match policy (exact, prefix or wildcard), a subscription becomes findable when its first subscriber joins and stays findable while any subscriber is left: one session leaving, by UNSUBSCRIBE or by being removed, never stops delivery to the others. "
     "When the last subscriber leaves it disappears from every way of finding it, so later publishes, subscribes and queries behave as if it had never existed. Nothing but a SUBSCRIBE, an UNSUBSCRIBE or a leaving session, and nothing about another subscription, changes who is subscribed or what can be found.",
     H, "every history of subscribes and leaves over all three match policies and any number of sessions",
     "Tests never have two sessions on one subscription and never publish after somebody left a prefix or wildcard subscription.",
     ["broker.go"],
     [("emptiness test guards removal from the exact, prefix and wildcard indexes", "broker.go ReceiveMessage (UNSUBSCRIBE), RemoveSession")],
     None, ["Broker.ReceivePublish", "Broker.HasSubscription"])
prop("C03", "Publish picks exact, then longest-prefix, then wildcard subscription",
     "A publish is matched against the subscription for exactly its topic if that has subscribers, otherwise against the prefix subscription with the longest matching prefix, otherwise against a wildcard subscription whose pattern matches the topic. "
     "When nothing matches there is no event and no error; an event is produced whenever one of these matches.",
     HI, "every topic string and every set of coexisting exact, prefix and wildcard subscriptions",
     "Tests only have one subscription at a time, so precedence and fall-through are never exercised.",
     ["broker.go", "dealer.go"],
     [("exact lookup, then radix-tree longest prefix, then wildcard scan", "broker.go ReceivePublish"), ("wildcard pattern matching", "dealer.go wildcardMatch")],
     None, ["Publication.Event", "Publication.Recipients"])
prop("C04", "Publications are acknowledged on request and carried unmodified",
     "A publish is answered with PUBLISHED to the publisher exactly when it asked for acknowledgement; that PUBLISHED carries the publish's request id and the same publication id as the event. "
     "The event carries the publish's positional and keyword arguments unmodified, and every publish gets a fresh publication id.",
     HI, "every publish message (any options, args, kwargs) in every broker state",
     "Tests check that an acknowledgement exists for one or two publishes; they do not compare ids or payloads.",
     ["broker.go"], [("publication id shared by event and acknowledgement", "broker.go ReceivePublish")], None,
     ["Publication.Ack", "Publication.Event"])
prop("C05", "Peer identity is disclosed only when enabled, and truthfully",
     "The identity of the publisher (or caller) appears in event (or invocation) details exactly when automatic disclosure is switched on at that moment, and nothing but the switch changes that. "
     "What is disclosed is the topic (or procedure) of the message and the session id, authid and authrole of the session that actually sent it.",
     HI, "every publish and call, every toggle history, every sender",
     "Tests use one sender whose values equal everybody else's authid and authrole, so a mixed-up session would go unnoticed.",
     ["broker.go", "dealer.go"],
     [("publisher_* details", "broker.go ReceivePublish"), ("caller_* details", "dealer.go ReceiveMessage (CALL)")], None,
     ["Event.Details()", "Invocation.Details()"])
prop("C06", "Requests from unattached sessions are refused without side effects",
     "A SUBSCRIBE, UNSUBSCRIBE, PUBLISH, REGISTER, UNREGISTER or CALL from a session id that is not attached returns an error, sends nothing and changes nothing. "
     "Attaching an id that is already attached, or removing one that is not, returns an error and changes nothing; after a successful removal the id counts as unattached and can be attached again. No other operation attaches or detaches a session.",
     HI, "every session id and every router state",
     "Tests try one unknown id for a few of the operations, and never look at the state afterwards.",
     ["broker.go", "dealer.go"],
     [("session lookup precedes every state change", "broker.go, dealer.go"), ("session tables are written and deleted together", "AddSession/RemoveSession")],
     [("attached sessions", "sessions known to the router", "broker.go Broker, dealer.go Dealer")], ["errors returned by Broker and Dealer"])
prop("C07", "A procedure has one callee unless all agreed on one shared policy",
     "Registering a procedure that is already registered is refused with wamp.error.procedure_already_exists, leaving routing unchanged, unless it was registered with a sharing invocation policy (not empty, not single) and the new REGISTER names that same policy. "
     "An accepted REGISTER is confirmed to the registering session with REGISTERED carrying its request id and the registration id that later INVOCATIONs for the procedure carry and that UNREGISTER accepts.",
     HI, "every sequence of REGISTERs over all policies and sessions",
     "Tests try two or three combinations of policies, with two callees.",
     ["dealer.go"], [("policy comparison before joining an existing registration", "dealer.go ReceiveMessage (REGISTER)")], None,
     ["reply to REGISTER"])
prop("C08", "No call is routed to a callee that unregistered or left",
     "Once a session has unregistered a procedure, or has been removed, it is never again chosen as the recipient of an INVOCATION for that registration, while the remaining callees of a shared registration keep receiving calls. "
     "UNREGISTER is confirmed only for a registration the session currently holds; otherwise it returns an error and changes nothing.",
     H, "every history of register, unregister, disconnect and call over any number of callees, including repeated registration by one session",
     "Tests unregister a sole callee only; no test unregisters or removes one of several callees and then calls.",
     ["dealer.go"],
     [("registrant set and ordered callee list are updated together", "dealer.go ReceiveMessage (REGISTER, UNREGISTER), RemoveSession")],
     [("callee list", "callees in registration order, from which a call picks", "dealer.go Registration")], ["recipient of INVOCATION"])
prop("C09", "A registration is callable exactly while it has a callee",
     "Whatever its match policy (exact, prefix or wildcard), a registration becomes callable when its first callee registers and stays callable while any callee is left: one callee leaving, by UNREGISTER or by being removed, never makes calls to the others fail. "
     "When the last callee leaves it disappears from every way of finding it, so it neither shadows another matching registration nor blocks a new REGISTER of that URI. Nothing but a REGISTER, an UNREGISTER or a leaving session, and nothing about another registration, changes who is registered or what can be found.",
     H, "every history of registers and leaves over all three match policies and any number of callees",
     "Tests never call a prefix or wildcard procedure after a callee left.",
     ["dealer.go"],
     [("emptiness test guards removal from the exact, prefix and wildcard indexes; the immutable prefix tree is replaced on removal", "dealer.go ReceiveMessage (UNREGISTER), RemoveSession")],
     None, ["Dealer.ReceiveMessage(CALL)", "Dealer.HasProcedure"])
prop("C10", "A call resolves exact, then longest-prefix, then wildcard, or fails",
     "A CALL is routed by the registration for exactly its procedure URI if that has callees, otherwise by the prefix registration with the longest matching prefix, otherwise by a wildcard registration whose pattern matches. "
     "When none matches, and only then, the caller gets an ERROR of type CALL carrying its request id and wamp.error.no_such_procedure, and no INVOCATION is sent.",
     HI, "every procedure URI and every set of coexisting registrations",
     "Tests have one registration at a time, so precedence and fall-through are never exercised.",
     ["dealer.go"], [("exact lookup, then longest prefix, then wildcard scan", "dealer.go ReceiveMessage (CALL)")], None,
     ["reply to CALL"])
prop("C11", "The invocation policy decides which callee gets a call",
     "With several callees, policy first picks the earliest registered, last the most recently registered, roundrobin visits all callees in turn starting from the first, and random picks one of the current callees; a sole callee is always picked. "
     "The recipient is always one of the registration's current callees, and a callee joining or leaving does not start the round over. The policy of a registration never changes.",
     HI, "every callee list of any length and every sequence of calls",
     "Tests use two callees that never leave.",
     ["dealer.go"], [("policy switch over the ordered callee list", "dealer.go ReceiveMessage (CALL)")],
     [("round-robin cursor", "next callee to visit", "dealer.go Registration")], ["recipient of INVOCATION"])
prop("C12", "An answer goes back to the session and request that made the call",
     "The RESULT or ERROR for an invocation is addressed to the session that sent the CALL and carries that CALL's request id; a RESULT carries the YIELD's arguments, an ERROR has type CALL and carries the callee's details, URI and arguments, unmodified. "
     "Each call that is not a continuation gets an invocation id of its own, and YIELD or ERROR for an invocation that is not open is refused with an error, while the answer of the invoked callee to an open invocation whose caller is still attached is never refused. Nothing but a final answer or the removal of one of its two sessions closes an open invocation, and no other call alters what is remembered about it.",
     HI, "every interleaving of calls and answers among any number of sessions",
     "Tests have one outstanding call between two sessions, with equal request ids in places.",
     ["dealer.go"], [("pending-invocation record keyed by a router-wide id", "dealer.go ReceiveMessage (CALL, YIELD, ERROR)")],
     [("pending invocation", "who called, with which request id, and whom", "dealer.go PendingInvocation")], ["RESULT, ERROR"])
prop("C13", "An invocation gets at most one final answer",
     "A YIELD that is not marked progress, a YIELD marked progress for a call that did not ask for progressive results, and an ERROR each end the invocation, so that any later answer to it is refused. "
     "A YIELD marked progress for a call that did ask leaves the invocation open, and the RESULT is marked progress exactly in that case.",
     HI, "every sequence of answers to every invocation",
     "The tests send ten progressive results and one final one and nothing after it, and never send progress to a caller that did not ask.",
     ["dealer.go"], [("pending invocation deleted on final answers", "dealer.go ReceiveMessage (YIELD, ERROR)")], None, ["RESULT.Details()"])
prop("C14", "All parts of one progressive call reach the same callee and invocation",
     "While a call sent with progress is open and its callee is still registered, every further CALL of that session with the same request id, including the final one without progress, is delivered to the callee that received the first part, under the same invocation id. "
     "A CALL that does not continue an open progressive call starts a new invocation.",
     H, "every sequence of call parts, over every invocation policy",
     "Tests use one callee and do not compare the invocation id of the final part.",
     ["dealer.go"], [("map from (caller, request) to invocation", "dealer.go ReceiveMessage (CALL)")], None, ["INVOCATION recipient and request id"])
prop("C15", "No call state outlives its call",
     "When an invocation gets its final answer everything the dealer remembers about that call is released, so a later CALL reusing the request id starts afresh and memory does not grow with the number of completed calls. "
     "Removing a session also releases the calls it made and the invocations it was serving.",
     H, "every history of calls, answers and disconnects",
     "Leaked entries change nothing a short test can see.",
     ["dealer.go"], [("call tables deleted on final answer and on session removal", "dealer.go")],
     [("call tables", "open invocations, and invocation by call", "dealer.go Dealer")], ["memory, reuse of request ids"])
prop("C16", "Only the invoked callee can answer an invocation",
     "A YIELD or ERROR for an open invocation is accepted only from the session the INVOCATION was sent to; from any other session it is refused with an error and the invocation stays open.",
     HI, "every answering session and every open invocation",
     "The existing tests answer from the calling session and expect that to work.",
     ["dealer.go"], [("comparison of the answering session with the recorded callee", "dealer.go ReceiveMessage (YIELD, ERROR)")], None, ["RESULT, ERROR"])
prop("C17", "Opaque payloads are forwarded intact or as decoded arguments",
     "A call or yield carrying an opaque payload reaches a peer with a static serializer as the same bytes with the same payload serializer id, and any other combination is forwarded as the message's positional and keyword arguments. "
     "A message built with a binary payload, with any serializer id including 0, reports itself as binary, returns exactly that payload and id and names the id in its options or details (x_payload_serializer); any other message reports itself as not binary.",
     I, "every payload, serializer id and combination of peers",
     "No test builds a binary message.",
     ["dealer.go", "messages/call.go", "messages/invocation.go", "messages/yield.go", "messages/result.go"],
     [("binary branch in the dealer", "dealer.go ReceiveMessage (CALL, YIELD)"), ("binary constructors and accessors", "messages")], None,
     ["PayloadIsBinary, Payload, PayloadSerializer"])
prop("C18", "A session gets the match policy it asked for",
     "A subscription or registration created by a request matches by the policy named in that request's match option (prefix or wildcard), and exactly when the option is absent or has any other value. "
     "A request is never silently joined to an existing subscription or registration that has a different policy, and joining one never changes its match policy.",
     HI, "every pair of requests for one URI with any two match policies",
     "Each test uses one match policy at a time.",
     ["broker.go", "dealer.go"], [("match option decides the index", "broker.go SUBSCRIBE, dealer.go REGISTER")], None, ["EVENT, INVOCATION delivery"])

# ---------------------------------------------------------------- handshake
prop("C19", "No WELCOME without successful authentication",
     "The router side sends WELCOME only for a HELLO that its authenticator approved for the selected method, using that HELLO's realm, authid and authextra. "
     "For ticket the presented ticket was part of the approved request; for wampcra the signature verified against the issued challenge with the approved secret; for cryptosign the signature verified under the public key that was approved. Without an authenticator only the method anonymous is offered and granted, with authid and authrole anonymous.",
     ["histories", "inputs"], "every sequence of client messages, signatures and authenticator decisions",
     "Tests try one wrong ticket, secret and key; an accepting path that skips a check for some method or input would not be noticed.",
     ["acceptor.go", "auth/wampcra.go", "auth/cryptosign.go"],
     [("authenticator call and signature check dominate WELCOME", "acceptor.go ReceiveMessage")], None, ["WELCOME"])
prop("C20", "A signature only answers the challenge it was made for",
     "A wampcra or cryptosign session is welcomed only if the signature covers the very challenge this acceptor issued for this handshake: a signature over any other challenge, for example one captured earlier, is rejected.",
     ["inputs", "histories"], "every signature, including validly signed other challenges",
     "Tests only sign the challenge they were given.",
     ["acceptor.go", "auth/cryptosign.go", "auth/wampcra.go"],
     [("issued challenge is kept and compared", "acceptor.go ReceiveMessage (AUTHENTICATE)")],
     [("issued challenge", "challenge sent in CHALLENGE", "acceptor.go Acceptor")], ["WELCOME or ABORT"])
prop("C21", "The acceptor follows the handshake order and stops after the outcome",
     "HELLO is answered only as long as nothing has been sent yet, and AUTHENTICATE only after a CHALLENGE was issued for the same handshake; every other message or order returns an error without sending anything. "
     "Once WELCOME or ABORT has been sent, every further message is refused with an error, so a failed authentication cannot be retried on the same acceptor. An ABORT gives wamp.error.authentication_failed as its reason.",
     H, "every sequence of messages of every type",
     "Tests only play the correct order and never send anything after ABORT.",
     ["acceptor.go"], [("handshake state checked before and advanced after each message", "acceptor.go ReceiveMessage")],
     [("handshake state", "none, challenge sent, finished", "acceptor.go Acceptor")], ["return values of Acceptor.Receive and ReceiveMessage"])
prop("C22", "WELCOME and session details describe the authenticated session",
     "The realm announced in WELCOME is the one from HELLO, authid and authrole are those the authenticator granted, authmethod is the method that was carried out, and the acceptor's session details have the same session id and values; after a challenge their authextra is what AUTHENTICATE carried. "
     "Session details are available only after WELCOME was produced, and the byte-level interface reports welcomed exactly then.",
     HI, "every handshake, method and authenticator response",
     "Tests only check that details are non-empty.",
     ["acceptor.go", "types.go"], [("WELCOME and details built from one set of values", "acceptor.go sendWelcome, Receive")], None, ["WELCOME details, SessionDetails()"])
prop("C23", "The joiner accepts only the expected handshake messages",
     "The client side accepts CHALLENGE only as the first reply to its HELLO, answers it with what its authenticator produces (an authenticator error is returned and nothing sent), and accepts WELCOME only after HELLO or AUTHENTICATE was sent; ABORT and everything else is an error. "
     "Session details are available only after WELCOME and contain its session id, authid, authrole, authmethod and roles, with the realm that was requested.",
     HI, "every sequence of router messages",
     "Tests only play the correct order.",
     ["joiner.go"], [("state checks in ReceiveMessage", "joiner.go ReceiveMessage, SendHello")],
     [("joiner state", "none, hello sent, authenticate sent, joined", "joiner.go Joiner")], ["Joiner.Receive, ReceiveMessage, SessionDetails"])
prop("C24", "Only an authentication method both sides offer is ever used",
     "The method selected for a HELLO is one the server enabled and is the first such method in the client's order of preference; a HELLO naming no methods counts as proposing anonymous. "
     "If no proposed method is enabled the selection fails and the client gets ABORT.",
     I, "every list of enabled and proposed methods",
     "Tests try three lists, all with anonymous enabled on the server.",
     ["auth/helpers.go", "acceptor.go"], [("first proposed method contained in the allowed list", "auth/helpers.go SelectAuthMethod")], None, ["SelectAuthMethod, CHALLENGE/ABORT"])
prop("C25", "Authentication challenges are unpredictable",
     "Each cryptosign challenge is 32 bytes and each wampcra nonce at least 16 bytes taken freshly and entirely from the cryptographic random source; when that source fails an error is returned instead of a challenge. "
     "The wampcra challenge text contains that nonce together with the authid, authrole, method and session id it is issued for. A generated key pair is made of 32 random bytes and the public key that belongs to them.",
     ["inputs", "fault_sequences"], "every generated challenge and every failure of the random source",
     "Randomness cannot be established from samples; tests only check lengths and presence.",
     ["auth/cryptosign.go", "auth/wampcra.go"], [("crypto/rand read with its error checked", "auth/cryptosign.go GenerateCryptoSignChallenge, auth/wampcra.go makeNonce")], None, ["CHALLENGE extra"])
prop("C26", "Both sides compute and check credentials the same way",
     "A wampcra signature is accepted exactly when it is the base64 of HMAC-SHA256 over the challenge under the key, compared in constant time over all its bytes; client and server derive the same key from secret, salt, iterations and key length. "
     "A cryptosign signature is accepted only when it is 96 bytes and opens under the complete 32-byte public key; malformed input is rejected, and what the client produces for a challenge is its ed25519 signature followed by that challenge. A cryptosign client announces the public key of its private key and is not made with another one, nor with one that is no text. AUTHENTICATE carries the authextra of the client, and the default iterations and key length are used only where the challenge names no positive number; what a client answers to one challenge does not depend on the challenges before.",
     I, "every key, challenge, salt parameter and signature",
     "Tests check one key pair; truncated comparisons or wrong-length keys behave the same on it.",
     ["auth/wampcra.go", "auth/cryptosign.go", "acceptor.go"],
     [("sign and verify share the MAC function", "auth/wampcra.go"), ("nacl/sign open over a 96 byte message", "auth/cryptosign.go")], None, ["Verify*/Sign* functions, AUTHENTICATE"])

# ---------------------------------------------------------------- wire
prop("C27", "Every message has the wire layout WAMP defines",
     "Each of the 24 supported messages is encoded as a list whose first element is its WAMP type code and whose further elements are the fields WAMP defines, in that order. "
     "Positional arguments, when present, precede keyword arguments, and when there are keyword arguments but no positional ones an empty list holds their place.",
     I, "every field value of every message type, with every combination of present and absent arguments",
     "The interoperability tests need an external tool and are not run; the others cover a single message type.",
     ["messages"], [("Marshal of each message", "messages/*.go")], None, ["Message.Marshal, Serializer.Serialize"])
prop("C28", "Decoding a message restores exactly what was encoded",
     "For every message type each field that is decoded comes from the position at which that field is encoded, so a message that was encoded and decoded again has the same type and the same field values, whatever the message it is decoded into said before. "
     "Building a message with absent (nil) option, detail, extra or argument maps still gives a message that its own decoder accepts, and a message made from a set of fields reports those fields; no message constructor panics, whatever is absent.",
     I, "every message of every type",
     "Only ABORT with empty collections is round-tripped by a test.",
     ["messages", "serializers/helpers.go"], [("Parse and Marshal use matching positions", "messages/*.go"), ("constructors replace nil maps", "messages/*.go")], None, ["Serializer.Deserialize(Serialize(m))"])
prop("C29", "Malformed messages are rejected with an error",
     "A decoded list becomes a message only if its length is within what WAMP defines for that type and every element has the type WAMP defines for its position (identifier, string, dictionary or list); otherwise an error is returned and no message. "
     "An empty list or an unknown type code is rejected. Decoding leaves the list it was given as it was.",
     I, "every decoded list, of every length and element types",
     "Validator tests call single validators with a few wrong values; no test checks a message's own rules.",
     ["messages/validator.go", "messages", "serializers/helpers.go"], [("ValidateMessage driven by each message's specification", "messages/validator.go"), ("type dispatch", "serializers/helpers.go ToMessage")], None, ["Serializer.Deserialize errors"])
prop("C30", "Nothing a peer sends can crash decoding",
     "Decoding any byte string as a message or payload with any of the serializers, or decoding any transport handshake or header bytes, returns a value or an error and never panics.",
     I, "every byte string",
     "Tests decode well-formed input only.",
     ["serializers", "messages", "transports/rawsocket.go", "util/util.go"],
     [("length and type checks before every index and assertion", "serializers/helpers.go, messages/validator.go, serializers/cbor.go, transports/rawsocket.go")], None, ["panics"])
prop("C31", "No peer message can crash a handshake, a session or the router",
     "Whatever well-formed messages a peer sends, in whatever order, the acceptor, joiner, client session, broker and dealer answer, return an error or accept them, but never panic; this includes challenges, welcomes and signatures with missing or odd fields.",
     HI, "every message of every type in every state",
     "Tests send complete, expected messages only.",
     ["acceptor.go", "joiner.go", "session.go", "broker.go", "dealer.go", "auth"],
     [("checked lookups and assertions", "acceptor.go, joiner.go, session.go, broker.go, dealer.go, auth/*.go")], None, ["panics"])
prop("C32", "All serializers treat messages alike",
     "The JSON, CBOR and MessagePack serializers each encode exactly the message's list form with their own format's codec and decode exactly the given bytes with the same codec into a list that is validated as a message; each reports codec and validation errors. "
     "Each type code decodes to that message type and no other. None of them, as they encode only positional and keyword arguments, reports itself as static.",
     I, "every message and byte string",
     "Tests round-trip one ABORT message.",
     ["serializers"], [("Serialize/Deserialize of each serializer", "serializers/{json,cbor,msgpack}.go"), ("ToMessage", "serializers/helpers.go")], None, ["Serializer"])
prop("C33", "Payload encoding and decoding agree",
     "For every payload serializer id, encoding arguments and decoding the bytes with the same id yields the same positional and keyword arguments: both sides use the same codec for the same id, put positional before keyword arguments, and treat empty payloads as no arguments. "
     "No arguments at all are a valid payload for every id. Unknown ids, malformed payloads and raw payloads that are not a single byte string are refused with an error, and the ids agree with those used in the transport handshake.",
     I, "every serializer id, argument list and dictionary",
     "No test touches payload encoding.",
     ["serializers/payload.go", "serializers/cbor.go", "transports/rawsocket.go"], [("SerializePayload/DeserializePayload tables", "serializers/payload.go")], None, ["SerializePayload, DeserializePayload"])
prop("C34", "Raw socket frames decode to what was encoded",
     "Decoding an encoded message header yields the same kind and length for every length below 2^24, and decoding an encoded handshake yields the same serializer and maximum message size. "
     "Handshakes with sizes that are not a power of two between 512 bytes and 16 megabytes are refused when encoding, and byte sequences with the wrong length, a wrong magic byte or nonzero reserved bytes are refused when decoding.",
     I, "every length, kind, size and byte sequence",
     "The transports package has no tests.",
     ["transports/rawsocket.go"], [("byte packing and unpacking", "transports/rawsocket.go")], None, ["SendMessageHeader/ReceiveMessageHeader, SendHandshake/ReceiveHandshake"])
prop("C35", "Identifiers survive every codec's choice of number type",
     "An identifier is accepted whichever Go integer or floating point type a codec decoded it to, with the same numeric value, and is rejected when it is not a number, is a negative integer, or is a floating point number that is negative, too large for an identifier, or NaN.",
     I, "every numeric type and value",
     "Tests list some types and miss others; negative values are not tried.",
     ["util/util.go"], [("type switch in the conversion helper", "util/util.go AsUInt64")], None, ["util.AsUInt64, decoded ids"])

prop("C46", "Loosely typed values are read as themselves or refused",
     "Reading a decoded value as an integer or a floating point number accepts every Go integer and floating point type and gives the same number, with the fraction cut off for integers; numbers outside the range of an int, NaN, and values that are no numbers are refused with zero rather than wrapped around. "
     "Reading a value as a boolean or a string gives exactly the boolean or string it holds, and otherwise false or the empty string and a refusal where one can be reported.",
     I, "every dynamic type and value",
     "Tests try one small value per type, miss int16, and never try the limits of int.",
     ["util/util.go"], [("type switches in the conversion helpers", "util/util.go AsInt, AsFloat64, AsBool, ToBool, AsString, ToString")], None, ["util conversions", "iterations and keylen of a CRA challenge", "match and invoke options"])

prop("C47", "Protocol constants have the values WAMP assigns",
     "Message type codes, error and close URIs, option and feature names, authentication method names, serializer ids and rawsocket magic and limits that the library exports have exactly the values the WAMP specification assigns, and every wamp.error or wamp.close URI the library itself sends is one of the specification's.",
     ["inputs"], "every exported protocol constant and every URI literal in the code",
     "Tests compare the library with itself through its own constants; a wrong value is consistent on both sides and shows only against another implementation.",
     ["uris.go", "broker.go", "dealer.go", "messages", "auth", "serializers", "transports"], [("constants and literals", "uris.go, messages/*.go MessageType*, auth/*.go Method*, transports/rawsocket.go")], None, ["bytes on the wire"])
prop("C48", "The typed concurrent map behaves as a map",
     "The typed map that client sessions keep their requests in behaves as a map from keys to values: after Store a Load of the key gives the stored value, after Delete or LoadAndDelete none; LoadAndDelete and Load report the value there was, LoadOrStore the one that is there afterwards and whether it was there before; other keys keep their values; Range visits only entries of the map and goes on exactly while the function says so. "
     "Each operation takes effect in one step, so concurrent users never both see themselves remove or insert the same entry.",
     ["histories", "schedules"], "every operation from every content of the map, every schedule",
     "The tests make one use of each operation on one key from one goroutine.",
     ["internal/map.go"], [("one sync.Map operation per method", "internal/map.go Map")], [("m", "the entries", "internal/map.go Map")], ["(value, ok) results of the operations"])
prop("C49", "Timestamps denote the instant with its UTC offset",
     "The ISO 8601 text of a time, as used in CRA challenges and session details, parses back to the same second with the same UTC offset, for offsets east and west and such that are no whole hours, and UTC itself is written as Z; the current timestamp is that of the present moment, and so is the creation time of a session that was just made.",
     I, "every time and every UTC offset of whole minutes",
     "The test tries UTC and two offsets.",
     ["auth/iso8601.go"], [("format and offset arithmetic", "auth/iso8601.go ISO8601, NowISO8601")], None, ["timestamp of a CRA challenge", "SessionDetails.CreatedAt"])
prop("C50", "Auth requests, responses and session details report what they were built with",
     "What is passed to the constructors of session details, authentication requests, authentication responses and client authenticators is what their accessors report, each value under its own name: ids, realm, authid, authrole, authmethod, extra, secret, salt, iterations, key length, ticket, public key and time to live. Requests carry realm, authid and extra of the HELLO they are made from and the method they are made for.",
     I, "every constructor argument",
     "Tests use equal or empty values for several arguments and do not look at all accessors.",
     ["types.go", "auth"], [("constructors and accessors", "types.go NewSessionDetails, auth/authenticator.go, auth/*.go New*Authenticator")], None, ["accessors of Request, Response, SessionDetails, ClientAuthenticator"])
prop("C51", "A client session and the serializers can be shared by goroutines",
     "Several goroutines may send and receive on one client session and use one serializer at the same time: neither keeps shared mutable state outside concurrent maps or locks, no function changes package-level state without a lock, and a reply is accepted for its request at most once even if several replies are received at the same moment. Encoded bytes handed out are not overwritten by later calls.",
     ["schedules", "histories"], "every interleaving of the methods of a session and of a serializer",
     "Tests are single-threaded.",
     ["session.go", "internal/map.go", "serializers"], [("concurrent maps with atomic test-and-remove", "session.go ReceiveMessage"), ("stateless serializers", "serializers/*.go")], [("request tables", "open requests and active ids", "session.go Session")], ["results of ReceiveMessage, Serialize"])

prop("C52", "A client session forgets what is done with",
     "A client session keeps nothing for a request after its final answer was received, nothing for an invocation after the final result or error was sent, and nothing at all for a publication that is not to be acknowledged, so that its memory does not grow with the number of finished requests.",
     H, "every history of requests and answers",
     "Forgotten entries are invisible to the tests, which look at results only.",
     ["session.go"], [("entries made on send or receive are removed on the final answer", "session.go SendMessage, ReceiveMessage")], [("request tables", "open requests by id", "session.go Session")], ["memory kept by Session"])

prop("C53", "Subscribing and registering are answered to the requester, naming the request",
     "A session that is attached gets exactly one answer to SUBSCRIBE and UNSUBSCRIBE, REGISTER and UNREGISTER, addressed to itself and carrying the id of the request. SUBSCRIBED and REGISTERED carry the id of the subscription or registration that was joined, the one later EVENTs and INVOCATIONs carry; an UNSUBSCRIBE or UNREGISTER of something the session holds always succeeds. Requests that are refused with an error change nothing, and message types that are not for the broker or dealer are always refused.",
     HI, "every request in every state of broker and dealer",
     "Tests look at the answers to a few requests with ids that are often equal to each other.",
     ["broker.go", "dealer.go"], [("the answers built in ReceiveMessage", "broker.go, dealer.go ReceiveMessage")], [("subscriptions and registrations of a session", "lists per session id", "broker.go subscriptionsBySession, dealer.go registrationsBySession")], ["messages returned by ReceiveMessage"])

# ---------------------------------------------------------------- session
prop("C36", "A client session accepts a reply only for its own open request, once",
     "RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED and ERROR are accepted only if this session sent a request of the corresponding kind with that request id that has not been finally answered; otherwise an error is returned. "
     "Every accepted reply other than a progressive RESULT closes the request, so a second reply is refused.",
     HI, "every sequence of sent requests and received replies, with any ids",
     "Tests never send a second or an unsolicited reply.",
     ["session.go"], [("request tables per request kind", "session.go SendMessage, ReceiveMessage")],
     [("open requests", "sent and not finally answered", "session.go Session")], ["Session.ReceiveMessage"])
prop("C37", "A client session accepts events and invocations only while subscribed",
     "An EVENT is accepted only for a subscription id this session received in SUBSCRIBED and has not since unsubscribed, and an INVOCATION only for a registration id it received in REGISTERED and has not since unregistered. "
     "An unsubscribe or unregister takes effect when the router confirms it and concerns exactly the id that was named in that request.",
     H, "every history of subscribes, registers and their reversals",
     "Tests receive one event and one invocation on live ids.",
     ["session.go"], [("active subscription and registration tables", "session.go ReceiveMessage")], None, ["Session.ReceiveMessage(EVENT, INVOCATION)"])
prop("C38", "A message that could not be sent leaves no trace in the session",
     "SendMessage either returns the encoded message and records what the reply will need, or returns an error and changes nothing; it refuses message types a client must not send, errors that do not answer an invocation, and unsubscribing something not subscribed. "
     "A received message that is refused activates no subscription, registration or invocation.",
     ["inputs", "fault_sequences"], "every message, every state and every encoding failure",
     "Tests never make a send fail.",
     ["session.go"], [("encoding and checks precede recording", "session.go SendMessage")], None, ["Session.SendMessage, ReceiveMessage"])

# ---------------------------------------------------------------- ids, concurrency
prop("C39", "Session-scope ids count from 1 to 2^53 and never repeat before that",
     "Each id a generator returns is one more than the previous one, starting at 1; after 2^53 the next is 1, so 0 and values above 2^53 are never returned and concurrent callers never get the same id.",
     ["histories", "schedules"], "every number of calls from any number of goroutines",
     "The test takes nine ids from one goroutine and cannot reach the wrap-around.",
     ["idgen.go"], [("increment and wrap under a lock", "idgen.go NextID")], [("last id", "last id returned", "idgen.go SessionScopeIDGenerator")], ["NextID"])
prop("C40", "Session ids are random in WAMP's id range and differ between runs",
     "Every generated global-scope id lies between 1 and 2^53, and the generator is seeded differently on every start of the process, so the sequence of session ids is not the same from run to run.",
     ["inputs", "histories"], "every generated id, every process start",
     "The tests compare two ids of one run.",
     ["idgen.go"], [("seeding at start and range of the draw", "idgen.go init, GenerateID")], None, ["GenerateID, WELCOME session id"])
prop("C41", "Broker, dealer and id generator are safe for concurrent use",
     "Any number of goroutines may call the methods of one broker, dealer or id generator at the same time: all access to their shared state happens while holding that object's lock, the lock is released on every way out, and no method acquires it twice or in an order that can deadlock.",
     ["schedules"], "every interleaving of every exported method",
     "Tests are single-threaded and run without the race detector.",
     ["broker.go", "dealer.go", "idgen.go"], [("lock taken on entry and released by defer", "broker.go, dealer.go, idgen.go")], [("mutex", "protects all state of the object", "broker.go Broker, dealer.go Dealer, idgen.go SessionScopeIDGenerator")], ["data races, deadlocks"])
prop("C42", "Messages and results handed out are not shared with later operations",
     "Nothing the broker or dealer returns refers to their internal tables, and the detail dictionaries of different events, invocations and results are distinct objects; no operation changes a message after it was constructed or the global role announcements. "
     "Apart from those announcements, what constructors, routers and handshakes hand out is their own: two brokers, dealers, sessions, session details or messages share no table, dictionary or generator. "
     "A caller can therefore keep, encode or modify what it got without synchronising with the router.",
     ["schedules", "histories"], "every returned message and every later operation",
     "Sharing shows only under concurrent use or when a result is kept across operations.",
     ["broker.go", "dealer.go", "messages", "acceptor.go", "joiner.go"], [("fresh maps and slices per message; fields only written by constructors and Parse", "broker.go, dealer.go, messages/*.go")], None, ["Publication, MessageWithRecipient"])
prop("C43", "Every advertised feature is implemented",
     "A feature that the router announces in WELCOME, or the client announces in HELLO, is honoured by the side that announces it: call cancelling means CANCEL is processed by the dealer and INTERRUPT is accepted by the session, publisher exclusion means the publisher is left out of the recipients unless it asked otherwise, and progressive features are honoured for calls and results.",
     ["inputs", "configurations"], "every advertised feature",
     "Tests look at features one by one and only at implemented ones.",
     ["acceptor.go", "joiner.go", "dealer.go", "broker.go", "session.go"], [("role announcements and message handlers", "acceptor.go RouterRoles, joiner.go ClientRoles")], None, ["WELCOME/HELLO roles"])
prop("C44", "Random callee selection is statistically fair",
     "Under policy random each current callee is chosen with equal probability, independently of earlier choices.",
     H, "every long history of calls",
     "Ten calls cannot establish a distribution.",
     ["dealer.go"], [("uniform draw", "dealer.go ReceiveMessage (CALL)")], None, ["INVOCATION recipients"])
prop("C45", "Encoded bytes interoperate with other WAMP implementations",
     "The exact bytes produced for a message by each serializer are accepted by other conforming WAMP implementations and vice versa, including numbers at the limits of each format and non-UTF-8 strings.",
     I, "every message and every peer implementation",
     "The interoperability tests need an external tool that is not available.",
     ["serializers"], [("third-party codecs", "serializers/{json,cbor,msgpack}.go")], None, ["bytes on the wire"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
