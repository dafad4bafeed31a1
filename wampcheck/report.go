package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var rules = []rule{
	{"C01", ruleC01, "Disjunctive dataflow over SSA: the recipient list on every way through publish is traced to the member set; paired-update rule on members",
		"On every way through ReceivePublish the recipients are a complete copy of the member set of the matched entry; SUBSCRIBE adds the sender to that set, UNSUBSCRIBE and RemoveSession take it out, nothing else writes it."},
	{"C02", ruleC02, "Paired-update rule over SSA paths: members and the four indexes change together",
		"On every way through SUBSCRIBE, UNSUBSCRIBE and RemoveSession the entry is in all indexes its match policy calls for as long as its member set is not empty, and in none once it is empty; HasSubscription reads that index."},
	{"C03", ruleC03, "Decision-table check of every way through publish against the documented matching order",
		"Every way through ReceivePublish is compared with the table exact, longest prefix, wildcard; the wildcard matcher is checked segment by segment."},
	{"C04", ruleC04, "Dataflow over SSA paths: origin of every field of EVENT and PUBLISHED",
		"On every way through ReceivePublish the acknowledgement follows the acknowledge option, both ids are one generated id, and the payload is the publisher's."},
	{"C05", ruleC05, "Information-flow over SSA paths into message details",
		"Identity fields of EVENT and INVOCATION details are written exactly on the ways where disclosure is enabled, with the values of the sender's session details."},
	{"C06", ruleC06, "Effect analysis on the refused ways through every router entry point",
		"For every request type, the ways on which the sender is not attached return an error and no message and change no shared location."},
	{"C07", ruleC07, "Decision-table check of every way through REGISTER",
		"A second callee is accepted only on ways where the registration's policy is shared and named again; new registrations get the requested policy; single and unnamed policies stay exclusive."},
	{"C08", ruleC08, "Paired-update rule over SSA paths and origin of the invocation recipient",
		"UNREGISTER and RemoveSession take the session out of members and callee order of exactly its registrations; the recipient of every INVOCATION comes from these."},
	{"C09", ruleC09, "Paired-update rule over SSA paths: members and the four indexes change together",
		"On every way through REGISTER, UNREGISTER and RemoveSession the registration is in all indexes its match policy calls for as long as it has a callee and in none afterwards; HasProcedure reads that index."},
	{"C10", ruleC10, "Decision-table check of every way through CALL against the documented matching order",
		"Every way through CALL is compared with the table exact, longest prefix, wildcard, no_such_procedure."},
	{"C11", ruleC11, "Decision-table check of the callee chosen on every way through CALL; order rule on the callee list",
		"The recipient is the first, last, next in turn or a random element of the callee list as the policy says; the list keeps registration order without duplicates."},
	{"C12", ruleC12, "Dataflow over SSA paths from CALL record to RESULT and ERROR",
		"What CALL records about an invocation is its request; the answer's recipient, request id and payload come from that record and from the callee's message."},
	{"C13", ruleC13, "Typestate over SSA paths: open invocation",
		"YIELD and ERROR are accepted only for an open invocation, which a final answer closes; progress marks follow the option and the caller's wish."},
	{"C14", ruleC14, "Dataflow over SSA paths: id and recipient of continued calls",
		"On every way through CALL an open progressive call keeps invocation id and callee, everything else gets a new id."},
	{"C15", ruleC15, "Release analysis over SSA paths (paired insert and delete)",
		"Every way on which an invocation ends, or a session leaves, deletes both records of the call; failed calls record nothing."},
	{"C16", ruleC16, "Guard analysis over SSA paths",
		"Every way on which an answer is accepted has compared the sender with the invoked callee."},
	{"C17", ruleC17, "Dataflow over SSA paths: opaque payload bytes",
		"On every way that forwards a message the opaque payload is handed on unchanged to peers with a static serializer and as arguments to others; every message type reports its own payload."},
	{"C18", ruleC18, "Decision-table check of every way through SUBSCRIBE and REGISTER",
		"The match policy of a new entry is the one named; a request is joined only to an entry with the same policy."},
	{"C19", ruleC19, "Typestate over all message histories of an acceptor, with dataflow of the approved request and the checked proof",
		"Every way to WELCOME in every history of messages passes a successful call of the authenticator whose request has realm, authid and authextra of that HELLO and the selected method, and the proof the method requires (ticket in the request, HMAC comparison under the approved secret, ed25519 verification under the approved key)."},
	{"C20", ruleC20, "Dataflow from the issued challenge to the signature check over all histories of an acceptor",
		"On every way to WELCOME for wampcra and cryptosign the value that was authenticated is the challenge in the CHALLENGE sent for that HELLO."},
	{"C21", ruleC21, "Typestate: exploration of all histories of an acceptor by abstract interpretation",
		"In every history, HELLO is answered only first, AUTHENTICATE only directly after CHALLENGE, nothing after WELCOME or ABORT, and an error never comes with a message."},
	{"C22", ruleC22, "Dataflow into WELCOME and session details over all histories of an acceptor",
		"In every history, realm, authid, authrole, authmethod, roles and session id of WELCOME and of the session details have their origin in HELLO, the approval and the selected method; details are available exactly after WELCOME; the byte interface returns the encoding of the answer and reports welcomed exactly for WELCOME."},
	{"C23", ruleC23, "Typestate over all histories of a joiner, with dataflow of answers and session details",
		"In every history CHALLENGE is accepted only right after HELLO and answered with the authenticator's result, WELCOME only after HELLO or AUTHENTICATE, nothing else; details come from that WELCOME and the requested realm; the byte interface returns the encoding of the answer."},
	{"C24", ruleC24, "Loop-summary check of the selection function and dataflow of its arguments and result in all histories",
		"SelectAuthMethod returns the first proposed element that is contained in the enabled ones (loop invariant: all passed elements are not contained), anonymous for none, and an error otherwise; the acceptor calls it with its authenticator's and that HELLO's methods, carries out the result and aborts on failure."},
	{"C25", ruleC25, "Taint analysis: origin of challenge bytes in the cryptographic random source",
		"In every history and in the exported generators, the challenge is made of bytes filled completely by the cryptographic source within that step and with its error checked; the wampcra text is JSON with that nonce and the identity it is issued for."},
	{"C26", ruleC26, "Symbolic value comparison: computed credentials against their defining expressions",
		"The value terms that the sign, derive and verify functions and the client authenticators compute equal the defining expressions (HMAC-SHA256, PBKDF2, ed25519), on every path, with constant-time comparison and length guards."},
	{"C27", ruleC27, "Decision-table check of the encoded list on every way through Marshal of every message type",
		"For each of the 24 message types every way through Marshal is compared with WAMP's table: type code, fields in order, positional before keyword arguments."},
	{"C28", ruleC28, "Composition of constructor, Marshal and Parse over value terms",
		"For each constructor the terms that come out of the accessors after Marshal, a model of what codecs do to values, and Parse are the terms the constructor got, on every path; the nil cases are separate paths."},
	{"C29", ruleC29, "Guard analysis of every accepting way through Parse of every message type",
		"Every way on which Parse accepts a list has established WAMP's length bounds and the type of every element; every way on which ToMessage accepts has found a known type code."},
	{"C30", ruleC30, "Abstract interpretation of all decoding code: every panic condition is an obligation to be discharged",
		"Every index, slice bound, type assertion, division, shift, map write, dereference and allocation size in the code reachable from Deserialize, Parse, the payload decoders, the raw socket decoders and the conversions is shown to be safe on every path, for any input."},
	{"C31", ruleC31, "Abstract interpretation of all message handlers and handshake histories: every panic condition is an obligation to be discharged",
		"Every index, slice bound, type assertion, division, map write, dereference, allocation size and length precondition of a library call in the code reachable from the receive functions of acceptor, joiner, session, broker and dealer (and the authenticators) is shown to be safe on every path and in every history."},
	{"C32", ruleC32, "Dataflow from bytes to message and back through every serializer",
		"On every way through Serialize and Deserialize the one codec of that format gets exactly the message's list or the given bytes, errors are passed on, and the message returned has the type of the code and was parsed from the decoded list."},
	{"C33", ruleC33, "Composition of payload encoder and decoder over value terms; guard analysis of the decoders",
		"For every payload serializer id the terms that come out of the decoder applied to what the encoder returned are the arguments, on every path, and both sides use the codec of that id; decoders accept nothing but an empty payload or one or two elements of the right types."},
	{"C35", ruleC35, "Path analysis of the number conversions by dynamic type",
		"Every function that reads identifiers accepts each of the 12 Go number types on every way unless the number is negative (or a float out of range), converts without narrowing, knows an accepted float to be within the range of the conversion, and accepts nothing else."},
	{"C46", ruleC46, "Path analysis of the conversions of loosely typed values by dynamic type",
		"Each conversion accepts each Go number type on every way, unless the value is known to be beyond the result's range, and keeps its value; a float is known to be in range before it is converted to an integer; booleans and strings are the value itself; everything else is refused with the zero value."},
	{"C47", ruleC47, "Constant evaluation over the type-checked packages; scan of the string constants in all functions",
		"Every exported constant of the protocol that the packages declare is compared with the value the protocol assigns; every wamp.error and wamp.close URI in the code is one of the protocol's."},
	{"C48", ruleC48, "Algebraic specification checked by composing abstract interpretations of the methods",
		"From any state of the map, each operation is followed by loads of the same and of another key, on every path: results and later loads are those of a map from keys to values."},
	{"C49", ruleC49, "Constant propagation through the formatting code for every offset from UTC in minutes",
		"For each of the 1681 offsets from -14 to +14 hours the text is evaluated from the term the function returns and must denote the instant with that offset."},
	{"C50", ruleC50, "Dataflow from constructor parameters to accessors",
		"For each constructor of session details, authentication requests, responses and client authenticators, on every path, the term each accessor gives is the parameter it stands for."},
	{"C51", ruleC51, "Lockset analysis, and typestate over the operations on concurrent maps on every path",
		"On every path of every exported method of the client session and the serializers, for every kind of message, no memory that is reached from the receiver or a package variable is written without a lock, no entry of a concurrent map is looked at and then changed in a second step, no single-goroutine object is shared; no function outside init changes package state without a lock."},
	{"C52", ruleC52, "Two-step induction over requests and their answers with map update logs",
		"Every map entry that sending a request or receiving an invocation adds to a session, in an arbitrary state, is gone on every way the answer, refusal or final result of that request id is taken or given; a PUBLISH that is not acknowledged adds none."},
	{"C53", ruleC53, "Path-sensitive dataflow of request id, record id and sender into the answer; feasibility of refusing ways",
		"All ways SUBSCRIBE, UNSUBSCRIBE, REGISTER and UNREGISTER are answered, for arbitrary states and messages: the answer goes to the sender, carries the request's id and the record's id; no refusing way is possible for a session that is attached (and holds what it gives up), and refusing ways change nothing."},
	{"C34", ruleC34, "Bit-level dataflow and constant propagation through encoder and decoder; guard analysis of accepting ways",
		"The bits of kind and length that come out of the header decoder are those that went into the encoder, for every length below 2^24; each of the 256 pairs of size and serializer survives encoding and decoding; accepting ways know the size to be a power of two in range, the input length, magic and reserved bytes."},
	{"C39", ruleC39, "Inductive range and difference analysis of the counter; lock-set analysis",
		"From a new generator the first id is 1; from any state that holds ids, the id after r is r+1, and 1 after 2^53, on every path; the state stays in range; all of it happens in one critical section or one atomic step."},
	{"C40", ruleC40, "Range analysis of the draw; taint analysis from entropy to the generator's seed",
		"On every path the id is drawn from a random source with a range within 1 to 2^53; the source's seed, on every way through the package initialisers, has its origin in the clock with sub-second resolution or in the cryptographic source, and nothing seeds it otherwise."},
	{"C41", ruleC41, "Lock-set and lock-order analysis over all paths of the exported methods",
		"Every access to state that any exported method of broker, dealer or id generator may change is made with one common lock held (exclusively for writes) and in one critical section; no path returns with a lock held, takes a lock again or takes locks in a cyclic order."},
	{"C36", ruleC36, "inductive step check by path-sensitive abstract interpretation of SendMessage, ReceiveMessage and Receive",
		"All messages, all states: a request is open when its ERROR is accepted; each operation from an arbitrary state is followed by each reply, and openness must change by sending the request and by its final reply only."},
	{"C37", ruleC37, "inductive step check by path-sensitive abstract interpretation of SendMessage and ReceiveMessage",
		"All messages, all states: a subscription or registration is active when its EVENT or INVOCATION is accepted; each operation from an arbitrary state must change that only by a confirmation, and a confirmation of the end must end exactly what the request named."},
	{"C38", ruleC38, "effect analysis by path-sensitive abstract interpretation of SendMessage and ReceiveMessage",
		"All messages, all states, every failure of the serializer: the session's memory is compared before and after every failing way; what is returned, recorded and refused on the others is judged."},
	{"C42", ruleC42, "escape and mutation analysis by path-sensitive abstract interpretation, with a syntactic check of all stores",
		"For every way through every method of broker and dealer, everything reachable from the results is classified as made on that path, taken from the message, or part of internal or global state, and compared with what is kept; every method of every message, the serializers, the session and the handshake are checked for writes to messages and to the role announcements."},
	{"C43", ruleC43, "abstract interpretation: announced role dictionaries against the handlers of the messages each feature needs",
		"The role dictionaries are read from every WELCOME and HELLO that can be sent; for every feature that is switched on in them the handlers of broker, dealer and session are analysed for what the feature needs; unknown features are refused."},
}

// known reads the findings that are recorded as known: lines "known: property=<id> key=<rule@function> <what fails>".
func known(verif, prop string) map[string]string {
	r := map[string]string{}
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 4 || fs[1] != "property="+prop || !strings.HasPrefix(fs[2], "key=") {
			continue
		}
		r[strings.TrimPrefix(fs[2], "key=")] = strings.Join(fs[3:], " ")
	}
	return r
}

// report prints what a check found and writes its evidence; true if there is a violation.
func report(c *Check, r rule, repo, verif, tier string, took time.Duration) bool {
	kn := known(verif, r.id)
	var bad, old []Finding
	for _, f := range c.finds {
		if _, ok := kn[f.key()]; ok {
			old = append(old, f)
		} else {
			bad = append(bad, f)
		}
	}
	var knowns []string
	printed := map[string]bool{}
	for _, f := range old {
		if !printed[f.key()] {
			printed[f.key()] = true
			l := fmt.Sprintf("%s (%s at %s)", kn[f.key()], f.key(), f.Pos)
			knowns = append(knowns, l)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, l)
		}
	}
	total := 0
	var names []string
	for n, k := range c.n {
		total += k
		names = append(names, n)
	}
	sort.Strings(names)
	fmt.Printf("%s: %d obligations in %d rules over %d paths of %d entry points, %d findings, %.1fs\n", r.id, total, len(c.n), c.paths, len(c.runs), len(bad), took.Seconds())
	var text strings.Builder
	fmt.Fprintf(&text, "property %s: %d findings\n", r.id, len(bad))
	var viol []string
	for i, f := range bad {
		l := fmt.Sprintf("%s %s: [%s] %s", f.Pos, f.Fn, f.Rule, f.Msg)
		if i < 25 {
			viol = append(viol, l)
		}
		fmt.Fprintf(&text, "\n%s\n", l)
		if f.Path != "" {
			fmt.Fprintf(&text, "    on the path where %s\n", f.Path)
		}
		if i == 12 {
			fmt.Printf("  … %d more\n", len(bad)-12)
		}
		if i >= 12 {
			continue
		}
		fmt.Println("  " + l)
		if f.Path != "" && os.Getenv("WAMPCHECK_PATHS") != "" {
			fmt.Printf("      on the path where %s\n", f.Path)
		}
	}
	if verif == "" {
		return len(bad) > 0
	}
	replay := filepath.Join(verif, "replay", r.id+".txt")
	if len(bad) > 0 {
		_ = os.MkdirAll(filepath.Dir(replay), 0o755)
		_ = os.WriteFile(replay, []byte(text.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	} else {
		_ = os.Remove(replay)
	}
	var entries []string
	fns := map[string]bool{}
	for n, run := range c.runs {
		entries = append(entries, n)
		for f := range run.e.fns {
			fns[fnShort(f)] = true
		}
	}
	for f := range c.fns {
		fns[f] = true
	}
	var funcs []string
	for f := range fns {
		funcs = append(funcs, f)
	}
	sort.Strings(entries)
	sort.Strings(funcs)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":        r.what + " Decided from the type-checked source and its SSA form on this run; nothing of the repository is executed.",
		"obligations":        total,
		"discharged":         total - len(c.finds),
		"obligationsPerRule": c.n,
		"paths":              c.paths,
		"entryPoints":        entries,
		"functionsAnalysed":  funcs,
	}
	if len(c.configs) > 0 {
		cov["configurations"] = c.configs
	}
	if len(knowns) > 0 {
		cov["knownFindings"] = knowns
	}
	if len(viol) > 0 {
		cov["findings"] = viol
	}
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": float64(int(took.Seconds()*1000)) / 1000, "violations": len(bad),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(verif, "evidence", r.id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write the evidence:", err)
		return true
	}
	return len(bad) > 0
}

var assumptions = []string{
	"the Go type checker and golang.org/x/tools/go/ssa represent the source faithfully",
	"functions of other modules and of the standard library behave as modelled in wampcheck/models.go; what is not modelled returns unknown values and changes what it is given",
	"values of interfaces the user supplies (messages, authenticators, connections) are stable between two calls of an accessor without arguments",
	"memory is not changed behind a held lock (the locking itself is decided by C41)",
}
