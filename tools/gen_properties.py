#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON well formed)."""
import json, os
S="manul/src/session/session.rs"; T="manul/src/session/transcript.rs"; M="manul/src/session/message.rs"
E="manul/src/session/echo.rs"; EV="manul/src/session/evidence.rs"; PM="manul/src/protocol/message.rs"
DR="manul/src/protocol/dyn_round.rs"; RI="manul/src/protocol/round_info.rs"; RID="manul/src/protocol/round_id.rs"
DE="manul/src/protocol/dyn_evidence.rs"; CH="manul/src/combinators/chain.rs"; UT="manul/src/utils/traits.rs"
SM="manul/src/utils/serializable_map.rs"; PE="manul/src/protocol/evidence.rs"; TK="manul/src/session/tokio.rs"; EX="manul/src/dev/extend.rs"
RS="manul/src/dev/run_sync.rs"; PR="manul/src/protocol/round.rs"; WF="manul/src/protocol/wire_format.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))

p("P01","Only authentic, on-time, first messages are handed over for processing",
 "A message received from a party is handed over for processing only if every one of its parts carries a valid signature of that party, all parts agree on the session and round, these are this session and the current round, the round expects messages from that party, the party is not banned, and no message from it was already taken for this round. The content handed over is exactly the content that was signed. A message meeting these conditions is handed over.",
 ["inputs","histories"],"every received message (any bytes, any combination of parts, metadata and signatures, any claimed sender) at every point of every round",
 "The tests feed messages produced by honest nodes plus a few fixed corruptions; the conditions must hold for every combination of corrupted part, wrong session, wrong round, wrong or repeated sender.",
 [S,M],[("preprocess_message",S),("CheckedMessage::into_verified, SignedMessagePart::into_verified",M),("Message::unify_metadata",M),("mark_processing",S)],
 [("processing","senders whose message for this round was taken",S)],["Session::preprocess_message result"])

p("P02","A bad message only ever costs its sender",
 "A received message that fails a check (signature, metadata, session, round, sender, duplicate) never aborts the session or fails the local call: it adds exactly one unattributable error, with no transferable evidence, against the claimed sender unless that sender is already banned, and changes nothing else. A message caused to be rejected because its sender is banned, or that is valid, adds no error.",
 ["inputs","histories"],"every received message, from any claimed sender, in every state of a round",
 "Robustness against arbitrary remote input is a statement over all inputs and states; tests sample three misbehaviours.",
 [S,M],[("preprocess_message",S),("register_unprovable_error",S),("MessageVerificationError",M)],
 [("unprovable_errors","errors without evidence, by sender",S)],["Session::preprocess_message result","SessionReport::unprovable_errors"])

p("P03","A reported offender stays banned for the rest of the session",
 "Once an error of either kind was registered against a party, no message from that party, including one cached earlier, is delivered for processing in this or any later round. Registered evidence is never dropped, overwritten or moved to another party and appears in the final report, and an unattributable error is at most replaced by a later one against the same party, and a banned party's missing message is what the round treats as not coming.",
 ["histories","inputs"],"every history of rounds, errors and messages, including messages cached before the ban",
 "Bans cross round boundaries and interact with caching and with the echo round; tests check the final report of single-offence runs only.",
 [S,T],[("is_banned",S),("Transcript::update",T),("apply_cached_messages",S),("preprocess_message",S)],
 [("provable_errors / unprovable_errors","the ban list",T)],["Session::preprocess_message","RoundOutcome::AnotherRound.cached_messages","SessionReport"])

p("P04","Early messages are kept and delivered exactly once in their round",
 "A validly signed message from a non-banned party for a round that this round declares as possibly simultaneous (and that is not the current one) is kept rather than rejected, at most one per sender and round. Every kept message whose sender is still not banned is delivered unchanged when, and only when, the session reaches that round (if that round expects it), however many rounds are in between, and is never delivered twice or lost.",
 ["schedules","histories"],"every interleaving of early messages with round transitions (including echo rounds and messages more than one round ahead)",
 "Needs a message overtaking a round boundary from a specific sender at a specific point; the test runner delivers messages in one pseudorandom order.",
 [S,RID],[("cache_message",S),("apply_cached_messages",S),("preprocess_message",S),("simultaneous_rounds",RID)],
 [("cached","messages for later rounds by sender and round",S)],["RoundOutcome::AnotherRound.cached_messages"])

p("P05","The readiness verdict of a round is right",
 "A round is reported ready exactly when every message it expects was received and accepted; otherwise it is reported as not ready yet exactly when some party it still misses may still contribute (it is not banned, or its message is being processed), and as never becoming ready in all other cases.",
 ["histories","configurations"],"every set of expected, received, processing and banned parties",
 "Depends on all subsets of parties being in each state; the tests only drive the all-received case and one ban.",
 [S],[("can_finalize",S),("can_still_respond",S)],[("expecting_messages_from / processed / processing","round bookkeeping",S)],["Session::can_finalize"])

p("P06","A session only moves along the protocol's declared rounds",
 "Finalizing a round leads only to the protocol's result or to a round which the finished round declared as a possible successor (or, if the round sends echo broadcasts to be checked, first to its echo round and from there to what the round itself would have led to); anything else is a local error. The payloads and artifacts accepted in the round reach the protocol's finalization exactly as accepted, keyed by sender and destination, with an interposed echo round changing nothing.",
 ["programs","histories"],"every protocol (any round graph, with or without echo broadcasts) and every set of accepted messages",
 "The tests run a handful of fixed protocols; the statement quantifies over protocols and message sets.",
 [S,E,RID],[("finalize_round",S),("EchoRound::new / finalize",E),("TransitionInfo::echo",RID)],[("transition_info","declared graph",S)],["Session::finalize_round","RoundOutcome"])

p("P07","Echo rounds expose every inconsistent broadcast",
 "An echo message is accepted only if it covers exactly the set of parties it must cover and each echoed digest is validly signed by the party it is attributed to, for this session and the echoed round, and is the digest of the very broadcast this party received from it. Consequently, if the echo round completes without an error between two honest parties, both received the same echo broadcast from every party, and an honest party's consistent broadcast is never reported.",
 ["inputs","schedules","fault_sequences"],"every content of every echo message and every set of (possibly equivocating) senders",
 "The tests contain three specific corruptions of an echo message; agreement must hold for all contents and partitions of receivers.",
 [E,M],[("EchoRound::receive_message",E),("VerifiedMessageHash::is_hash_of",M),("SignedMessageHash::into_verified",M)],[("echo_broadcasts","what was received",E)],["processing result of an echo-round message","SessionReport"])

p("P08","Blame goes to the party that misbehaved",
 "Every transferable piece of evidence is filed under the party it proves guilty: the sender of the invalid message, the party that echoed something invalid, or, for contradicting broadcasts, the original broadcaster and not the party that echoed. An error against a message is filed once under exactly one party, the first evidence against a party is kept, and an error for a message that carries no proof is filed as unattributable under its sender.",
 ["inputs","histories"],"every kind of message error from every sender, in every order",
 "Tests check one offence of each kind at a time from one fixed sender.",
 [S,E,EV],[("add_processed_message",S),("register_provable_error",S),("new_echo_round_error",EV)],[("provable_errors","evidence by guilty party",S)],["SessionReport::provable_errors","SessionReport::unprovable_errors"])

p("P09","Evidence a session produces stands on its own",
 "Every evidence object a session creates verifies successfully for any third party given only the object and the protocol's shared data, provided the protocol's own checks are deterministic and declare the earlier messages they need: it contains the offending message parts and every earlier message or broadcast which the protocol error declared as required, taken from the same party, and the echoed copies where requested.",
 ["inputs","programs"],"every protocol error with any set of declared required messages, and every session history",
 "The evidence format is exercised in tests for two protocols; the guarantee is for every declared requirement and history.",
 [EV,T,E],[("Evidence::new_provable_error",EV),("Transcript::get_* / get_other_echo_broadcasts",T),("Evidence::verify",EV)],[],["Evidence::verify(shared data) == Ok"])

p("P10","Evidence verifies only against a party that signed the offence",
 "Evidence verifies successfully only if the accused party validly signed every message part in it that is presented as its own, echoed parts are validly signed by their echoers, all parts are of one session and of the rounds they are presented for, and the protocol (or the library's own rule: malformed part, invalid echo, two different broadcasts for one round) confirms the fault on exactly these parts. In particular no piece of evidence against a party that only ever signed well-formed, consistent messages verifies.",
 ["inputs"],"every evidence object, including ones assembled by an adversary from any signed material",
 "Soundness quantifies over forged objects; tests verify only genuine evidence.",
 [EV,E,M,RI],[("Evidence::verify and the per-kind verify functions",EV),("verify_message_parts",EV),("InvalidEchoError::verify_evidence, MismatchedBroadcastsError::verify_evidence",E),("RoundInfoObject::verify_*",RI)],[],["Evidence::verify"])

p("P11","Checking hostile evidence never fails locally",
 "For every evidence object, whatever it contains, checking it returns success or reports the evidence as invalid; it does not panic, and it reports a local error only when a local operation (serialization, hashing, the protocol's own local error) failed.",
 ["inputs"],"every evidence object that can be deserialized",
 "Totality over all inputs.",
 [EV,E,M,RI,CH,PE],[("MessageVerificationError::into_evidence_error",M),("Evidence::verify",EV),("ungroup, ungroup_map",CH),("NoProtocolErrors",PE),("RoundInfoObject::verify_evidence",RI)],[],["Evidence::verify"])

p("P12","A signature covers exactly one message part in one context",
 "What a party signs for a message part is determined by, and determines, the session, the round, which of the three kinds of part it is, whether it is present, and its payload bytes, so a signature for one of them never verifies for another and an echoed digest stands for exactly one broadcast. A part is accepted as verified only if the signature is valid for the claimed party over exactly this data.",
 ["inputs"],"every pair of (session, round, kind, payload) combinations",
 "Injectivity of the signed encoding is a statement about all pairs of inputs; no test looks at it.",
 [M,PM],[("message_digest, SignedMessagePart::new / into_verified / to_signed_hash",M),("ProtocolMessagePartHashable::hash",PM)],[],["which messages verify"])

p("P13","The session report is complete and states the true outcome",
 "The final report contains every error registered in any round of the session under the party it was registered against, and lists as missing exactly the parties which the round the session ended in expected a message from and had processed none of. Its outcome is a result exactly when the protocol produced one, and otherwise tells termination on request apart from giving up because of too few messages; the echo broadcasts, normal broadcasts and direct messages of earlier rounds stay retrievable unchanged by round and sender.",
 ["histories"],"every history of rounds and errors",
 "The tests inspect reports of one- to three-round runs with at most one error.",
 [T,S,TK],[("Transcript::update, get_*",T),("SessionReport::new",T),("terminate_inner, terminate, terminate_due_to_errors",S)],[("echo_broadcasts, normal_broadcasts, direct_messages, errors, missing_messages","transcript",T)],["SessionReport fields"])

p("P14","Typed rounds see only well-formed message parts",
 "A round declared with no direct message, echo broadcast or normal broadcast accepts a message only if that part is absent, and one declared with a type accepts it only if the part is present and deserializes to it; the typed values handed to the protocol are those in the parts. A malformed part is blamed on that part, and third-party checking of that blame succeeds exactly when the part is malformed for that round.",
 ["inputs","programs"],"every round type and every content of every message part",
 "Tests cover one malformed payload for one round type.",
 [DR,RI,PM],[("RoundWrapper as DynRound::receive_message",DR),("verify_is_none/verify_is_some/verify_is_invalid",PM),("RoundInfoObject::verify_*_is_invalid",RI)],[],["processing result","Evidence::verify"])

p("P15","Round identifiers and graphs transform consistently",
 "Nesting a round identifier in a group and taking it out again gives back the group and the identifier, and going to the echo round and back gives the identifier, while unnesting a top-level identifier, echoing an echo round or un-echoing a normal one is an error; distinct identifiers stay distinct. The transition information of an echo round is that of its round with the echo identifier and the round as only parent, and the rounds that may run simultaneously with a round are its parents, its siblings, its children and (when it is followed by one) its own echo round.",
 ["inputs","configurations"],"every identifier at any nesting depth and every declared graph",
 "Tests use identifiers at depth zero and one only.",
 [RID],[("RoundId::group_under/split_group/echo/non_echo",RID),("TransitionInfo::group_under/simultaneous_rounds/echo/new_linear/...",RID)],[],["RoundId, TransitionInfo API and message caching"])

p("P16","A chained protocol behaves as the two protocols in sequence",
 "A chained protocol presents each round of the first and second protocol unchanged except for its identifier being placed in the first or second group; messages, echo and artifact handling, errors and randomness are passed through; the second protocol starts exactly when the first produces its result, is given that result, and its result is the chain's. Evidence from either part is checked by that part's protocol against that part's shared data, with identifiers of the other group reported as invalid evidence.",
 ["programs","inputs"],"every pair of protocols and every run of each of them",
 "One fixed pair of protocols is chained in the tests, with no evidence.",
 [CH,DE],[("ChainedRound",CH),("RoundInfo1/RoundInfo2, ungroup, ungroup_map",CH),("Protocol::round_info for chains",CH)],[("state","which protocol runs",CH)],["a session over a chained protocol"])

p("P17","Collection helpers neither lose, add nor invent entries",
 "Removing an item from a set or map returns all the other entries and only these; mapping the values of a map keeps every key and applies the function to every value; lookups by key return the entry or an error of the right kind. Reading a serialized map accepts exactly the sequences of pairs with distinct keys, and gives back those pairs.",
 ["inputs"],"every collection and every serialized sequence",
 "Tests use three-entry examples.",
 [UT,SM],[("Without, MapValues, MapValuesRef, GetOr*, verify_that",UT),("MapVisitor::visit_seq",SM)],[],["utils API, deserialization of evidence and echo messages"])

p("P18","Outgoing messages are consistent and correctly bound",
 "In a round a party sends the same signed echo broadcast and the same signed normal broadcast to every destination, and each outgoing message carries the direct message the round produced for that destination, all of it signed for this session and round and accepted by an honest receiver's checks. What the party keeps as its own broadcast is what it sent.",
 ["inputs","programs","configurations"],"every round of every protocol, every destination",
 "The tests do not compare messages to different destinations; equal content for all must hold for every protocol.",
 [S,M],[("new_for_next_round, make_message",S),("Message::new, SignedMessagePart::new",M),("RoundWrapper::make_*",DR)],[("echo_broadcast, normal_broadcast","signed once per round",S)],["Session::make_message"])

p("P19","Overriding rounds leaves everything else untouched",
 "A node whose entry point is wrapped by the extending combinator runs the original protocol, with the original's checks of evidence, from the original's entry round on. Every round (of a protocol of ordinary rounds) keeps its identity, graph position and communication, and receives messages as the original does. What it sends and what it ends with come from the extension registered for its round type, given that round and the original's arguments, and are the original's for every method the extension does not override and for every round without an extension; an extension never applies to another round. All of this holds at every later round too.",
 ["programs","inputs"],"every protocol and every set of extensions, in every run",
 "One extension of one round is exercised in the tests; that nothing else changes has to hold for every protocol, every later round and every extension.",
 [EX,DR],[("ExtendableEntryPoint, wrap_round",EX),("ExtendedRound, PassthroughRound",EX),("RoundExtension and its defaults",EX),("as_typed, downcast, type_id_for",DR)],[("extensions","the registered extensions by round type",EX)],["a session over an extended protocol"])

p("P20","The drivers pass on everything and report what the session does",
 "A driver that runs a session sends exactly what the session produces for each destination of each round, once, under the session's own identifier and party; hands every received message and every message kept for the round to the session; finalizes a round only when the session says it can be, gives up as unfinishable only when it says so and as cancelled only on cancellation, and its report is the one the session then makes. A failing transport is a local error.",
 ["histories","inputs"],"every protocol and every sequence of received messages",
 "The tests run honest parties to their result only.",
 [TK,RS],[("run_session, par_run_session",TK),("run_sync, propagate",RS)],[],["SessionReport of a run","the messages sent"])

p("P21","User-supplied serialization and cryptography round-trip",
 "What the configured wire format serializes it deserializes back to an equal value, and the configured signature scheme accepts what its signer signed and nothing else.",
 ["inputs","configurations"],"every format and signature scheme a user can configure",
 "External parameters.",
 [WF,S],[("WireFormat, SessionParameters",S)],[],["sessions between honest parties"])

ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,x["title"]; 
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
