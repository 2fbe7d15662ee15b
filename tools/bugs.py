BUGS = {}
CHAIN = r'''
use manul::combinators::chain::*;
use serde::{Deserialize, Serialize};
#[derive(Debug, Serialize, Deserialize)]
pub struct Both;
impl ChainedMarker for Both {}
impl ChainedProtocol<Vid> for Both {
    type Protocol1 = Puppet<1>;
    type Protocol2 = Puppet<2>;
}
#[derive(Debug, Clone)]
pub struct BothEntry { one: Entry<1>, two: Entry<2> }
impl ChainedMarker for BothEntry {}
#[derive(Debug)]
struct Join(Entry<2>);
impl ChainedSplit<Vid> for BothEntry {
    type Protocol = Both;
    type EntryPoint = Entry<1>;
    fn make_entry_point1(self) -> (Entry<1>, impl ChainedJoin<Vid, Protocol = Both>) { (self.one, Join(self.two)) }
}
impl ChainedJoin<Vid> for Join {
    type Protocol = Both;
    type EntryPoint = Entry<2>;
    fn make_entry_point2(self, _result: String) -> Entry<2> { self.0 }
}
fn chained(first: Vec<RoundSpec>, second: Vec<RoundSpec>, sn: &SessionId) -> R<Session<Both, Sp>> {
    let log = new_log();
    let e = BothEntry {
        one: Entry { script: Arc::new(Script { rounds: first }), log: log.clone(), draw_rng: false },
        two: Entry { script: Arc::new(Script { rounds: second }), log, draw_rng: false },
    };
    Ok(Session::new(&mut rng(1), sn.clone(), Sgn(0), e)?)
}
fn give(s: &Session<Both, Sp>, a: &mut RoundAccumulator<Both, Sp>, from: Vid, m: &M) -> String {
    match s.preprocess_message(a, &from, m.clone()) {
        Err(e) => format!("local error {e}"),
        Ok(PreprocessOutcome::Cached) => "cached".into(),
        Ok(PreprocessOutcome::Error(e)) => format!("refused: {e}"),
        Ok(PreprocessOutcome::ToProcess(v)) => {
            let p = s.process_message(*v);
            match s.add_processed_message(a, p) { Ok(()) => "processed".into(), Err(e) => format!("local error {e}") }
        }
    }
}
'''
MAIN = r'''
fn main() {
    if let Err(e) = run() {
        println!("the scenario could not be set up: {e:?}");
        std::process::exit(4);
    }
}
'''
def bug(id, property, needs, breaks, edits, demo):
    BUGS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

SETUP = r'''
    let sn = sid("demo");
    let other = sid("another session");
    let r1 = RoundId::new(1);
    let r2 = RoundId::new(2);
    let all = [B, C, D];
'''

bug("p01-absent-part-metadata", "P01",
    "a message whose (absent) normal broadcast was signed by the same party for another session or round",
    "a message whose parts do not agree on session and round is handed over for processing",
    [("session/message.rs", "if self.normal_broadcast.metadata() != self.direct_message.metadata() {",
      "let has_normal_broadcast = !self.normal_broadcast.payload().is_none();\n        if has_normal_broadcast && self.normal_broadcast.metadata() != self.direct_message.metadata() {"),
     ("session/message.rs", "NormalBroadcast, PartKind, ProtocolMessagePartHashable, RoundId,",
      "NormalBroadcast, PartKind, ProtocolMessagePart, ProtocolMessagePartHashable, RoundId,")],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [true, false, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let good = craft(&sn, &r1, B, A, &parts(Some("d"), None, None), 2)?;
    let foreign = craft(&other, &r1, B, A, &parts(Some("d"), None, None), 3)?;
    let mixed = with_part(&good, 2, part_v(&foreign, 2)?)?;
    let got = feed(&s, &mut a, B, &mixed);
    need(matches!(got, Fed::Refused(_)), format!("a message with a part of another session: {got:?}"));
''')

bug("p02-banned-then-mismatched", "P02",
    "a sender that already has an unprovable error in this round sends a message with parts of different rounds",
    "the second bad message of a party aborts the local call with a local error",
    [("session/session.rs", '''        if self.transcript.is_banned(from) || accum.is_banned(from) {
            trace!("[{key:?}] Banned.");
            return Ok(PreprocessOutcome::remote_error("The sender is banned"));
        }

''', ""),
     ("session/session.rs", '''        let message_round_id = checked_message.metadata().round_id().clone();
''', '''        if self.transcript.is_banned(from) || accum.is_banned(from) {
            trace!("[{key:?}] Banned.");
            return Ok(PreprocessOutcome::remote_error("The sender is banned"));
        }
        let message_round_id = checked_message.metadata().round_id().clone();
''')],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [true, false, true], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let good = craft(&sn, &r1, B, A, &parts(Some("d"), None, Some("n")), 2)?;
    let foreign = craft(&other, &r1, B, A, &parts(Some("d"), None, Some("n")), 3)?;
    let mixed = with_part(&good, 2, part_v(&foreign, 2)?)?;
    for i in 0..2 {
        let got = feed(&s, &mut a, B, &mixed);
        need(matches!(got, Fed::Refused(_)), format!("bad message {i}: {got:?}"));
    }
''')

bug("p03-unprovable-dropped", "P03",
    "a party that in one (echo) round equivocated, as another party's echo shows, while its own bad message was being processed",
    "the unattributable error of a party that also has evidence against it is dropped from the report",
    [("session/transcript.rs", "for (verifier, error) in unprovable_errors {",
      "for (verifier, error) in unprovable_errors {\n            // The evidence is enough.\n            if all_provable_errors.contains_key(&verifier) {\n                continue;\n            }")],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [false, true, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let mine = s.make_message(&mut rng(4), &B)?.0;
    let mut es = vec![(A, hash_of(&sn, &r1, A, &mine)?)];
    for p in all {
        let m = craft(&sn, &r1, p, A, &parts(None, Some("e"), None), 2)?;
        feed(&s, &mut a, p, &m);
        es.push((p, hash_of(&sn, &r1, p, &m)?));
    }
    let s = match s.finalize_round(&mut rng(5), a)? { RoundOutcome::AnotherRound { session, .. } => *session, _ => return skip("no echo round") };
    let mut a = s.make_accumulator();
    // the message of B lacks echos; it is being processed while that of C exposes B
    let bad = craft_echo(&sn, &r1, B, A, &[])?;
    let v = match pre(&s, &mut a, B, &bad)? { PreprocessOutcome::ToProcess(v) => *v, x => return skip(format!("{x:?}")) };
    let other_b = craft(&sn, &r1, B, C, &parts(None, Some("another"), None), 6)?;
    let mut es_c: Vec<(Vid, Value)> = es.iter().filter(|e| e.0 != C).cloned().collect();
    for e in es_c.iter_mut() { if e.0 == B { e.1 = hash_of(&sn, &r1, B, &other_b)?; } }
    feed(&s, &mut a, C, &craft_echo(&sn, &r1, C, A, &es_c)?);
    let p = s.process_message(v);
    s.add_processed_message(&mut a, p)?;
    let rep = s.terminate_due_to_errors(a)?;
    need(rep.provable_errors.contains_key(&B), "the evidence is missing");
    need(rep.unprovable_errors.contains_key(&B), "the error without evidence is missing");
''')

bug("p04-one-cached-per-sender", "P04",
    "a party that is two rounds ahead: its messages for the echo round and for the round after it both arrive early",
    "the second early message is rejected and its honest sender banned",
    [("session/session.rs", "entry.contains_key(round_id)", "entry.keys().any(|cached| cached.round_num() >= round_id.round_num() || entry.len() > 1)")],
    SETUP + r'''
    let mut spec = RoundSpec::new(TransitionInfo::new_linear(1), [false, true, false], &all);
    spec.fin = Fin::Next(1);
    let last = RoundSpec::new(TransitionInfo::new_linear_terminating(2), [true, false, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec, last] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let late = craft(&sn, &r2, B, A, &parts(Some("d"), None, None), 2)?;
    let echo = craft_echo(&sn, &r1, B, A, &[])?;
    for (n, m) in [("the next round", &late), ("the echo round", &echo)] {
        let got = feed(&s, &mut a, B, m);
        need(got == Fed::Cached, format!("an early message for {n}: {got:?}"));
    }
''')

bug("p05-proven-counts-as-received", "P05",
    "a round where every party but one was accepted and the remaining one has evidence against it",
    "a round that misses a message is reported as ready",
    [("session/session.rs", ".all(|key| self.payloads.contains_key(key))",
      ".all(|key| self.payloads.contains_key(key) || (self.provable_errors.contains_key(key) && self.payloads.len() > 1))")],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [true, false, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    feed(&s, &mut a, B, &craft(&sn, &r1, B, A, &parts(Some("d"), None, None), 2)?);
    feed(&s, &mut a, C, &craft(&sn, &r1, C, A, &parts(Some("d"), None, None), 2)?);
    feed(&s, &mut a, D, &craft(&sn, &r1, D, A, &parts(None, None, None), 2)?);
    let c = s.can_finalize(&a);
    need(c == CanFinalize::Never, format!("a round where one message was malformed: {c:?}"));
''')

bug("p06-undeclared-successor", "P06",
    "a round that declares no successors and still goes on to another round",
    "the session moves to a round the protocol did not declare",
    [("session/session.rs", "if !self.transition_info.children.contains(&round_id) {",
      "let children = &self.transition_info.children;\n                if !children.is_empty() && !children.contains(&round_id) {")],
    SETUP + r'''
    let mut spec = RoundSpec::new(TransitionInfo::new_linear_terminating(1), [true, false, false], &all);
    spec.fin = Fin::Next(1);
    let last = RoundSpec::new(TransitionInfo::new_linear_terminating(2), [true, false, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec, last] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    outgoing(&s, &mut a, 3)?;
    for p in all { feed(&s, &mut a, p, &craft(&sn, &r1, p, A, &parts(Some("d"), None, None), 2)?); }
    let got = s.finalize_round(&mut rng(4), a);
    need(got.is_err(), "a round with no declared successors led to another round");
''')

bug("p07-echo-keys-counted", "P07",
    "an echo message with the right number of entries, where the entry of one party is replaced by the sender's own",
    "an echo message that does not cover a party it must cover is accepted",
    [("session/echo.rs", '''        let missing_keys = expected_keys.difference(&message_keys).collect::<Vec<_>>();
        if !missing_keys.is_empty() {''', '''        let missing_keys = expected_keys.difference(&message_keys).collect::<Vec<_>>();
        if message_keys.len() < expected_keys.len() {'''),
     ("session/echo.rs", '''        if !extra_keys.is_empty() {''', '''        if message_keys.len() > expected_keys.len() {''')],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [false, true, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let mine = s.make_message(&mut rng(4), &B)?.0;
    let mut es = vec![(A, hash_of(&sn, &r1, A, &mine)?)];
    for p in all {
        let m = craft(&sn, &r1, p, A, &parts(None, Some("e"), None), 2)?;
        feed(&s, &mut a, p, &m);
        es.push((p, hash_of(&sn, &r1, p, &m)?));
    }
    let s = match s.finalize_round(&mut rng(5), a)? { RoundOutcome::AnotherRound { session, .. } => *session, _ => return skip("no echo round") };
    let mut a = s.make_accumulator();
    // without D, but with its own
    let got: Vec<(Vid, Value)> = es.iter().filter(|e| e.0 != D).cloned().collect();
    feed(&s, &mut a, B, &craft_echo(&sn, &r1, B, A, &got)?);
    let rep = s.terminate(a)?;
    need(rep.unprovable_errors.contains_key(&B), "an echo message that does not cover a party was accepted");
''')

bug("p08-replayed-echo-blame", "P08",
    "an echo message containing a digest which its author signed for the same round of another session",
    "evidence is filed against the original broadcaster and not the party that echoed",
    [("session/echo.rs", "if verified_echo.metadata() != previously_received_echo.metadata() {",
      "if verified_echo.metadata().round_id() != previously_received_echo.metadata().round_id() {")],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [false, true, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let mine = s.make_message(&mut rng(4), &B)?.0;
    let mut es = vec![(A, hash_of(&sn, &r1, A, &mine)?)];
    for p in all {
        let m = craft(&sn, &r1, p, A, &parts(None, Some("e"), None), 2)?;
        feed(&s, &mut a, p, &m);
        es.push((p, hash_of(&sn, &r1, p, &m)?));
    }
    let s = match s.finalize_round(&mut rng(5), a)? { RoundOutcome::AnotherRound { session, .. } => *session, _ => return skip("no echo round") };
    let mut a = s.make_accumulator();
    let elsewhere = craft(&other, &r1, D, A, &parts(None, Some("e of another session"), None), 2)?;
    let replayed = hash_of(&other, &r1, D, &elsewhere)?;
    let mut got: Vec<(Vid, Value)> = es.iter().filter(|e| e.0 != B).cloned().collect();
    for e in got.iter_mut() { if e.0 == D { e.1 = replayed.clone(); } }
    feed(&s, &mut a, B, &craft_echo(&sn, &r1, B, A, &got)?);
    let rep = s.terminate(a)?;
    let blamed = keys(&rep.provable_errors);
    need(blamed == set(&[B]), format!("B replayed a digest of D and the evidence is against {blamed:?}"));
''')

OFFENCE = r'''
    ev::setup_registry();
'''
bug("p09-one-broadcast-per-round", "P09",
    "a protocol error requiring both the echo and the normal broadcast of an earlier round",
    "the evidence lacks an earlier message the error declared as required, so it does not verify",
    [("session/evidence.rs", '''                }
                if required.normal_broadcast {
                    normal_broadcasts''', '''                } else if required.normal_broadcast {
                    normal_broadcasts''')],
    OFFENCE + r'''
    let spec = ev::spec_for(3, [false, true, true], &[(1, [true, true, false]), (2, [false, true, false])], false);
    let v = match ev::offend(3, &spec) { Ok(v) => v, Err((_, why)) => { need(false, why); return Ok(()); } };
    let got = ev::verify(&v);
    need(got == ev::Verdict::Confirmed, format!("evidence made by a session: {got:?}"));
''')

bug("p10-other-round-as-earlier", "P10",
    "evidence that presents a message signed for one round as the message of another round",
    "evidence verifies although the accused never sent such a message in that round",
    [("session/evidence.rs", '''        let metadata = verified.metadata();
        if metadata.session_id() != expected_session_id || metadata.round_id() != round_id {''',
      '''        let metadata = verified.metadata();
        if metadata.session_id() != expected_session_id || metadata.round_id().is_echo() != round_id.is_echo() {''')],
    OFFENCE + r'''
    let sn = ev::session_name();
    let spec = ev::spec_for(3, [false, true, true], &[(1, [false, true, false])], false);
    let v = match ev::offend(3, &spec) { Ok(v) => v, Err((_, why)) => return skip(why) };
    let mut forged = 0;
    for path in ev::all_places(&v) {
        let name = ev::show(&path);
        if !name.contains("normal_broadcasts") { continue; }
        let part = match ev::get(&v, &path) { Some(p) if p.get("message_with_metadata").is_some() => p.clone(), _ => continue };
        let moved = ev::resign(&part, 2, &sn, Some(&RoundId::new(2)), B, false)?;
        let mut w = v.clone();
        ev::put(&mut w, &path, moved);
        let got = ev::verify(&w);
        need(matches!(got, ev::Verdict::Invalid(_)), format!("a message of round 2 presented as one of round 1: {got:?}"));
        forged += 1;
    }
    need(forged > 0, "nothing to forge");
''')

bug("p11-missing-copy-local-error", "P11",
    "evidence with echoed digests from which the copy of one echoed broadcast was removed",
    "checking hostile evidence reports a local error",
    [("session/evidence.rs", '''                    EvidenceError::InvalidEvidence(format!("Missing {round_id} echo broadcast from {other_verifier:?}"))''',
      '''                    EvidenceError::Local(LocalError::new(format!("Missing {round_id} echo broadcast from {other_verifier:?}")))''')],
    OFFENCE + r'''
    let spec = ev::spec_for(2, [false, true, true], &[], true);
    let v = match ev::offend(2, &spec) { Ok(v) => v, Err((_, why)) => return skip(why) };
    let mut tried = 0;
    for path in ev::all_places(&v) {
        if !matches!(path.iter().rev().nth(1), Some(ev::Step::Idx(_))) || !ev::show(&path).contains("other_echo_broadcasts") { continue; }
        let list = match ev::get(&v, &path) { Some(Value::Array(l)) if l.len() > 1 && l[0].is_array() => l.clone(), _ => continue };
        let mut w = v.clone();
        ev::put(&mut w, &path, Value::Array(list[1..].to_vec()));
        let got = ev::verify(&w);
        need(matches!(got, ev::Verdict::Invalid(_) | ev::Verdict::Unreadable), format!("evidence lacking a copy: {got:?}"));
        tried += 1;
    }
    need(tried > 0, "nothing was tried");
''')

bug("p12-digest-round-number-only", "P12",
    "a message of a round in one group replayed as one of the round with the same number in another group",
    "a signature made for one round verifies for another",
    [("session/message.rs", ".chain_update(SP::WireFormat::serialize(metadata)?)",
      ".chain_update(SP::WireFormat::serialize((\n            metadata.session_id(),\n            metadata.round_id().round_num(),\n            metadata.round_id().is_echo(),\n        ))?)")],
    SETUP + r'''
    let one = grouped(1, &[1], false)?;
    let two = grouped(1, &[2], false)?;
    ENTRY.with(|e| e.borrow_mut().insert(1, two.clone()));
    let spec = RoundSpec::new(ti(two.clone()), [true, false, true], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    let m = craft(&sn, &one, B, A, &parts(Some("d"), None, Some("n")), 2)?;
    let mut v = to_v(&m)?;
    for p in PARTS {
        *at_mut(&mut v, &[p, "message_with_metadata", "metadata", "round_id"])? = to_v(&two)?;
    }
    let got = feed(&s, &mut a, B, &from_v(&v)?);
    need(matches!(got, Fed::Refused(_)), format!("a message signed for another group's round: {got:?}"));
''')

bug("p13-missing-hidden-by-evidence", "P13",
    "a round in which one party is silent and there is evidence against another",
    "the report does not list the silent party as missing",
    [("session/transcript.rs", "if !missing_messages.is_empty() {", "if !missing_messages.is_empty() && all_provable_errors.is_empty() {")],
    SETUP + r'''
    let spec = RoundSpec::new(ti(r1.clone()), [true, false, false], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    feed(&s, &mut a, C, &craft(&sn, &r1, C, A, &parts(Some("d"), None, None), 2)?);
    feed(&s, &mut a, D, &craft(&sn, &r1, D, A, &parts(None, None, None), 2)?);
    let rep = s.terminate(a)?;
    let missing: Vec<(RoundId, BTreeSet<Vid>)> = rep.missing_messages.into_iter().collect();
    need(missing == vec![(r1, set(&[B]))], format!("missing: {missing:?}"));
''')

bug("p14-wrong-type-checked", "P14",
    "a third party checks a malformed normal broadcast of a round that has no echo broadcast",
    "the check of the blame uses another part's type, so genuine evidence is refused",
    [("protocol/round_info.rs", '''        if NoMessage::equals::<R::NormalBroadcast>() {''', '''        if NoMessage::equals::<R::EchoBroadcast>() {''')],
    SETUP + r'''
    clear_registry();
    register(1, &r1, [false, false, true]);
    let spec = RoundSpec::new(ti(r1.clone()), [false, false, true], &all);
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let mut a = s.make_accumulator();
    feed(&s, &mut a, B, &craft(&sn, &r1, B, A, &parts(None, None, None), 2)?);
    let rep = s.terminate(a)?;
    let e = match rep.provable_errors.get(&B) { Some(e) => to_v(e)?, None => return skip("no evidence") };
    let got = ev::verify_in::<Puppet<1>>(&e, &Shared(42));
    need(got == ev::Verdict::Confirmed, format!("the evidence of a missing normal broadcast: {got:?}"));
''')

bug("p15-siblings-not-grouped", "P15",
    "a round with siblings (alternative paths) in a chained protocol, and a party on the other path",
    "the rounds that may run at the same time lack the siblings, so an honest party's message is rejected",
    [("protocol/round_id.rs", "siblings: self.siblings.into_iter().map(|r| r.group_under(group)).collect(),",
      "siblings: self.siblings,")],
    CHAIN + "fn run() -> R<()> {" + SETUP + r'''
    let mut spec = RoundSpec::new(TransitionInfo::new_linear(2).with_siblings(set(&[7u8])), [true, false, false], &all);
    spec.fin = Fin::Next(0);
    let end = RoundSpec::new(TransitionInfo::new_linear_terminating(1), [true, false, false], &all);
    ENTRY.with(|e| e.borrow_mut().insert(1, r2.clone()));
    let s = chained(vec![spec], vec![end], &sn)?;
    let mut a = s.make_accumulator();
    let m = craft(&sn, &grouped(7, &[1], false)?, B, A, &parts(Some("d"), None, None), 2)?;
    let got = give(&s, &mut a, B, &m);
    need(got == "cached", format!("a message for the sibling of a chained round: {got}"));
    Ok(())
}
''' + MAIN)

bug("p16-early-result", "P16",
    "a first protocol whose round may either produce the result or go on to another round, and produces the result",
    "the chain cannot go on to the second protocol when the first produces its result",
    [("combinators/chain.rs", """                    tinfo.may_produce_result = false;
                    tinfo.children""", """                    tinfo.may_produce_result = !tinfo.children.is_empty();
                }
                if round.as_ref().transition_info().children.is_empty() {
                    tinfo.children""")],
    CHAIN + "fn run() -> R<()> {" + SETUP + r'''
    let mut t = TransitionInfo::new_linear(1);
    t.may_produce_result = true;
    let first = RoundSpec::new(t, [true, false, false], &all);
    let end = RoundSpec::new(TransitionInfo::new_linear_terminating(1), [true, false, false], &all);
    let s = chained(vec![first], vec![end], &sn)?;
    let mut a = s.make_accumulator();
    for d in all {
        let (_, art) = s.make_message(&mut rng(3), &d)?;
        s.add_artifact(&mut a, art)?;
    }
    for p in all {
        let got = give(&s, &mut a, p, &craft(&sn, &grouped(1, &[1], false)?, p, A, &parts(Some("d"), None, None), 2)?);
        if got != "processed" { return skip(got); }
    }
    match s.finalize_round(&mut rng(4), a) {
        Ok(RoundOutcome::AnotherRound { session, .. }) => need(session.round_id() == grouped(1, &[2], false)?, "not the second protocol"),
        Ok(_) => need(false, "the chain ended with the first protocol"),
        Err(e) => need(false, format!("the second protocol does not start: {e}")),
    }
    Ok(())
}
''' + MAIN)

bug("p17-first-duplicate-wins", "P17",
    "a serialized map with the same key twice, with the same value length",
    "a sequence with duplicate keys is accepted",
    [("utils/serializable_map.rs", '''            let key_clone = key.clone();
            if map.0.insert(key, value).is_some() {''', '''            let key_clone = key.clone();
            let last = map.0.keys().next_back().cloned();
            if map.0.insert(key, value).is_some() && last.as_ref() == Some(&key_clone) {''')],
    SETUP + r'''
    use manul::utils::SerializableMap;
    let bad: Result<SerializableMap<u8, u8>, _> = serde_json::from_str("[[1,2],[3,4],[1,5]]");
    need(bad.is_err(), format!("a sequence with a repeated key was read as {bad:?}"));
    let good: Result<SerializableMap<u8, u8>, _> = serde_json::from_str("[[1,2],[3,4]]");
    need(good.is_ok(), "a good sequence was refused");
''')

bug("p18-send-only-broadcast", "P18",
    "a round in which a party sends but expects nothing",
    "such a party sends no normal broadcast although its round made one, and honest receivers report it",
    [("session/session.rs", '''        let normal = if communication_info.message_destinations.is_empty() {''',
      '''        let normal = if communication_info.message_destinations.is_empty()
            || communication_info.expecting_messages_from.is_empty()
        {''')],
    SETUP + r'''
    let mut spec = RoundSpec::new(ti(r1.clone()), [false, false, true], &all);
    spec.ci.expecting_messages_from = BTreeSet::new();
    let s: S<1> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 1)?;
    let m = s.make_message(&mut rng(4), &B)?.0;
    let got = payload_of(&part_v(&m, 2)?)?;
    need(got == Some(b"\"normal\"".to_vec()), format!("the normal broadcast sent: {got:?}"));
''')

bug("p19-extension-used-up", "P19",
    "a protocol with two rounds of the same type and an extension for that type",
    "the extension overrides the first round of its type only; later ones run unextended",
    [("dev/extend.rs", """        let typed_round = round.into_typed().ok()?.downcast::<Ext::Round>().ok()?;
        let extended_round""", """        let typed_round = round.into_typed().ok()?.downcast::<Ext::Round>().ok()?;
        let mut extensions = extensions;
        extensions.remove(&BoxedTypedRound::<Id, <Ext::Round as Round<Id>>::Protocol>::type_id_for::<Ext::Round>());
        let extended_round""")],
    r'''
use manul::dev::{ExtendableEntryPoint, RoundExtension};
type Rd = PR<1, NoMessage, NoMessage, Msg>;
#[derive(Debug, Clone)]
struct Shout;
impl RoundExtension<Vid> for Shout {
    type Round = Rd;
    fn make_normal_broadcast(&self, _rng: &mut impl rand_core::CryptoRngCore, _round: &Rd) -> Result<Msg, LocalError> {
        Ok(Msg("replaced".into()))
    }
}
fn run() -> R<()> {
    let sn = sid("demo");
    let all = [B];
    let mut one = RoundSpec::new(TransitionInfo::new_linear(1), [false, false, true], &all);
    one.fin = Fin::Next(1);
    let two = RoundSpec::new(TransitionInfo::new_linear_terminating(2), [false, false, true], &all);
    let ep = Entry::<1> { script: Arc::new(Script { rounds: vec![one, two] }), log: new_log(), draw_rng: false };
    let ep = ExtendableEntryPoint::new(ep).with_extension(Shout);
    let s: S<1> = Session::new(&mut rng(1), sn.clone(), Sgn(0), ep)?;
    let mut a = s.make_accumulator();
    let out = outgoing(&s, &mut a, 2)?;
    let text = |m: &M| -> R<String> { Ok(format!("{:?}", payload_of(&part_v(m, 2)?)?.map(|b| String::from_utf8_lossy(&b).to_string()))) };
    if !text(&out[&B])?.contains("replaced") {
        return skip("the extension does not work at all");
    }
    let m = craft(&sn, &RoundId::new(1), B, A, &parts(None, None, Some("hello")), 3)?;
    if feed(&s, &mut a, B, &m) != Fed::Processed {
        return skip("not processed");
    }
    match s.finalize_round(&mut rng(4), a)? {
        RoundOutcome::AnotherRound { session, .. } => {
            let mut a = session.make_accumulator();
            let out = outgoing(&session, &mut a, 5)?;
            let t = text(&out[&B])?;
            need(t.contains("replaced"), format!("the second round of the extended type sends {t}"));
        }
        _ => return skip("no second round"),
    }
    Ok(())
}
''' + MAIN)

DRIVE = r'''
use ::tokio::sync::mpsc;
use manul::session::tokio::*;
use std::time::Duration;
fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    ::tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap().block_on(f)
}
'''
bug("p20-receiver-loses-kept", "P20",
    "a party that in the next round only receives, and got another party's message for that round early",
    "the message kept for the next round is dropped by the driver and the session never gets ready",
    [("session/tokio.rs", """                session = *new_session;
                cached_messages = new_cached_messages;""", """                session = *new_session;
                cached_messages = new_cached_messages;
                if session.message_destinations().is_empty() {
                    cached_messages.clear();
                }""")],
    DRIVE + r'''
fn run() -> R<()> {
    let sn = sid("demo");
    let all = [B, C];
    let mut one = RoundSpec::new(TransitionInfo::new_linear(1), [false, false, true], &all);
    one.fin = Fin::Next(1);
    let mut two = RoundSpec::new(TransitionInfo::new_linear_terminating(2), [false, false, true], &all);
    two.ci.message_destinations.clear();
    let ep = Entry::<1> { script: Arc::new(Script { rounds: vec![one, two] }), log: new_log(), draw_rng: false };
    let s: S<1> = Session::new(&mut rng(1), sn.clone(), Sgn(0), ep)?;
    let (r1, r2) = (RoundId::new(1), RoundId::new(2));
    let p = parts(None, None, Some("hello"));
    let order = [(B, r1.clone()), (B, r2.clone()), (C, r1.clone()), (C, r2.clone())];
    let mut ms = vec![];
    for (i, (from, r)) in order.iter().enumerate() {
        ms.push(MessageIn::<Sp> { from: *from, message: craft(&sn, r, *from, A, &p, i as u64)? });
    }
    let got = block(async {
        let (otx, mut orx) = mpsc::channel::<MessageOut<Sp>>(100);
        let (itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100);
        for m in ms {
            let _ = itx.try_send(m);
        }
        let token = tokio_util::sync::CancellationToken::new();
        let mut r = rng(3);
        let x = ::tokio::time::timeout(Duration::from_secs(10), run_session(&mut r, &otx, &mut irx, token, s)).await;
        drop(itx);
        while orx.try_recv().is_ok() {}
        x
    });
    match got {
        Err(_) => need(false, "all messages were delivered and the driver still waits"),
        Ok(Err(e)) => need(false, format!("{e}")),
        Ok(Ok(rep)) => need(matches!(rep.outcome, SessionOutcome::Result(_)), rep.brief()),
    }
    Ok(())
}
''' + MAIN)

bug("p20-cancelled-as-unfinishable", "P20",
    "the parallel driver, cancelled while it waits for a party that does not answer",
    "a cancelled session is reported as one that could not be finished",
    [("session/tokio.rs", """                _ = cancellation.cancelled() => {
                    break LoopOutcome::Cancelled;
                }""", """                _ = cancellation.cancelled() => {
                    // Whatever has not arrived yet, will not.
                    break match session.can_finalize(&accum) {
                        CanFinalize::Yes => LoopOutcome::Finalize,
                        _ => LoopOutcome::TerminateDueToErrors,
                    };
                }""")],
    DRIVE + r'''
fn run() -> R<()> {
    let sn = sid("demo");
    let all = [B, C];
    let one = RoundSpec::new(TransitionInfo::new_linear_terminating(1), [false, false, true], &all);
    let ep = Entry::<1> { script: Arc::new(Script { rounds: vec![one] }), log: new_log(), draw_rng: false };
    let s: S<1> = Session::new(&mut rng(1), sn.clone(), Sgn(0), ep)?;
    let got = block(async {
        let (otx, _orx) = mpsc::channel::<MessageOut<Sp>>(100);
        let (_itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100);
        let token = tokio_util::sync::CancellationToken::new();
        let t = token.clone();
        ::tokio::spawn(async move {
            ::tokio::time::sleep(Duration::from_millis(200)).await;
            t.cancel();
        });
        let mut r = rng(3);
        ::tokio::time::timeout(Duration::from_secs(30), par_run_session(&mut r, &otx, &mut irx, token, s)).await
    });
    match got {
        Err(_) => need(false, "cancelled and still running"),
        Ok(Err(e)) => need(false, format!("{e}")),
        Ok(Ok(rep)) => need(matches!(rep.outcome, SessionOutcome::Terminated), rep.brief()),
    }
    Ok(())
}
''' + MAIN)
