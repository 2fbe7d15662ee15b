//! Evidence: made by real sessions, then verified by third parties, as it is and changed in every place.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::*;
use manul::session::*;
use rand_core::RngCore;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

use crate::puppet::*;
use crate::util::*;

const ME: Vid = Vid(0);
const BAD: Vid = Vid(1);
const HON: Vid = Vid(2);
const OTH: Vid = Vid(3);
const K: usize = 2;
type E = Evidence<Puppet<K>, Sp>;

thread_local! {
    /// With this, everybody says the same in every round.
    static SAME: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn text(kind: usize, round: u8, from: Vid) -> String {
    let bad = if from == BAD { "BAD " } else { "" };
    let round = if SAME.with(|s| s.get()) { 0 } else { round };
    format!("{bad}{} of round {round} from {}", ["direct", "echo", "normal"][kind], from.0)
}

const SHAPES: [[bool; 3]; 3] = [[true, true, true], [true, false, true], [true, true, true]];

fn parts_in(round: u8, from: Vid) -> Parts {
    let sh = SHAPES[round as usize - 1];
    [0, 1, 2].map(|i| if sh[i] { Some(text(i, round, from)) } else { None })
}

fn script(at: u8, offence: Option<ErrSpec>) -> Arc<Script> {
    let mut rounds = vec![];
    for r in 1..=3u8 {
        let t = if r == 3 { TransitionInfo::new_linear_terminating(3) } else { TransitionInfo::new_linear(r) };
        let mut s = RoundSpec::new(t, SHAPES[r as usize - 1], &[BAD, HON, OTH]);
        s.echo = text(1, r, ME);
        s.normal = text(2, r, ME);
        if r != 1 {
            s.ci.echo_round_participation = EchoRoundParticipation::Send;
        }
        s.fin = if r == 3 { Fin::Result("done".into()) } else { Fin::Next(r as usize) };
        if r == at {
            if let Some(e) = &offence {
                s.recv.insert(BAD, Recv::Protocol(e.clone()));
            }
        }
        rounds.push(s);
    }
    Arc::new(Script { rounds })
}

pub fn session_name() -> SessionId {
    sid("evidence")
}

fn setup_registry() {
    clear_registry();
    for r in 1..=3u8 {
        register(K, &RoundId::new(r), SHAPES[r as usize - 1]);
    }
}

fn msg(s: &SessionId, r: u8, from: Vid, p: &Parts) -> R<M> {
    craft(s, &RoundId::new(r), from, ME, p, 1000 + r as u64)
}

/// Echo message of `from` in the echo round of round 1, and the entries in it.
fn echo_entries(s: &SessionId, from: Vid, broadcasts: &BTreeMap<Vid, M>) -> R<Vec<(Vid, Value)>> {
    let mut es = vec![];
    for (id, m) in broadcasts {
        if *id != from {
            es.push((*id, hash_of(s, &RoundId::new(1), *id, m)?));
        }
    }
    Ok(es)
}

/// What I would have to receive as my own broadcast: mine.
fn my_broadcast(s: &S<K>) -> R<M> {
    Ok(s.make_message(&mut rng(4), &BAD)?.0)
}

/// Runs a session up to the offence of `BAD` in round `at`; returns the evidence, serialized.
fn offend(at: u8, spec: &ErrSpec) -> Result<Value, (bool, String)> {
    let quiet = |e: Skip| (true, e.0);
    let sn = session_name();
    let log = new_log();
    let mut s: S<K> = start(&script(at, Some(spec.clone())), ME, &sn, &log, 3).map_err(quiet)?;
    let mut r = rng(8);
    for round in 1..=at {
        let mut a = s.make_accumulator();
        let mut bs = BTreeMap::new();
        if round == 1 {
            bs.insert(ME, my_broadcast(&s).map_err(quiet)?);
        }
        for p in [BAD, HON, OTH] {
            let m = msg(&sn, round, p, &parts_in(round, p)).map_err(quiet)?;
            match feed(&s, &mut a, p, &m) {
                Fed::Processed => {}
                x => return Err((false, format!("round {round}: the message of {p:?} was not processed: {x:?}"))),
            }
            bs.insert(p, m);
        }
        if round == at {
            let rep = s.terminate_due_to_errors(a).map_err(|e| (false, format!("terminating failed: {e}")))?;
            return match rep.provable_errors.get(&BAD) {
                Some(e) => to_v(e).map_err(quiet),
                None => Err((false, format!("no evidence against the offender, only against {:?}", keys(&rep.provable_errors)))),
            };
        }
        s = match s.finalize_round(&mut r, a) {
            Ok(RoundOutcome::AnotherRound { session, .. }) => *session,
            Ok(_) => return Err((true, "finished too early".into())),
            Err(e) => return Err((true, format!("finalize: {e}"))),
        };
        if round == 1 {
            let mut a = s.make_accumulator();
            for p in [BAD, HON, OTH] {
                let es = echo_entries(&sn, p, &bs).map_err(quiet)?;
                let m = craft_echo(&sn, &RoundId::new(1), p, ME, &es).map_err(quiet)?;
                match feed(&s, &mut a, p, &m) {
                    Fed::Processed => {}
                    x => return Err((true, format!("the echo message of {p:?} was not processed: {x:?}"))),
                }
            }
            s = match s.finalize_round(&mut r, a) {
                Ok(RoundOutcome::AnotherRound { session, .. }) => *session,
                Ok(_) => return Err((true, "finished too early".into())),
                Err(e) => return Err((true, format!("finalizing the echo round: {e}"))),
            };
        }
    }
    Err((true, "unreachable".into()))
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Verdict {
    Confirmed,
    Invalid(String),
    Local(String),
    Panic(String),
    Unreadable,
}

pub fn verify_in<P: Protocol<Vid> + serde::de::DeserializeOwned>(v: &Value, shared: &P::SharedData) -> Verdict {
    let e: Evidence<P, Sp> = match serde_json::from_value(v.clone()) {
        Ok(e) => e,
        Err(_) => return Verdict::Unreadable,
    };
    match catch_unwind(AssertUnwindSafe(|| e.verify(shared))) {
        Ok(Ok(())) => Verdict::Confirmed,
        Ok(Err(EvidenceError::InvalidEvidence(w))) => Verdict::Invalid(w),
        Ok(Err(EvidenceError::Local(e))) => Verdict::Local(format!("{e}")),
        Err(p) => Verdict::Panic(panic_text(&p)),
    }
}

pub fn verify(v: &Value) -> Verdict {
    verify_in::<Puppet<K>>(v, &Shared(42))
}

/// The error specification for these required parts, with the texts that the offender really sent.
fn spec_for(at: u8, this: [bool; 3], prev: &[(u8, [bool; 3])], combined: bool) -> ErrSpec {
    // order of ErrSpec: echo, normal, direct
    let t = |r: u8, b: [bool; 3]| {
        let p = parts_in(r, BAD);
        [
            if b[0] { p[1].clone() } else { None },
            if b[1] { p[2].clone() } else { None },
            if b[2] { p[0].clone() } else { None },
        ]
    };
    let mut s = ErrSpec::simple([None, None, None], BAD, session_name().as_ref(), at);
    s.this = t(at, this);
    for (r, b) in prev {
        let x = t(*r, *b);
        if x.iter().any(|p| p.is_some()) {
            s.prev.push((*r, x));
        }
    }
    if combined {
        s.combined.push((1, [ME, HON, OTH].iter().map(|v| (*v, text(1, 1, *v))).collect()));
    }
    s
}

fn bits(n: usize) -> [bool; 3] {
    [n & 1 != 0, n & 2 != 0, n & 4 != 0]
}

/// All evidence of protocol errors in round `at` for chosen requirements.
fn protocol_evidence(ctx: &mut Ctx, thorough: bool, id: &str) -> Vec<(String, ErrSpec, Value)> {
    setup_registry();
    let mut out = vec![];
    let mut combos: Vec<(u8, usize, usize, usize, bool)> = vec![];
    for t in 1..8 {
        combos.push((1, t, 0, 0, false));
        for p in 0..8 {
            for c in [false, true] {
                combos.push((2, t, p, 0, c));
                for q in [0, 2, 4, 6] {
                    combos.push((3, t, p, q, c));
                }
            }
        }
    }
    let mut r = rng(ctx.seed);
    for (at, t, p, q, c) in combos {
        let this = bits(t);
        if at == 2 && t == 1 {
            continue;
        }
        if !thorough && at == 3 && !(p == 7 && q == 6) && !(p.count_ones() + q.count_ones() <= 1) && !coin(&mut r, 4) {
            continue;
        }
        let spec = spec_for(at, this, &[(1, bits(p)), (2, bits(q))], c);
        if spec.this.iter().all(|x| x.is_none()) {
            continue;
        }
        let name = format!("error in round {at} requiring {this:?}, {:?} of round 1, {:?} of round 2, combined echos {c}", bits(p), bits(q));
        match offend(at, &spec) {
            Ok(v) => out.push((name, spec, v)),
            Err((true, why)) => ctx.skipped.push(format!("{name}: {why}")),
            Err((false, why)) => {
                ctx.check(id, false, || format!("{name}: {why}"));
            }
        }
    }
    out
}

/// P09: evidence of protocol errors verifies, from the object and the shared data alone.
pub fn complete(ctx: &mut Ctx) {
    let th = ctx.thorough;
    for (name, spec, v) in protocol_evidence(ctx, th, "evidence-not-made") {
        EVIDENCE_LOG.with(|l| l.borrow_mut().clear());
        let got = verify(&v);
        ctx.check("evidence-does-not-verify", got == Verdict::Confirmed, || format!("{name}: {got:?}; {v}"));
        let asked = EVIDENCE_LOG.with(|l| l.borrow().clone());
        ctx.check("evidence-check-called-wrongly", asked == vec![(K, RoundId::new(spec.round), BAD)] || got != Verdict::Confirmed, || {
            format!("{name}: the protocol's check was called for {asked:?}")
        });
        let other = verify_in::<Puppet<K>>(&v, &Shared(7));
        ctx.check("shared-data-ignored", matches!(other, Verdict::Invalid(_)), || format!("{name}: with other shared data: {other:?}"));
    }
}

// ---------------------------------------------------------------- changing evidence

#[derive(Clone, Debug)]
pub enum Step {
    Key(String),
    Idx(usize),
}

pub fn get<'a>(v: &'a Value, path: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get(k)?,
            Step::Idx(i) => v.get(i)?,
        };
    }
    Some(v)
}

pub fn put(v: &mut Value, path: &[Step], new: Value) {
    let mut v = v;
    for s in path {
        let n = match s {
            Step::Key(k) => v.get_mut(k),
            Step::Idx(i) => v.get_mut(i),
        };
        v = match n {
            Some(n) => n,
            None => return,
        };
    }
    *v = new;
}

/// Everything in the value, by path.
fn places(v: &Value, path: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(path.clone());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(Step::Key(k.clone()));
                places(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Idx(i));
                places(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

pub fn all_places(v: &Value) -> Vec<Vec<Step>> {
    let mut out = vec![];
    places(v, &mut vec![], &mut out);
    out
}

pub fn show(p: &[Step]) -> String {
    p.iter()
        .map(|s| match s {
            Step::Key(k) => k.clone(),
            Step::Idx(i) => i.to_string(),
        })
        .collect::<Vec<_>>()
        .join(".")
}

/// The kind of the signed part at this place, by the name of the field it is in.
pub fn kind_at(p: &[Step]) -> Option<usize> {
    for s in p {
        if let Step::Key(k) = s {
            match k.as_str() {
                "direct_message" | "direct_messages" | "InvalidDirectMessage" => return Some(0),
                "echo_broadcast" | "echo_broadcasts" | "other_echo_broadcasts" | "InvalidEchoBroadcast" | "we_received" => return Some(1),
                "normal_broadcast" | "normal_broadcasts" | "echo_hashes" | "InvalidNormalBroadcast" => return Some(2),
                _ => {}
            }
        }
    }
    None
}

/// The same part, but signed in another context.
pub fn resign(part: &Value, kind: usize, session: &SessionId, round: Option<&RoundId>, by: Vid, change: bool) -> R<Value> {
    let rid: RoundId = match round {
        Some(r) => r.clone(),
        None => from_v(at(part, &["message_with_metadata", "metadata", "round_id"])?)?,
    };
    let mut p: Parts = [None, None, None];
    p[kind] = payload_of(part)?.map(|b| raw(&b));
    if change {
        p[kind] = match &p[kind] {
            Some(_) => Some("something else".into()),
            None => Some("something".into()),
        };
    }
    part_v(&craft(session, &rid, by, ME, &p, 91)?, kind)
}

/// The same part, signed by `by` for this session and round.
pub fn resign_in(session: &SessionId, part: &Value, kind: usize, round: &RoundId, by: Vid) -> R<Value> {
    resign(part, kind, session, Some(round), by, false)
}

/// Ways to change a signed part so that it does not prove anything any more.
///
/// A part that is an offence in itself (`alone`) is one in any session or round, if its author signed it there.
fn broken_parts(part: &Value, kind: usize, by: Vid, others: &[Value], alone: bool, echo: bool, mismatch: bool) -> Vec<(String, Value)> {
    let sn = session_name();
    let mut out = vec![];
    let mut add = |what: &str, v: R<Value>| {
        if let Ok(v) = v {
            if &v != part {
                out.push((what.to_string(), v));
            }
        }
    };
    let rid: Option<RoundId> = at(part, &["message_with_metadata", "metadata", "round_id"]).and_then(from_v).ok();
    if !alone {
        if !echo {
            add("of another session", resign(part, kind, &sid("evidence 2"), None, by, false));
        }
        add("of another round", resign(part, kind, &sn, Some(&RoundId::new(44)), by, false));
        for r in 1..=3u8 {
            if rid != Some(RoundId::new(r)) {
                add("of another round", resign(part, kind, &sn, Some(&RoundId::new(r)), by, false));
            }
            if let Ok(e) = echo_id(&RoundId::new(r)) {
                if rid != Some(e.clone()) && !echo {
                    add("of an echo round", resign(part, kind, &sn, Some(&e), by, false));
                }
            }
        }
        add("of a grouped round", grouped(1, &[1], false).and_then(|g| resign(part, kind, &sn, Some(&g), by, false)));
        if !mismatch {
            add("with another payload", resign(part, kind, &sn, None, by, true));
        }
    }
    add("signed by another", resign(part, kind, &sn, None, Vid(77), false));
    add("signed by another", resign(part, kind, &sn, None, if by == BAD { HON } else { BAD }, false));
    let changed = |path: &[&str], new: &dyn Fn(&mut Value) -> R<()>| {
        let mut v = part.clone();
        new(at_mut(&mut v, path)?)?;
        Ok(v)
    };
    add("with a changed signature", changed(&["signature"], &|s| flip(s, 6)));
    add("with an unreadable signature", changed(&["signature"], &|s| {
        *s = hex_text(b"nothing", s)?;
        Ok(())
    }));
    add("with an empty signature", changed(&["signature"], &|s| {
        *s = hex_text(b"", s)?;
        Ok(())
    }));
    add("with an unsigned payload", changed(&["message_with_metadata", "message"], &|s| {
        *s = Value::String(base64(b"\"unsigned\""));
        Ok(())
    }));
    add("without its payload", changed(&["message_with_metadata", "message"], &|s| {
        *s = if s.is_null() { Value::String(base64(b"")) } else { Value::Null };
        Ok(())
    }));
    add("with an unsigned session", changed(&["message_with_metadata", "metadata", "session_id"], &|s| flip(s, 3)));
    for o in others {
        add("exchanged for another part", Ok(o.clone()));
    }
    out
}

pub fn is_part(v: &Value) -> bool {
    v.get("signature").is_some() && v.get("message_with_metadata").is_some()
}

/// Who signed the part at this place, in evidence against `BAD`.
pub fn signer_at(v: &Value, p: &[Step]) -> Vid {
    signer_of(v, p, BAD)
}

pub fn signer_of(v: &Value, p: &[Step], against: Vid) -> Vid {
    // other_echo_broadcasts: [[round, [[id, part], ...]], ...]
    if p.iter().any(|s| matches!(s, Step::Key(k) if k == "other_echo_broadcasts")) {
        let mut q = p.to_vec();
        q.pop();
        q.push(Step::Idx(0));
        if let Some(id) = get(v, &q).and_then(|x| from_v::<Vid>(x).ok()) {
            return id;
        }
    }
    against
}

/// Changed in any one place that matters, evidence does not verify; and checking it is never a local error.
fn break_one(ctx: &mut Ctx, id10: &str, id11: &str, name: &str, v: &Value) {
    let parts: Vec<Value> = all_places(v).iter().filter_map(|p| get(v, p).cloned()).filter(is_part).collect();
    for p in all_places(v) {
        let here = match get(v, &p) {
            Some(h) => h.clone(),
            None => continue,
        };
        if is_part(&here) {
            let kind = match kind_at(&p) {
                Some(k) => k,
                None => continue,
            };
            let alone = matches!(p.last(), Some(Step::Key(k)) if k.starts_with("Invalid"));
            let mismatch = matches!(p.last(), Some(Step::Key(k)) if k == "we_received");
            let echo = p.iter().any(|s| matches!(s, Step::Key(k) if k == "InvalidEcho"));
            for (what, new) in broken_parts(&here, kind, signer_at(v, &p), &parts, alone, echo, mismatch) {
                let mut w = v.clone();
                put(&mut w, &p, new);
                judge(ctx, id10, id11, &format!("{name}, with {} {what}", show(&p)), &w);
            }
            // this part left out
            let mut w = v.clone();
            put(&mut w, &p, Value::Null);
            judge(ctx, id10, id11, &format!("{name}, without {}", show(&p)), &w);
            if matches!(p.last(), Some(Step::Idx(1))) && p.len() >= 2 {
                let mut w = v.clone();
                let list = &p[..p.len() - 2];
                if let (Some(Value::Array(a)), Step::Idx(i)) = (get(v, list), &p[p.len() - 2]) {
                    let mut a = a.clone();
                    a.remove(*i);
                    put(&mut w, list, Value::Array(a));
                    judge(ctx, id10, id11, &format!("{name}, without {}", show(&p)), &w);
                }
                // under another round or party
                let mut q = p.clone();
                q.pop();
                q.push(Step::Idx(0));
                if let Some(k) = get(v, &q) {
                    let new = if k.is_number() { json!(9) } else { json!(to_v(&RoundId::new(9)).unwrap()) };
                    let mut w = v.clone();
                    put(&mut w, &q, new);
                    judge(ctx, id10, id11, &format!("{name}, with {} filed under another key", show(&p)), &w);
                }
            }
        }
    }
    for (what, w) in moved(v) {
        judge(ctx, id10, id11, &format!("{name}, with {what}"), &w);
    }
    for other in [ME, HON, OTH, Vid(77)] {
        let mut w = v.clone();
        if let Ok(x) = at_mut(&mut w, &["guilty_party"]) {
            *x = to_v(&other).unwrap();
            judge(ctx, id10, id11, &format!("{name}, accusing {other:?}"), &w);
        }
    }
}

/// Evidence of a protocol error in which what is from one round is said, and signed, in another one instead.
fn moved(v: &Value) -> Vec<(String, Value)> {
    let mut out = vec![];
    let sn = session_name();
    for (kind, field) in [(0, "direct_messages"), (1, "echo_broadcasts"), (2, "normal_broadcasts")] {
        let list = match find(v, field) {
            Some(p) => p,
            None => continue,
        };
        for i in 0..get(v, &list).and_then(|x| x.as_array()).map(|a| a.len()).unwrap_or(0) {
            for to in [1u8, 2, 3, 9] {
                let to = RoundId::new(to);
                let entry = [list.clone(), vec![Step::Idx(i)]].concat();
                let old = match get(v, &entry) {
                    Some(e) => e.clone(),
                    None => continue,
                };
                let taken = get(v, &list).and_then(|x| x.as_array()).map(|a| a.iter().any(|e| from_v::<RoundId>(&e[0]).ok() == Some(to.clone()))).unwrap_or(true);
                if taken {
                    continue;
                }
                if let (Ok(part), Ok(id)) = (resign(&old[1], kind, &sn, Some(&to), BAD, false), to_v(&to)) {
                    let mut w = v.clone();
                    put(&mut w, &entry, json!([id, part]));
                    out.push((format!("entry {i} of {field} from {to} instead"), w));
                }
            }
        }
    }
    // the echo round of another round
    let all = (|| -> R<Value> {
        let (to, one) = (RoundId::new(9), RoundId::new(1));
        let no = || Skip("no combined echos".into());
        let (others, hashes) = (find(v, "other_echo_broadcasts").ok_or(no())?, find(v, "echo_hashes").ok_or(no())?);
        let entry = get(v, &others).and_then(|x| x.get(0)).cloned().ok_or(no())?;
        if from_v::<RoundId>(&entry[0])? != one {
            return skip("unexpected");
        }
        let (mut broadcasts, mut es) = (vec![], vec![]);
        for e in entry[1].as_array().ok_or(no())? {
            let id: Vid = from_v(&e[0])?;
            let text = payload_of(&e[1])?.map(|b| raw(&b));
            let m = craft(&sn, &to, id, ME, &[None, text, None], 12)?;
            broadcasts.push(json!([id, part_v(&m, 1)?]));
            es.push((id, hash_of(&sn, &to, id, &m)?));
        }
        let m = craft_echo(&sn, &to, BAD, ME, &es)?;
        let mut w = v.clone();
        put(&mut w, &others, json!([[to_v(&to)?, broadcasts]]));
        put(&mut w, &hashes, json!([[to_v(&to)?, part_v(&m, 2)?]]));
        Ok(w)
    })();
    if let Ok(w) = all {
        out.push(("the combined echos of round 9 instead".into(), w));
    }
    out
}

fn judge(ctx: &mut Ctx, id10: &str, id11: &str, what: &str, v: &Value) {
    let got = verify(v);
    if !id10.is_empty() {
        ctx.check(id10, got != Verdict::Confirmed, || format!("{what}: the evidence verifies: {v}"));
    }
    if !id11.is_empty() {
        ctx.check(id11, !matches!(got, Verdict::Local(_) | Verdict::Panic(_)), || format!("{what}: {got:?}: {v}"));
    }
}

/// Evidence of every other kind, from real sessions: (name, evidence, must it verify?).
pub fn other_kinds(ctx: &mut Ctx) -> Vec<(String, Value)> {
    setup_registry();
    let mut out = vec![];
    let sn = session_name();
    // malformed parts, in every round
    for round in 1..=2u8 {
        for kind in 0..3 {
            for how in 0..2 {
                let res = (|| -> R<Option<Value>> {
                    let log = new_log();
                    let mut p = parts_in(round, BAD);
                    p[kind] = match (p[kind].is_some(), how) {
                        (true, 0) => None,
                        (true, _) => Some(raw(b"{malformed")),
                        (false, 0) => Some("present".into()),
                        (false, _) => Some(raw(b"{malformed")),
                    };
                    let mut spec = script(0, None).rounds[round as usize - 1].clone();
                    spec.fin = Fin::Result("done".into());
                    let s: S<K> = start(&Arc::new(Script { rounds: vec![spec] }), ME, &sn, &log, 3)?;
                    let mut a = s.make_accumulator();
                    let m = msg(&sn, round, BAD, &p)?;
                    match feed(&s, &mut a, BAD, &m) {
                        Fed::Processed => {}
                        x => return skip(format!("{x:?}")),
                    }
                    let rep = s.terminate(a)?;
                    match rep.provable_errors.get(&BAD) {
                        Some(e) => to_v(e).map(Some),
                        None => Ok(None),
                    }
                })();
                let name = format!("a malformed {} in round {round} ({})", PARTS[kind], ["wrong presence", "garbage"][how]);
                match res {
                    Ok(Some(v)) => out.push((name, v)),
                    Ok(None) => ctx.fail("no-evidence", format!("{name}: no evidence was made")),
                    Err(e) => ctx.skipped.push(format!("{name}: {}", e.0)),
                }
            }
        }
    }
    // the echo round
    for what in ["bad signature", "unreadable signature", "other session", "other round", "another broadcast", "direct part", "echo part", "no normal part", "garbage", "duplicate"] {
        let res = (|| -> R<Option<(Vid, Value)>> {
            let log = new_log();
            let s: S<K> = start(&script(0, None), ME, &sn, &log, 3)?;
            let mut a = s.make_accumulator();
            let mut bs = BTreeMap::from([(ME, my_broadcast(&s)?)]);
            for p in [BAD, HON, OTH] {
                let m = msg(&sn, 1, p, &parts_in(1, p))?;
                match feed(&s, &mut a, p, &m) {
                    Fed::Processed => {}
                    x => return skip(format!("{x:?}")),
                }
                bs.insert(p, m);
            }
            let s = match s.finalize_round(&mut rng(2), a)? {
                RoundOutcome::AnotherRound { session, .. } => session,
                _ => return skip("no echo round"),
            };
            let mut a = s.make_accumulator();
            let one = RoundId::new(1);
            let mut from = BAD;
            let mut es = echo_entries(&sn, BAD, &bs)?;
            let i = es.iter().position(|e| e.0 == OTH).unwrap();
            let m = match what {
                "bad signature" => {
                    flip(at_mut(&mut es[i].1, &["signature"])?, 6)?;
                    craft_echo(&sn, &one, BAD, ME, &es)?
                }
                "unreadable signature" => {
                    let x = at_mut(&mut es[i].1, &["signature"])?;
                    *x = hex_text(b"zz", x)?;
                    craft_echo(&sn, &one, BAD, ME, &es)?
                }
                "other session" => {
                    let o = sid("evidence 2");
                    es[i].1 = hash_of(&o, &one, OTH, &msg(&o, 1, OTH, &parts_in(1, OTH))?)?;
                    craft_echo(&sn, &one, BAD, ME, &es)?
                }
                "other round" => {
                    es[i].1 = hash_of(&sn, &RoundId::new(3), OTH, &msg(&sn, 3, OTH, &parts_in(3, OTH))?)?;
                    craft_echo(&sn, &one, BAD, ME, &es)?
                }
                "another broadcast" => {
                    // `OTH` echoes another broadcast of `BAD`
                    from = OTH;
                    let mut es = echo_entries(&sn, OTH, &bs)?;
                    let i = es.iter().position(|e| e.0 == BAD).unwrap();
                    let mut p = parts_in(1, BAD);
                    p[1] = Some("BAD other broadcast".into());
                    es[i].1 = hash_of(&sn, &one, BAD, &msg(&sn, 1, BAD, &p)?)?;
                    craft_echo(&sn, &one, OTH, ME, &es)?
                }
                _ => {
                    let mut p: Parts = [None, None, Some(raw(&serde_json::to_vec(&body_of(&es)).unwrap()))];
                    match what {
                        "direct part" => p[0] = Some("direct".into()),
                        "echo part" => p[1] = Some("echo".into()),
                        "no normal part" => p[2] = None,
                        "garbage" => p[2] = Some(raw(b"{garbage")),
                        _ => {
                            let mut d = es.clone();
                            d.push(es[0].clone());
                            p[2] = Some(raw(&serde_json::to_vec(&body_of(&d)).unwrap()));
                        }
                    }
                    craft(&sn, &echo_id(&one)?, BAD, ME, &p, 6)?
                }
            };
            match feed(&s, &mut a, from, &m) {
                Fed::Processed => {}
                x => return skip(format!("{x:?}")),
            }
            let rep = s.terminate(a)?;
            match rep.provable_errors.iter().next() {
                Some((id, e)) => Ok(Some((*id, to_v(e)?))),
                None => Ok(None),
            }
        })();
        let name = format!("an echo message with {what}");
        match res {
            Ok(Some((id, v))) => {
                if id != BAD || v.get("guilty_party") != to_v(&BAD).ok().as_ref() {
                    ctx.fail("wrong-guilty-party", format!("{name}: {id:?} is blamed: {v}"));
                }
                out.push((name, v))
            }
            Ok(None) => ctx.fail("no-evidence", format!("{name}: no evidence was made")),
            Err(e) => ctx.skipped.push(format!("{name}: {}", e.0)),
        }
    }
    out
}

/// P09, P08, P07: evidence of the library's own kinds verifies.
pub fn complete_others(ctx: &mut Ctx) {
    for (name, v) in other_kinds(ctx) {
        let got = verify(&v);
        ctx.check("evidence-does-not-verify", got == Verdict::Confirmed, || format!("{name}: {got:?}; {v}"));
    }
}

/// P10, P11: evidence changed in one place.
pub fn broken(ctx: &mut Ctx, p10: bool, p11: bool) {
    let id10 = if p10 { "changed-evidence-verifies" } else { "" };
    let id11 = if p11 { "hostile-evidence-fails-locally" } else { "" };
    STRICT.with(|s| *s.borrow_mut() = true);
    for (name, v) in other_kinds(ctx) {
        break_one(ctx, id10, id11, &name, &v);
    }
    setup_registry();
    let mut r = rng(ctx.seed ^ 99);
    let th = ctx.thorough;
    let all = protocol_evidence(ctx, th, "evidence-not-made");
    // when the same is said in all the rounds, it still has to be there from each of them
    SAME.with(|s| s.set(true));
    for (i, (name, _, v)) in protocol_evidence(ctx, th, "evidence-not-made").iter().enumerate() {
        if th || i % 7 == 0 {
            break_one(ctx, id10, id11, &format!("{name}, all rounds alike"), v);
        }
    }
    SAME.with(|s| s.set(false));
    for (i, (name, spec, v)) in all.iter().enumerate() {
        let big = spec.prev.len() == 2 && !spec.combined.is_empty();
        if th || i % 9 == 0 || (big && i % 3 == 0) {
            break_one(ctx, id10, id11, name, v);
        }
        // the list of echoed hashes, as the offender can sign whatever it likes
        if !spec.combined.is_empty() && (th || coin(&mut r, 8)) {
            break_hashes(ctx, id10, id11, name, v);
        }
    }
    STRICT.with(|s| *s.borrow_mut() = false);
}

fn find(v: &Value, name: &str) -> Option<Vec<Step>> {
    all_places(v).into_iter().find(|p| matches!(p.last(), Some(Step::Key(k)) if k == name))
}

fn break_hashes(ctx: &mut Ctx, id10: &str, id11: &str, name: &str, v: &Value) {
    let mut p = match find(v, "echo_hashes") {
        Some(p) => p,
        None => return,
    };
    p.push(Step::Idx(0));
    p.push(Step::Idx(1));
    let part = match get(v, &p) {
        Some(x) => x.clone(),
        None => return,
    };
    let body: Value = match payload_of(&part).ok().flatten().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(b) => b,
        None => return,
    };
    let es = match entries(&body) {
        Ok(e) => e,
        Err(_) => return,
    };
    let sn = session_name();
    let one = RoundId::new(1);
    let mut alts: Vec<(String, Vec<Value>)> = vec![];
    for i in 0..es.len() {
        let id: Vid = match from_v(&es[i][0]) {
            Ok(i) => i,
            Err(_) => return,
        };
        let mut rep = |what: &str, h: R<Value>| {
            if let Ok(h) = h {
                let mut e = es.clone();
                e[i] = json!([id, h]);
                alts.push((format!("the echoed hash of {id:?} {what}"), e));
            }
        };
        let flipped = |path: &[&str]| {
            let mut h = es[i][1].clone();
            flip(at_mut(&mut h, path)?, 3)?;
            Ok(h)
        };
        rep("changed", flipped(&["message_part_hash"]));
        rep("with a changed signature", flipped(&["signature"]));
        let m = |s: &SessionId, r: u8, t: String| craft(s, &RoundId::new(r), id, ME, &[None, Some(t), None], 3);
        let o = sid("evidence 2");
        rep("of another session", m(&o, 1, text(1, 1, id)).and_then(|x| hash_of(&o, &one, id, &x)));
        rep("of another round", m(&sn, 3, text(1, 1, id)).and_then(|x| hash_of(&sn, &RoundId::new(3), id, &x)));
        rep("of another broadcast", m(&sn, 1, "another".into()).and_then(|x| hash_of(&sn, &one, id, &x)));
        if let Ok(h) = at(&es[i][1], &["message_part_hash"]).and_then(unhex) {
            for (what, b) in [("empty", vec![]), ("half", h[..h.len() / 2].to_vec()), ("tail", h[1..].to_vec())] {
                let x = hash_signed_anew(&sn, &one, id, &es[i][1], &b);
                if id != BAD {
                    rep(&format!("signed by it, but {what}"), x);
                }
            }
        }
        let mut e = es.clone();
        e.remove(i);
        alts.push((format!("no echoed hash of {id:?}"), e));
        let mut e = es.clone();
        e.push(es[i].clone());
        alts.push((format!("two echoed hashes of {id:?}"), e));
        let mut e = es.clone();
        e.push(json!([Vid(9), es[i][1]]));
        alts.push(("an echoed hash of a stranger".into(), e));
    }
    for (what, e) in alts {
        let body = serde_json::to_vec(&json!({ "message_hashes": e })).unwrap();
        let new = echo_id(&one).and_then(|r| craft(&sn, &r, BAD, ME, &[None, None, Some(raw(&body))], 7)).and_then(|m| part_v(&m, 2));
        if let Ok(new) = new {
            let mut w = v.clone();
            put(&mut w, &p, new);
            judge(ctx, id10, id11, &format!("{name}, with {what}"), &w);
        }
    }
}

/// The digest of the payload of a message part, as it is in a signed hash.
fn part_hash(kind: u8, payload: &Option<Vec<u8>>) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"ProtocolMessagePart");
    h.update([kind]);
    match payload {
        None => h.update([0]),
        Some(p) => {
            h.update([1]);
            h.update((p.len() as u64).to_be_bytes());
            h.update(p);
        }
    }
    h.finalize().to_vec()
}

/// P10: no evidence against a party that only signed well-formed and consistent messages.
pub fn honest(ctx: &mut Ctx) {
    STRICT.with(|s| *s.borrow_mut() = true);
    setup_registry();
    let r = (|| -> R<()> {
        let sn = session_name();
        let so = sid("evidence 2");
        // everything `HON` ever signed
        let mut signed: Vec<(SessionId, RoundId, M)> = vec![];
        let mut broadcasts = BTreeMap::new();
        for p in [ME, BAD, HON, OTH] {
            broadcasts.insert(p, msg(&sn, 1, p, &parts_in(1, p))?);
        }
        for s in [&sn, &so] {
            for r in 1..=3u8 {
                signed.push((s.clone(), RoundId::new(r), msg(s, r, HON, &parts_in(r, HON))?));
            }
        }
        let es = echo_entries(&sn, HON, &broadcasts)?;
        let e1 = echo_id(&RoundId::new(1))?;
        signed.push((sn.clone(), e1.clone(), craft_echo(&sn, &RoundId::new(1), HON, ME, &es)?));
        // in a main round, a broadcast that looks like an echo message with errors in it
        let mut bad_es = echo_entries(&sn, HON, &broadcasts)?;
        for e in &mut bad_es {
            flip(at_mut(&mut e.1, &["signature"])?, 6)?;
        }
        let mut lookalike = RoundSpec::new(ti(RoundId::new(4)), [false, false, true], &[HON]);
        lookalike.normal = raw(&serde_json::to_vec(&body_of(&bad_es)).unwrap());
        let look = craft(&sn, &RoundId::new(2), HON, ME, &[Some(text(0, 2, HON)), None, Some(lookalike.normal.clone())], 3)?;

        let acc = |evidence: Value| json!({"guilty_party": HON, "description": "a lie", "evidence": evidence});
        // malformed parts: each of its parts, as each kind
        for (s, r, m) in &signed {
            for i in 0..3 {
                for (j, name) in ["InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast"].iter().enumerate() {
                    let v = acc(json!({ *name: part_v(m, i)? }));
                    judge(ctx, "honest-party-accused", "", &format!("{} of {r} in {s:?} as {name}", PARTS[i]), &v);
                    let _ = j;
                }
            }
        }
        // invalid echo
        for (s, r, m) in signed.iter().chain([(sn.clone(), RoundId::new(2), look)].iter()) {
            for i in 0..3 {
                for id in [ME, BAD, HON, OTH, Vid(9)] {
                    let v = acc(json!({"InvalidEcho": {"normal_broadcast": part_v(m, i)?, "error": {"invalid_echo_sender": id}}}));
                    judge(ctx, "honest-party-accused", "", &format!("{} of {r} in {s:?} as an invalid echo of {id:?}", PARTS[i]), &v);
                }
            }
        }
        // mismatched broadcasts: every two of its parts
        for (s1, r1, m1) in &signed {
            for k1 in 0..3 {
                let we = part_v(m1, k1)?;
                for (s2, r2, m2) in &signed {
                    for k2 in 0..3 {
                        let o = part_v(m2, k2)?;
                        let pay = payload_of(&o)?;
                        let like = at(&o, &["signature"])?.clone();
                        for hk in 0..3u8 {
                            let h = json!({
                                "signature": like.clone(),
                                "metadata": at(&o, &["message_with_metadata", "metadata"])?,
                                "message_part_hash": hex_text(&part_hash(hk, &pay), &like)?,
                            });
                            for inner in [HON, BAD] {
                                let v = acc(json!({"MismatchedBroadcasts": {"error": {"guilty_party": inner, "we_received": we, "echoed_to_us": h}}}));
                                judge(ctx, "honest-party-accused", "", &format!(
                                    "{} of {r1} in {s1:?} against the hash of {} of {r2} in {s2:?}", PARTS[k1], PARTS[k2]), &v);
                            }
                        }
                    }
                }
            }
        }
        // protocol errors: the offender's evidence, with its parts exchanged for those of the honest party
        for (at_, this, prev, comb) in [
            (1u8, [true, true, true], vec![], false),
            (2, [false, true, true], vec![(1u8, [true, true, true])], true),
            (3, [true, true, true], vec![(1, [true, true, true]), (2, [false, true, true])], true),
            (3, [true, false, false], vec![], false),
        ] {
            let spec = spec_for(at_, this, &prev, comb);
            let v = match offend(at_, &spec) {
                Ok(v) => v,
                Err(e) => {
                    ctx.skipped.push(e.1);
                    continue;
                }
            };
            let mine: Vec<Vec<Step>> = all_places(&v)
                .into_iter()
                .filter(|p| get(&v, p).map(is_part).unwrap_or(false) && signer_at(&v, p) == BAD)
                .collect();
            for mask in 0..(1u32 << mine.len().min(10)) {
                if mine.len() > 5 && mask % 7 != 0 && mask.count_ones() > 1 && mask != (1 << mine.len()) - 1 {
                    continue;
                }
                let mut w = v.clone();
                for (i, p) in mine.iter().enumerate() {
                    if mask >> i & 1 == 0 {
                        continue;
                    }
                    let old = get(&v, p).unwrap();
                    let rid: RoundId = from_v(at(old, &["message_with_metadata", "metadata", "round_id"])?)?;
                    let kind = kind_at(p).unwrap_or(0);
                    for (s, r, m) in &signed {
                        if *s == sn && *r == rid {
                            put(&mut w, p, part_v(m, kind)?);
                        }
                    }
                }
                *at_mut(&mut w, &["guilty_party"])? = to_v(&HON)?;
                // the error itself is not signed: it claims what is needed
                for claims_honest in [false, true] {
                    if claims_honest {
                        let mut spec2 = spec.clone();
                        spec2.from = HON;
                        let t = |x: &Option<String>| x.as_ref().map(|x| x.replace("BAD ", "").replace("from 1", "from 2"));
                        spec2.this = [t(&spec.this[0]), t(&spec.this[1]), t(&spec.this[2])];
                        for (a, b) in spec2.prev.iter_mut().zip(&spec.prev) {
                            a.1 = [t(&b.1[0]), t(&b.1[1]), t(&b.1[2])];
                        }
                        if let Some(c) = spec2.combined.get_mut(0) {
                            c.1 = [ME, BAD, OTH].iter().map(|v| (*v, text(1, 1, *v))).collect();
                        }
                        let bytes = serde_json::to_vec(&json!({ "spec": spec2 })).unwrap();
                        *at_mut(&mut w, &["evidence", "Protocol", "error"])? = json!(base64(&bytes));
                    }
                    judge(ctx, "honest-party-accused", "", &format!("a protocol error in round {at_} with honest parts (choice {mask:b})"), &w);
                }
            }
        }
        Ok(())
    })();
    if let Err(e) = r {
        ctx.skipped.push(e.0);
    }
    STRICT.with(|s| *s.borrow_mut() = false);
}

/// P11: arbitrary changes, several at once.
pub fn hostile(ctx: &mut Ctx, n: u64) {
    let mut pool: Vec<Value> = other_kinds(ctx).into_iter().map(|x| x.1).collect();
    pool.extend(protocol_evidence(ctx, false, "evidence-not-made").into_iter().map(|x| x.2));
    if pool.is_empty() {
        return;
    }
    let mut r = rng(ctx.seed ^ 0xabcdef);
    let mut confirmed = 0;
    for _ in 0..n {
        let mut v = pick(&mut r, &pool).clone();
        for _ in 0..1 + r.next_u32() % 3 {
            let ps = all_places(&v);
            let p = pick(&mut r, &ps).clone();
            let donor = pick(&mut r, &pool).clone();
            let here = get(&v, &p).cloned().unwrap_or(Value::Null);
            let new = match (&here, r.next_u32() % 4) {
                (Value::Number(_), 0) => json!(r.next_u32() % 256),
                (Value::Array(a), 0) if !a.is_empty() => {
                    let mut a = a.clone();
                    a.remove((r.next_u32() as usize) % a.len());
                    Value::Array(a)
                }
                (Value::Array(a), 1) => {
                    let mut b = a.clone();
                    if a.is_empty() {
                        b.push(json!((r.next_u32() % 4) as u8));
                    } else {
                        b.push(a[0].clone());
                    }
                    Value::Array(b)
                }
                (Value::Bool(b), 0) => json!(!b),
                (Value::String(_), 0) => {
                    let mut s = here.clone();
                    let _ = flip(&mut s, (r.next_u32() % 12) as usize);
                    s
                }
                (Value::String(_), 1) => json!(""),
                _ => {
                    // something of the same shape from elsewhere
                    let same: Vec<Value> = all_places(&donor)
                        .iter()
                        .filter_map(|q| get(&donor, q).cloned())
                        .filter(|x| match (x, &here) {
                            (Value::Object(a), Value::Object(b)) => a.keys().eq(b.keys()),
                            (Value::Array(a), Value::Array(b)) => a.len() == b.len() || a.is_empty() || b.is_empty(),
                            _ => std::mem::discriminant(x) == std::mem::discriminant(&here) || x.is_null() || here.is_null(),
                        })
                        .collect();
                    if same.is_empty() {
                        continue;
                    }
                    pick(&mut r, &same).clone()
                }
            };
            put(&mut v, &p, new);
        }
        let got = verify(&v);
        if got == Verdict::Confirmed {
            confirmed += 1;
        }
        ctx.check("hostile-evidence-fails-locally", !matches!(got, Verdict::Local(_) | Verdict::Panic(_)), || format!("{got:?}: {v}"));
    }
    ctx.counts.insert("hostile evidence that still verifies".into(), confirmed);
}
