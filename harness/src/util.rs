//! Making messages of every kind, honest or not, through the public API and the serialized form.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::*;
use manul::session::*;
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use serde_json::{json, Value};

use crate::puppet::*;

pub type S<const K: usize> = Session<Puppet<K>, Sp>;
pub type Acc<const K: usize> = RoundAccumulator<Puppet<K>, Sp>;
pub type Report<const K: usize> = SessionReport<Puppet<K>, Sp>;
pub type M = Message<Vid>;

/// The reports of one run of the harness.
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub failures: Vec<(String, String)>,
    pub evaluations: u64,
    pub skipped: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    /// If not empty, the statements this property is about; the scenario's other checks belong to other properties.
    pub only: Vec<&'static str>,
}

impl Ctx {
    pub fn fail(&mut self, id: &str, what: impl Into<String>) {
        let what = what.into();
        if !self.only.is_empty() && !self.only.contains(&id) {
            return;
        }
        if self.failures.iter().filter(|(i, _)| i == id).count() < 3 {
            self.failures.push((id.to_string(), what));
        }
    }
    pub fn check(&mut self, id: &str, ok: bool, what: impl FnOnce() -> String) -> bool {
        self.evaluations += 1;
        if !ok {
            let w = what();
            self.fail(id, w);
        }
        ok
    }
    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_insert(0) += 1;
    }
    /// Runs a scenario; a panic anywhere in it is reported, except the harness's own `Skip`.
    pub fn scenario(&mut self, id: &str, f: impl FnOnce(&mut Ctx) -> Result<(), Skip>) {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        self.only.clear();
        match r {
            Ok(Ok(())) => self.count("scenarios"),
            Ok(Err(Skip(why))) => self.skipped.push(format!("{id}: {why}")),
            Err(p) => {
                let msg = panic_text(&p);
                self.fail(id, format!("the code under test panicked: {msg}"));
            }
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// The harness could not set the scenario up (not a statement about the code).
#[derive(Debug)]
pub struct Skip(pub String);

pub type R<T> = Result<T, Skip>;

pub fn skip<T>(why: impl Into<String>) -> R<T> {
    Err(Skip(why.into()))
}

impl From<LocalError> for Skip {
    fn from(e: LocalError) -> Self {
        Skip(format!("{e}"))
    }
}

pub fn rng(seed: u64) -> ChaCha8Rng {
    ChaCha8Rng::seed_from_u64(seed)
}

pub fn sid(name: &str) -> SessionId {
    SessionId::from_seed::<Sp>(name.as_bytes())
}

/// The identifier of the echo round of a round (there is no public constructor, so by its serialized form).
pub fn echo_id(r: &RoundId) -> R<RoundId> {
    let mut v = serde_json::to_value(r).map_err(|e| Skip(e.to_string()))?;
    match v.get_mut("is_echo") {
        Some(x) => *x = json!(true),
        None => return skip("the serialized round id has no is_echo"),
    }
    serde_json::from_value(v).map_err(|e| Skip(e.to_string()))
}

/// A round identifier in groups (innermost first).
pub fn grouped(round: u8, groups: &[u8], echo: bool) -> R<RoundId> {
    let mut v = serde_json::to_value(RoundId::new(round)).map_err(|e| Skip(e.to_string()))?;
    match v.get_mut("groups") {
        Some(x) => *x = json!(groups),
        None => return skip("the serialized round id has no groups"),
    }
    v["is_echo"] = json!(echo);
    serde_json::from_value(v).map_err(|e| Skip(e.to_string()))
}

pub fn ti(id: RoundId) -> TransitionInfo {
    TransitionInfo { id, parents: BTreeSet::new(), siblings: BTreeSet::new(), children: BTreeSet::new(), may_produce_result: true }
}

/// Everything in a part: `None` is an absent part.
pub type Parts = [Option<String>; 3];

pub fn parts(d: Option<&str>, e: Option<&str>, n: Option<&str>) -> Parts {
    [d.map(|s| s.to_string()), e.map(|s| s.to_string()), n.map(|s| s.to_string())]
}

/// A message signed by `from` with exactly these parts, for any session and round.
pub fn craft(session: &SessionId, round: &RoundId, from: Vid, to: Vid, p: &Parts, seed: u64) -> R<M> {
    let mut spec = RoundSpec::new(ti(round.clone()), [p[0].is_some(), p[1].is_some(), p[2].is_some()], &[to]);
    spec.direct = BTreeMap::from([(to, p[0].clone().unwrap_or_default())]);
    spec.echo = p[1].clone().unwrap_or_default();
    spec.normal = p[2].clone().unwrap_or_default();
    // the session must not want an echo round's information from an echo round
    spec.ci.echo_round_participation = EchoRoundParticipation::Send;
    let ep = Entry::<9> { script: Arc::new(Script { rounds: vec![spec] }), log: new_log(), draw_rng: false };
    let mut r = rng(seed);
    let s: S<9> = Session::new(&mut r, session.clone(), Sgn(from.0), ep)?;
    let (m, _) = s.make_message(&mut r, &to)?;
    Ok(m)
}

pub fn to_v<T: serde::Serialize>(m: &T) -> R<Value> {
    serde_json::to_value(m).map_err(|e| Skip(e.to_string()))
}

pub fn from_v<T: serde::de::DeserializeOwned>(v: &Value) -> R<T> {
    serde_json::from_value(v.clone()).map_err(|e| Skip(e.to_string()))
}

pub const PARTS: [&str; 3] = ["direct_message", "echo_broadcast", "normal_broadcast"];

/// The serialized signed part `i` of a message.
pub fn part_v(m: &M, i: usize) -> R<Value> {
    let v = to_v(m)?;
    match v.get(PARTS[i]) {
        Some(p) => Ok(p.clone()),
        None => skip("no such part in the serialized message"),
    }
}

/// The message with part `i` replaced.
pub fn with_part(m: &M, i: usize, part: Value) -> R<M> {
    let mut v = to_v(m)?;
    if v.get(PARTS[i]).is_none() {
        return skip("no such part in the serialized message");
    }
    v[PARTS[i]] = part;
    from_v(&v)
}

pub fn at<'a>(v: &'a Value, path: &[&str]) -> R<&'a Value> {
    let mut v = v;
    for p in path {
        v = match v.get(p) {
            Some(x) => x,
            None => return skip(format!("no {p} in the serialized form")),
        };
    }
    Ok(v)
}

pub fn at_mut<'a>(v: &'a mut Value, path: &[&str]) -> R<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v.get_mut(p) {
            Some(x) => x,
            None => return skip(format!("no {p} in the serialized form")),
        };
    }
    Ok(v)
}

/// Changes one digit of a serialized byte string, at a place well inside of it.
pub fn flip(v: &mut Value, from_end: usize) -> R<()> {
    let s = match v.as_str() {
        Some(s) => s.to_string(),
        None => return skip("not a string"),
    };
    let mut b = s.into_bytes();
    if b.len() < from_end + 4 {
        return skip("too short to change");
    }
    let i = b.len() - 1 - from_end;
    b[i] = match b[i] {
        b'0' => b'1',
        b'A' => b'B',
        b'a' => b'b',
        b'1'..=b'9' => b'0',
        b'b'..=b'z' => b'a',
        _ => b'A',
    };
    *v = Value::String(String::from_utf8(b).unwrap());
    Ok(())
}

/// A serialized signature that does not deserialize.
pub fn hex_text(bytes: &[u8], like: &Value) -> R<Value> {
    let s = like.as_str().ok_or(Skip("not a string".into()))?;
    let mut out = String::new();
    if s.starts_with("0x") {
        out.push_str("0x");
    }
    for b in bytes {
        out.push_str(&format!("{b:02x}"));
    }
    Ok(json!(out))
}

pub fn unhex(v: &Value) -> R<Vec<u8>> {
    let s = v.as_str().ok_or(Skip("not a string".into()))?;
    let s = s.strip_prefix("0x").unwrap_or(s);
    let mut out = Vec::new();
    for c in s.as_bytes().chunks(2) {
        let t = std::str::from_utf8(c).map_err(|e| Skip(e.to_string()))?;
        out.push(u8::from_str_radix(t, 16).map_err(|e| Skip(e.to_string()))?);
    }
    Ok(out)
}

const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn unbase64(v: &Value) -> R<Vec<u8>> {
    let s = v.as_str().ok_or(Skip("not a string".into()))?;
    let mut out = Vec::new();
    let mut acc = 0u32;
    let mut bits = 0;
    for c in s.bytes() {
        if c == b'=' {
            break;
        }
        let x = B64.iter().position(|b| *b == c || (*b == b'+' && c == b'-') || (*b == b'/' && c == b'_'));
        let x = x.ok_or(Skip("not base64".into()))? as u32;
        acc = (acc << 6) | x;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Ok(out)
}

pub fn base64(b: &[u8]) -> String {
    let mut out = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}

/// The payload bytes of a serialized signed part (`None`: the part is absent).
pub fn payload_of(part: &Value) -> R<Option<Vec<u8>>> {
    let v = at(part, &["message_with_metadata", "message"])?;
    if v.is_null() {
        return Ok(None);
    }
    unbase64(v).map(Some)
}

/// Puts a message into a session and returns what preprocessing said.
pub fn pre<const K: usize>(s: &S<K>, a: &mut Acc<K>, from: Vid, m: &M) -> Result<PreprocessOutcome<Vid>, LocalError> {
    s.preprocess_message(a, &from, m.clone())
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Fed {
    Processed,
    Cached,
    Refused(String),
    Local(String),
}

/// Preprocesses, processes and adds a message.
pub fn feed<const K: usize>(s: &S<K>, a: &mut Acc<K>, from: Vid, m: &M) -> Fed {
    match pre(s, a, from, m) {
        Err(e) => Fed::Local(format!("preprocess_message: {e}")),
        Ok(PreprocessOutcome::Cached) => Fed::Cached,
        Ok(PreprocessOutcome::Error(e)) => Fed::Refused(format!("{e}")),
        Ok(PreprocessOutcome::ToProcess(v)) => {
            let p = s.process_message(*v);
            match s.add_processed_message(a, p) {
                Ok(()) => Fed::Processed,
                Err(e) => Fed::Local(format!("add_processed_message: {e}")),
            }
        }
    }
}

pub fn start<const K: usize>(script: &Arc<Script>, me: Vid, session: &SessionId, log: &Log, seed: u64) -> R<S<K>> {
    let ep = Entry::<K> { script: script.clone(), log: log.clone(), draw_rng: false };
    Ok(Session::new(&mut rng(seed), session.clone(), Sgn(me.0), ep)?)
}

/// Makes the messages of this round, records the artifacts.
pub fn outgoing<const K: usize>(s: &S<K>, a: &mut Acc<K>, seed: u64) -> R<BTreeMap<Vid, M>> {
    let mut r = rng(seed);
    let mut out = BTreeMap::new();
    for d in s.message_destinations().clone() {
        let (m, art) = s.make_message(&mut r, &d)?;
        s.add_artifact(a, art)?;
        out.insert(d, m);
    }
    Ok(out)
}

/// A party (after it received the echo broadcast in `m` from `from`) in the echo round, and whom it echoes to.
fn echoing(session: &SessionId, round: &RoundId, from: Vid, m: &M) -> R<(Box<S<9>>, Vid, Vid)> {
    let me = Vid(from.0.wrapping_add(100));
    let third = Vid(from.0.wrapping_add(101));
    let has_d = payload_of(&part_v(m, 0)?)?.is_some();
    let has_n = payload_of(&part_v(m, 2)?)?.is_some();
    let mut spec = RoundSpec::new(ti(round.clone()), [has_d, true, has_n], &[from, third]);
    spec.ci.message_destinations = set(&[third]);
    spec.ci.expecting_messages_from = set(&[from]);
    let log = new_log();
    let script = Arc::new(Script { rounds: vec![spec] });
    let s: S<9> = start(&script, me, session, &log, 77)?;
    let mut a = s.make_accumulator();
    match feed(&s, &mut a, from, m) {
        Fed::Processed => {}
        x => return skip(format!("the broadcast to echo was not accepted: {x:?}")),
    }
    if s.can_finalize(&a) != CanFinalize::Yes {
        return skip("the round to echo cannot be finalized");
    }
    match s.finalize_round(&mut rng(78), a)? {
        RoundOutcome::AnotherRound { session, .. } => Ok((session, me, third)),
        _ => skip("no echo round"),
    }
}

/// The signed hash (serialized) of the echo broadcast in `m`, as an honest party echoes it.
pub fn hash_of(session: &SessionId, round: &RoundId, from: Vid, m: &M) -> R<Value> {
    let (s, _, third) = echoing(session, round, from, m)?;
    let (em, _) = s.make_message(&mut rng(79), &third)?;
    let body = echo_body(&em)?;
    for e in entries(&body)? {
        if e.get(0) == Some(&to_v(&from)?) {
            return Ok(e[1].clone());
        }
    }
    skip("no echo of the broadcast")
}

/// A signed hash with these bytes in place of the hash, signed by `owner` itself.
/// (What is to be signed is what a recipient of the changed hash checks.)
pub fn hash_signed_anew(session: &SessionId, round: &RoundId, owner: Vid, h: &Value, bytes: &[u8]) -> R<Value> {
    let mut h = h.clone();
    let x = at_mut(&mut h, &["message_part_hash"])?;
    *x = hex_text(bytes, x)?;
    let m = craft(session, round, owner, Vid(owner.0.wrapping_add(100)), &[None, Some("any".into()), None], 3)?;
    let (s, me, third) = echoing(session, round, owner, &m)?;
    let em = craft_echo(session, round, third, me, &[(owner, h.clone()), (me, h.clone())])?;
    let mut a = s.make_accumulator();
    let v = match pre(&s, &mut a, third, &em) {
        Ok(PreprocessOutcome::ToProcess(v)) => v,
        _ => return skip("the echo message was not taken"),
    };
    let before = CHECKED.with(|c| c.borrow().len());
    let _ = s.process_message(*v);
    let digest = CHECKED.with(|c| c.borrow()[before..].iter().find(|(w, _)| *w == owner.0).map(|x| x.1.clone()));
    let digest = digest.ok_or(Skip("the echoed hash was not checked".into()))?;
    let sig = Sig { nonce: 4, mac: mac(owner.0, 4, &digest) };
    let sig = serde_json::to_vec(&sig).map_err(|e| Skip(e.to_string()))?;
    let x = at_mut(&mut h, &["signature"])?;
    *x = hex_text(&sig, x)?;
    Ok(h)
}

/// The content of an echo-round message.
pub fn echo_body(m: &M) -> R<Value> {
    let p = payload_of(&part_v(m, 2)?)?.ok_or(Skip("an echo message without a normal broadcast".into()))?;
    serde_json::from_slice(&p).map_err(|e| Skip(e.to_string()))
}

pub fn entries(body: &Value) -> R<Vec<Value>> {
    match at(body, &["message_hashes"])?.as_array() {
        Some(a) => Ok(a.clone()),
        None => skip("the echoed hashes are not a list"),
    }
}

pub fn body_of(entries: &[(Vid, Value)]) -> Value {
    json!({ "message_hashes": entries.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>() })
}

/// An echo-round message of `from` with exactly these entries.
pub fn craft_echo(session: &SessionId, main: &RoundId, from: Vid, to: Vid, entries: &[(Vid, Value)]) -> R<M> {
    let body = serde_json::to_vec(&body_of(entries)).map_err(|e| Skip(e.to_string()))?;
    craft(session, &echo_id(main)?, from, to, &[None, None, Some(raw(&body))], 5)
}

pub fn pick<'a, T>(r: &mut ChaCha8Rng, xs: &'a [T]) -> &'a T {
    &xs[(r.next_u32() as usize) % xs.len()]
}

pub fn coin(r: &mut ChaCha8Rng, one_in: u32) -> bool {
    r.next_u32() % one_in == 0
}

pub fn keys<K: Ord + Clone, V>(m: &BTreeMap<K, V>) -> BTreeSet<K> {
    m.keys().cloned().collect()
}
