//! Random histories of one session, against a reference state machine written from the properties.
//! Each disagreement is filed under the properties it breaks.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::*;
use manul::session::*;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;
use serde_json::Value;

use crate::puppet::*;
use crate::util::*;

thread_local! {
    static COVER: std::cell::RefCell<BTreeMap<String, u64>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}

fn cover(what: &str) {
    COVER.with(|c| *c.borrow_mut().entry(what.to_string()).or_insert(0) += 1);
}

const ME: Vid = Vid(0);
const K: usize = 1;

type Id = Vid;

/// What an entry of an echo message is.
#[derive(Debug, Clone, PartialEq, Eq)]
enum EntryKind {
    /// A valid signed hash of the echo broadcast with this text.
    Text(String),
    /// A part of the hash of the broadcast with this text / more than it / nothing, signed by its owner.
    Odd(String, u8),
    BadSignature,
    WrongRound,
    WrongSession,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Body {
    /// Texts of the parts (direct, echo, normal); a text starting with `__RAW__` is malformed.
    Plain(Parts),
    /// An echo round's message.
    Echo(Vec<(Id, EntryKind)>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Tamper {
    None,
    /// Part `i` is of another round / session (validly signed).
    Meta(usize, bool),
    /// Part `i` has a changed signature / an undecodable one / a changed payload / is another kind of part.
    Sig(usize),
    SigUndecodable(usize),
    Payload(usize),
    Kind(usize, usize),
}

#[derive(Debug, Clone)]
struct Delivery {
    from: Id,
    signer: Id,
    session_ok: bool,
    round: RoundId,
    body: Body,
    tamper: Tamper,
}

#[derive(Debug, Clone)]
enum Op {
    Deliver(Delivery),
    Process(usize),
    Finalize,
    Terminate,
    GiveUp,
    /// The artifact for this destination is added once more.
    Again(Id),
}

/// The reference state.
struct Model {
    round: RoundId,
    /// The main round if this is an echo round.
    main: Option<usize>,
    idx: usize,
    expecting: BTreeSet<Id>,
    destinations: BTreeSet<Id>,
    expected_echos: BTreeSet<Id>,
    simultaneous: BTreeSet<RoundId>,
    children: BTreeSet<RoundId>,
    has_echo: bool,
    banned: BTreeSet<Id>,
    provable: BTreeSet<Id>,
    unprovable: BTreeSet<Id>,
    all_provable: BTreeSet<Id>,
    all_unprovable: BTreeSet<Id>,
    processing: BTreeSet<Id>,
    handled: BTreeSet<Id>,
    payloads: BTreeMap<Id, String>,
    echo_texts: BTreeMap<Id, String>,
    main_payloads: BTreeMap<Id, String>,
    artifacts: BTreeMap<Id, String>,
    main_artifacts: BTreeMap<Id, String>,
    cached: BTreeMap<(Id, RoundId), Delivery>,
    unverifiable: BTreeSet<Id>,
    /// What the first proof against a party must be made of (one of these signatures).
    proofs: BTreeMap<Id, Vec<String>>,
}

pub struct Mismatch {
    pub props: Vec<&'static str>,
    pub what: String,
}

fn mm<T>(props: &[&'static str], what: impl Into<String>) -> Result<T, Mismatch> {
    Err(Mismatch { props: props.to_vec(), what: what.into() })
}

impl From<Skip> for Mismatch {
    fn from(s: Skip) -> Self {
        Mismatch { props: vec!["skip"], what: s.0 }
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Verdict {
    Process,
    Cache,
    Banned,
    Meta,
    Session,
    Unexpected,
    Duplicate,
    DuplicateCached,
    Round,
    Signature,
}

impl Model {
    fn bans(&self, p: &Id) -> bool {
        self.banned.contains(p) || self.provable.contains(p) || self.unprovable.contains(p)
    }

    fn verdict(&self, d: &Delivery) -> Verdict {
        if self.bans(&d.from) {
            return Verdict::Banned;
        }
        if let Tamper::Meta(_, _) = d.tamper {
            return Verdict::Meta;
        }
        if !d.session_ok {
            return Verdict::Session;
        }
        let this = d.round == self.round;
        if this {
            if !self.expecting.contains(&d.from) {
                return Verdict::Unexpected;
            }
            if self.processing.contains(&d.from) {
                return Verdict::Duplicate;
            }
        } else if self.simultaneous.contains(&d.round) {
            if self.cached.contains_key(&(d.from, d.round.clone())) {
                return Verdict::DuplicateCached;
            }
        } else {
            return Verdict::Round;
        }
        if d.signer != d.from || d.tamper != Tamper::None {
            return Verdict::Signature;
        }
        if this {
            Verdict::Process
        } else {
            Verdict::Cache
        }
    }

    fn can_finalize(&self) -> CanFinalize {
        if self.expecting.iter().all(|p| self.payloads.contains_key(p)) {
            CanFinalize::Yes
        } else if self
            .expecting
            .iter()
            .any(|p| !self.handled.contains(p) && (self.processing.contains(p) || !self.bans(p)))
        {
            CanFinalize::NotYet
        } else {
            CanFinalize::Never
        }
    }
}

struct World {
    equivocator: Option<Id>,
    /// Bad events are this many times rarer.
    calm: u32,
    script: Arc<Script>,
    session: SessionId,
    other_session: SessionId,
    crafted: BTreeMap<String, M>,
    hashes: BTreeMap<String, Value>,
}

fn peers() -> Vec<Id> {
    vec![Vid(1), Vid(2), Vid(3)]
}

fn honest_parts(spec: &RoundSpec, from: Id, r: &RoundId) -> Parts {
    let t = |k: &str| Some(format!("{k} {} of {}", r, from.0));
    [
        if spec.shape[0] { t("d") } else { None },
        if spec.shape[1] { t("e") } else { None },
        if spec.shape[2] { t("n") } else { None },
    ]
}

impl World {
    fn spec_of(&self, r: &RoundId) -> Option<&RoundSpec> {
        self.script.rounds.iter().find(|s| &s.ti.id == r)
    }

    fn raw_message(&mut self, session_ok: bool, r: &RoundId, signer: Id, p: &Parts) -> R<M> {
        let key = format!("{session_ok} {r:?} {signer:?} {p:?}");
        if let Some(m) = self.crafted.get(&key) {
            return Ok(m.clone());
        }
        let s = if session_ok { &self.session } else { &self.other_session };
        let m = craft(s, r, signer, ME, p, 17)?;
        self.crafted.insert(key, m.clone());
        Ok(m)
    }

    fn hash(&mut self, main: &RoundId, owner: Id, kind: &EntryKind) -> R<Value> {
        let key = format!("{main:?} {owner:?} {kind:?}");
        if let Some(v) = self.hashes.get(&key) {
            return Ok(v.clone());
        }
        let text = match kind {
            EntryKind::Text(t) | EntryKind::Odd(t, _) => t.clone(),
            _ => "some broadcast".to_string(),
        };
        let (session_ok, round) = match kind {
            EntryKind::WrongRound => (true, RoundId::new(77)),
            EntryKind::WrongSession => (false, main.clone()),
            _ => (true, main.clone()),
        };
        let m = self.raw_message(session_ok, &round, owner, &[None, Some(text), None])?;
        let s = if session_ok { self.session.clone() } else { self.other_session.clone() };
        let mut v = hash_of(&s, &round, owner, &m)?;
        if *kind == EntryKind::BadSignature {
            flip(at_mut(&mut v, &["signature"])?, 6)?;
        }
        if let EntryKind::Odd(_, how) = kind {
            let h = unhex(at(&v, &["message_part_hash"])?)?;
            let bytes: Vec<u8> = match how {
                0 => vec![],
                1 => h[..h.len() / 2].to_vec(),
                2 => h[..h.len() - 1].to_vec(),
                3 => h[1..].to_vec(),
                _ => h.iter().cloned().chain([0]).collect(),
            };
            v = hash_signed_anew(&s, &round, owner, &v, &bytes)?;
        }
        self.hashes.insert(key, v.clone());
        Ok(v)
    }

    fn message(&mut self, d: &Delivery) -> R<M> {
        let p = match &d.body {
            Body::Plain(p) => p.clone(),
            Body::Echo(es) => {
                let main = match self.script.rounds.iter().find(|s| echo_id(&s.ti.id).map(|e| e == d.round).unwrap_or(false)) {
                    Some(s) => s.ti.id.clone(),
                    None => return skip("an echo message for an unknown round"),
                };
                let mut entries = vec![];
                for (owner, kind) in es {
                    entries.push((*owner, self.hash(&main, *owner, kind)?));
                }
                let body = serde_json::to_vec(&body_of(&entries)).unwrap();
                [None, None, Some(raw(&body))]
            }
        };
        let m = self.raw_message(d.session_ok, &d.round, d.signer, &p)?;
        match &d.tamper {
            Tamper::None => Ok(m),
            Tamper::Meta(i, other_round) => {
                let o = if *other_round {
                    self.raw_message(d.session_ok, &RoundId::new(55), d.signer, &p)?
                } else {
                    self.raw_message(!d.session_ok, &d.round, d.signer, &p)?
                };
                with_part(&m, *i, part_v(&o, *i)?)
            }
            Tamper::Sig(i) => {
                let mut v = part_v(&m, *i)?;
                flip(at_mut(&mut v, &["signature"])?, 6)?;
                with_part(&m, *i, v)
            }
            Tamper::SigUndecodable(i) => {
                let mut v = part_v(&m, *i)?;
                let s = at_mut(&mut v, &["signature"])?;
                *s = hex_text(b"not a signature", s)?;
                with_part(&m, *i, v)
            }
            Tamper::Payload(i) => {
                let mut v = part_v(&m, *i)?;
                let s = at_mut(&mut v, &["message_with_metadata", "message"])?;
                *s = if s.is_null() { Value::String(base64(b"\"x\"")) } else { Value::Null };
                with_part(&m, *i, v)
            }
            Tamper::Kind(i, j) => with_part(&m, *i, part_v(&m, *j)?),
        }
    }
}

fn subset(r: &mut ChaCha8Rng, xs: &[Id], mostly_all: bool) -> BTreeSet<Id> {
    if mostly_all && !coin(r, 4) {
        return set(xs);
    }
    xs.iter().filter(|_| coin(r, 2)).cloned().collect()
}

fn random_script(r: &mut ChaCha8Rng, calm: u32) -> R<Script> {
    let n = 1 + (r.next_u32() % 4) as usize;
    let mut rounds = vec![];
    for i in 0..n {
        let id = RoundId::new(i as u8 + 1);
        let mut t = ti(id.clone());
        if i > 0 {
            t.parents.insert(RoundId::new(i as u8));
        }
        if coin(r, 4) && i > 1 {
            t.parents.insert(RoundId::new(i as u8 - 1));
        }
        if i + 1 < n {
            if !coin(r, 12 * calm) {
                t.children.insert(RoundId::new(i as u8 + 2));
            }
            t.may_produce_result = coin(r, 4);
        }
        for d in [2u8, 3] {
            if coin(r, 4) && i + (d as usize) < n {
                t.children.insert(RoundId::new(i as u8 + 1 + d));
            }
        }
        if coin(r, 5) {
            t.siblings.insert(RoundId::new(i as u8 + 30));
        }
        if coin(r, 6) && i + 2 < n {
            t.siblings.insert(RoundId::new(i as u8 + 3));
        }
        // messages for an echo round further on
        if coin(r, 4) && i + 1 < n {
            t.children.insert(echo_id(&RoundId::new(i as u8 + 2))?);
        }
        let shape = [coin(r, 2), coin(r, 2), coin(r, 2)];
        let mut s = RoundSpec::new(t, shape, &peers());
        s.ci.expecting_messages_from = subset(r, &peers(), true);
        s.ci.message_destinations = subset(r, &peers(), true);
        s.echo = format!("e {} of 0", id);
        s.normal = format!("n {} of 0", id);
        s.ci.echo_round_participation = match r.next_u32() % 5 {
            0 => EchoRoundParticipation::Send,
            1 if shape[1] => EchoRoundParticipation::Receive { echo_targets: subset(r, &peers(), true) },
            _ => EchoRoundParticipation::Default,
        };
        s.fin = if coin(r, 20 * calm) {
            Fin::Result(format!("early result {i}"))
        } else if coin(r, 6 * calm) {
            // with luck a round that was not declared: this one, an earlier or a later one
            Fin::Next((r.next_u32() as usize) % n)
        } else if i + 1 < n { Fin::Next(i + 1) } else { Fin::Result(format!("result {n}")) };
        if coin(r, 40 * calm) {
            s.fin = Fin::Local;
        }
        let session = sid("model");
        for p in peers() {
            let recv = match r.next_u32() % (12 * calm) {
                0 => Recv::Unprovable,
                1 => {
                    let hp = honest_parts(&s, p, &id);
                    // (direct, echo, normal) to (echo, normal, direct)
                    let mut this = [hp[1].clone(), hp[2].clone(), hp[0].clone()];
                    if this.iter().all(|t| t.is_none()) {
                        Recv::Ok
                    } else {
                        for k in 0..3 {
                            let others = this.iter().filter(|t| t.is_some()).count();
                            if others > 1 && coin(r, 2) {
                                this[k] = None;
                            }
                        }
                        let mut e = ErrSpec::simple([None, None, None], p, session.as_ref(), i as u8 + 1);
                        e.this = this;
                        Recv::Protocol(e)
                    }
                }
                _ => Recv::Ok,
            };
            s.recv.insert(p, recv);
        }
        rounds.push(s);
    }
    Ok(Script { rounds })
}

fn random_body(w: &World, r: &mut ChaCha8Rng, m: &Model, round: &RoundId, from: Id) -> R<Body> {
    // an echo round?
    for s in &w.script.rounds {
        if echo_id(&s.ti.id)? == *round {
            let mut keys = s.ci.expecting_messages_from.clone();
            if let EchoRoundParticipation::Default = s.ci.echo_round_participation {
                keys.insert(ME);
            }
            keys.remove(&from);
            let mut es: Vec<(Id, EntryKind)> = vec![];
            for k in &keys {
                let honest = honest_parts(s, *k, &s.ti.id)[1].clone().unwrap_or_else(|| "none".into());
                // what was in fact received, when we are already there
                let t = if m.main.map(|i| w.script.rounds[i].ti.id == s.ti.id).unwrap_or(false) && !coin(r, 12 * w.calm) {
                    m.echo_texts.get(k).cloned().unwrap_or(honest)
                } else {
                    honest
                };
                // someone who sent different broadcasts to different parties
                let t = if w.equivocator == Some(*k) && !coin(r, 3) { format!("{t} to {}", from.0) } else { t };
                es.push((*k, EntryKind::Text(t)));
            }
            if coin(r, 3 * w.calm) && !es.is_empty() {
                let i = (r.next_u32() as usize) % es.len();
                match r.next_u32() % 7 {
                    6 => {
                        if let EntryKind::Text(t) = &es[i].1 {
                            es[i].1 = EntryKind::Odd(t.clone(), (r.next_u32() % 5) as u8);
                        }
                    }
                    0 => es[i].1 = EntryKind::BadSignature,
                    1 => es[i].1 = EntryKind::WrongRound,
                    2 => es[i].1 = EntryKind::WrongSession,
                    3 => es[i].1 = EntryKind::Text("another broadcast".into()),
                    4 => {
                        es.remove(i);
                    }
                    _ => es.push((*pick(r, &[from, Vid(9), es[i].0]), EntryKind::Text("extra".into()))),
                }
            }
            if coin(r, 12 * w.calm) {
                return Ok(Body::Plain([
                    if coin(r, 2) { Some("unexpected".into()) } else { None },
                    if coin(r, 2) { Some("unexpected".into()) } else { None },
                    if coin(r, 2) { Some("not an echo message".into()) } else { None },
                ]));
            }
            return Ok(Body::Echo(es));
        }
    }
    let mut p = match w.spec_of(round) {
        Some(s) => honest_parts(s, from, round),
        None => [Some("d".into()), None, Some("n".into())],
    };
    if coin(r, 8 * w.calm) {
        let i = (r.next_u32() % 3) as usize;
        p[i] = match (p[i].is_some(), r.next_u32() % 3) {
            (true, 0) => Some("a variant".into()),
            (true, 1) => None,
            (true, _) => Some(raw(b"{malformed")),
            (false, 0) => Some("an unexpected part".into()),
            (false, _) => Some(raw(b"")),
        };
    }
    Ok(Body::Plain(p))
}

fn random_delivery(w: &World, r: &mut ChaCha8Rng, m: &Model) -> R<Delivery> {
    let waiting: Vec<Id> = m.expecting.iter().filter(|p| !m.processing.contains(p)).cloned().collect();
    let from = if !waiting.is_empty() && !coin(r, 3 * w.calm) {
        *pick(r, &waiting)
    } else {
        *pick(r, &[Vid(1), Vid(2), Vid(3), Vid(1), Vid(2), Vid(3), Vid(9), ME])
    };
    let sim: Vec<RoundId> = m.simultaneous.iter().cloned().collect();
    let round = if !coin(r, 4) {
        m.round.clone()
    } else if !sim.is_empty() && !coin(r, 4 * w.calm) {
        pick(r, &sim).clone()
    } else {
        let x = pick(r, &[1u8, 2, 3, 4, 5, 31, 77]);
        let id = RoundId::new(*x);
        match r.next_u32() % 4 {
            0 => echo_id(&id)?,
            1 => grouped(*x, &[1], false)?,
            _ => id,
        }
    };
    let signer = if coin(r, 16 * w.calm) { *pick(r, &[Vid(1), Vid(2), Vid(3), ME]) } else { from };
    let session_ok = !coin(r, 20 * w.calm);
    let body = random_body(w, r, m, &round, from)?;
    let tamper = if coin(r, 7 * w.calm) {
        let i = (r.next_u32() % 3) as usize;
        match r.next_u32() % 6 {
            0 => Tamper::Meta(i, true),
            1 => Tamper::Meta(i, false),
            2 => Tamper::Sig(i),
            3 => Tamper::SigUndecodable(i),
            4 => Tamper::Payload(i),
            _ => Tamper::Kind(i, (i + 1 + (r.next_u32() % 2) as usize) % 3),
        }
    } else {
        Tamper::None
    };
    Ok(Delivery { from, signer, session_ok, round, body, tamper })
}

/// Sets the reference state up for round `idx` (or its echo round).
fn enter(w: &World, m: &mut Model, idx: usize, echo: bool) -> R<()> {
    let s = &w.script.rounds[idx];
    m.banned.extend(m.provable.iter().cloned());
    m.banned.extend(m.unprovable.iter().cloned());
    m.all_provable.append(&mut m.provable);
    m.all_unprovable.append(&mut m.unprovable);
    m.processing.clear();
    m.handled.clear();
    m.idx = idx;
    if echo {
        m.main = Some(idx);
        m.round = echo_id(&s.ti.id)?;
        let (targets, mut echos) = match &s.ci.echo_round_participation {
            EchoRoundParticipation::Receive { echo_targets } => (echo_targets.clone(), s.ci.expecting_messages_from.clone()),
            _ => {
                let mut e = s.ci.expecting_messages_from.clone();
                e.insert(ME);
                // the echo round's messages are expected from those we sent the broadcast to
                (s.ci.message_destinations.clone(), e)
            }
        };
        m.expecting = targets.clone();
        m.destinations = targets;
        m.expected_echos = std::mem::take(&mut echos);
        m.main_payloads = std::mem::take(&mut m.payloads);
        m.main_artifacts = std::mem::take(&mut m.artifacts);
        m.echo_texts.insert(ME, s.echo.clone());
        m.has_echo = false;
        m.children = s.ti.children.clone();
        m.simultaneous = s.ti.children.clone();
        m.simultaneous.insert(s.ti.id.clone());
    } else {
        m.main = None;
        m.round = s.ti.id.clone();
        m.expecting = s.ci.expecting_messages_from.clone();
        m.destinations = s.ci.message_destinations.clone();
        m.payloads.clear();
        m.artifacts.clear();
        m.echo_texts.clear();
        m.children = s.ti.children.clone();
        m.has_echo = match &s.ci.echo_round_participation {
            EchoRoundParticipation::Default => s.shape[1] && !m.destinations.is_empty(),
            EchoRoundParticipation::Send => false,
            EchoRoundParticipation::Receive { .. } => true,
        };
        m.simultaneous = s.ti.parents.clone();
        m.simultaneous.extend(s.ti.siblings.iter().cloned());
        m.simultaneous.extend(s.ti.children.iter().cloned());
        if m.has_echo {
            m.simultaneous.insert(echo_id(&s.ti.id)?);
        }
    }
    Ok(())
}

fn log_len(log: &Log) -> usize {
    log.lock().unwrap().len()
}

/// Makes the outgoing messages of the round and records the artifacts.
fn send_all(w: &World, m: &mut Model, s: &S<K>, a: &mut Acc<K>, seed: u64) -> Result<(), Mismatch> {
    if s.message_destinations() != &m.destinations {
        return mm(&["P06", "P07", "P18"], format!("the destinations of {} are {:?}, expected {:?}", m.round, s.message_destinations(), m.destinations));
    }
    if s.round_id() != m.round {
        return mm(&["P06", "P15"], format!("the session is in {}, expected {}", s.round_id(), m.round));
    }
    let out = outgoing(s, a, seed).map_err(|e| Mismatch { props: vec!["P18", "P06", "P07"], what: format!("an outgoing message of {} cannot be made: {}", m.round, e.0) })?;
    for (to, msg) in &out {
        if m.main.is_none() {
            let spec = &w.script.rounds[m.idx];
            m.artifacts.insert(*to, format!("artifact {} direct to {}", to.0, to.0));
            let texts = [Some(format!("direct to {}", to.0)), Some(spec.echo.clone()), Some(spec.normal.clone())];
            for i in 0..3 {
                let got = payload_of(&part_v(msg, i)?)?;
                let expected = if spec.shape[i] { texts[i].clone().map(|t| serde_json::to_vec(&t).unwrap()) } else { None };
                if got != expected {
                    return mm(&["P18"], format!("{} of the message to {to:?} in {} is {got:?}, expected {expected:?}", PARTS[i], m.round));
                }
            }
        } else {
            // our echo message: what we received from everyone but us
            let body = echo_body(msg)?;
            let got: BTreeSet<String> = entries(&body)?.iter().map(|e| e[0].to_string()).collect();
            let expected: BTreeSet<String> =
                m.echo_texts.keys().filter(|k| **k != ME).map(|k| to_v(k).unwrap().to_string()).collect();
            if got != expected {
                return mm(&["P07", "P18"], format!("our echo message in {} covers {got:?}, expected {expected:?}", m.round));
            }
            for e in entries(&body)? {
                let owner: Vid = from_v(&e[0])?;
                let text = m.echo_texts[&owner].clone();
                let main = w.script.rounds[m.idx].ti.id.clone();
                let msg = craft(&w.session, &main, owner, ME, &[None, Some(text), None], 17)?;
                let h = hash_of(&w.session, &main, owner, &msg)?;
                if at(&h, &["message_part_hash"])? != at(&e[1], &["message_part_hash"])? {
                    return mm(&["P07", "P18"], format!("our echo of {owner:?} in {} is not what it sent", m.round));
                }
            }
        }
    }
    Ok(())
}

struct Pending {
    v: VerifiedMessage<Vid>,
    d: Delivery,
}

enum Effect {
    Payload(String),
    Unprovable,
    Provable(Id, bool),
    Local,
}

fn effect(w: &World, m: &Model, d: &Delivery) -> Effect {
    let malformed = |t: &Option<String>| t.as_ref().map(|t| t.starts_with("__RAW__")).unwrap_or(false);
    if m.main.is_some() {
        let es = match &d.body {
            Body::Plain(_) => return Effect::Provable(d.from, true),
            Body::Echo(es) => es,
        };
        let ks: BTreeSet<Id> = es.iter().map(|e| e.0).collect();
        if ks.len() != es.len() {
            return Effect::Provable(d.from, true);
        }
        let mut expected = m.expected_echos.clone();
        expected.remove(&d.from);
        if ks != expected {
            return Effect::Unprovable;
        }
        let mut sorted = es.clone();
        sorted.sort_by_key(|e| e.0);
        for (owner, kind) in sorted {
            match kind {
                EntryKind::Text(t) => {
                    if m.echo_texts.get(&owner) != Some(&t) {
                        return Effect::Provable(owner, true);
                    }
                }
                EntryKind::Odd(_, _) => return Effect::Provable(owner, true),
                _ => return Effect::Provable(d.from, true),
            }
        }
        return Effect::Payload(String::new());
    }
    let spec = &w.script.rounds[m.idx];
    let p = match &d.body {
        Body::Plain(p) => p.clone(),
        Body::Echo(_) => [None, None, Some("__RAW__".into())],
    };
    for i in 0..3 {
        if p[i].is_some() != spec.shape[i] || malformed(&p[i]) {
            return Effect::Provable(d.from, true);
        }
    }
    match spec.recv.get(&d.from).unwrap_or(&Recv::Ok) {
        Recv::Ok => Effect::Payload(format!("payload {} {p:?}", d.from.0)),
        Recv::Unprovable | Recv::Slow => Effect::Unprovable,
        Recv::Local => Effect::Local,
        Recv::Protocol(e) => {
            let this = [p[1].clone(), p[2].clone(), p[0].clone()];
            let confirmed = (0..3).all(|i| e.this[i].is_none() || e.this[i] == this[i]);
            Effect::Provable(d.from, confirmed)
        }
    }
}

/// The signatures one of which evidence against `g` because of the message `d` must contain.
fn proof(w: &mut World, m: &Model, d: &Delivery, g: &Id) -> R<Vec<String>> {
    let mut out = vec![];
    if *g == d.from {
        let msg = w.message(d)?;
        for i in 0..3 {
            out.push(at(&part_v(&msg, i)?, &["signature"])?.to_string());
        }
    } else if let (Body::Echo(es), Some(main)) = (&d.body, m.main) {
        let main = w.script.rounds[main].ti.id.clone();
        for (owner, kind) in es {
            if owner == g {
                out.push(at(&w.hash(&main, *owner, kind)?, &["signature"])?.to_string());
            }
        }
    }
    Ok(out)
}

fn process(w: &mut World, m: &mut Model, s: &S<K>, a: &mut Acc<K>, log: &Log, p: Pending) -> Result<(), Mismatch> {
    let before = log_len(log);
    let processed = s.process_message(p.v);
    let r = s.add_processed_message(a, processed);
    let d = &p.d;
    // what did the protocol see?
    let seen: Vec<Ev> = log.lock().unwrap()[before..].to_vec();
    let e = effect(w, m, d);
    if m.main.is_none() {
        let texts = match &d.body {
            Body::Plain(p) => p.clone(),
            _ => [None, None, None],
        };
        let reaches = match &e {
            Effect::Payload(_) | Effect::Unprovable | Effect::Local => true,
            Effect::Provable(_, _) => {
                let spec = &w.script.rounds[m.idx];
                matches!(&d.body, Body::Plain(p) if (0..3).all(|i| p[i].is_some() == spec.shape[i]
                    && !p[i].as_ref().map(|t| t.starts_with("__RAW__")).unwrap_or(false)))
            }
        };
        let expected = if reaches {
            vec![Ev::Received { node: ME, round: format!("{K}:{}", m.round), from: d.from, parts: texts }]
        } else {
            vec![]
        };
        if seen != expected {
            return mm(&["P01", "P14", "P12"], format!("in {} the protocol saw {seen:?}, expected {expected:?}", m.round));
        }
    }
    cover(&format!("{} {}", if m.main.is_some() { "echo message" } else { "message" }, match &e {
        Effect::Payload(_) => "accepted",
        Effect::Unprovable => "unprovable",
        Effect::Provable(g, _) if *g == d.from => "provable",
        Effect::Provable(_, _) => "provable against another",
        Effect::Local => "local",
    }));
    m.handled.insert(d.from);
    match e {
        Effect::Payload(t) => {
            m.payloads.insert(d.from, t);
            if let (Body::Plain(p), None) = (&d.body, m.main) {
                if let Some(t) = &p[1] {
                    m.echo_texts.insert(d.from, t.clone());
                }
            }
        }
        Effect::Unprovable => {
            m.unprovable.insert(d.from);
        }
        Effect::Provable(g, confirmed) => {
            if !m.provable.contains(&g) && !confirmed {
                m.unverifiable.insert(g);
            }
            if !m.proofs.contains_key(&g) {
                let p = proof(w, m, d, &g)?;
                m.proofs.insert(g, p);
            } else {
                cover("a further offence of a proven offender");
            }
            m.provable.insert(g);
        }
        Effect::Local => return if r.is_err() { mm(&["end"], "") } else { mm(&["P02"], "a local error was swallowed") },
    }
    if let Err(e) = r {
        return mm(&["P02", "P08"], format!("adding the processed message of {:?} in {} failed locally: {e}", d.from, m.round));
    }
    Ok(())
}

fn check_report(w: &World, m: &mut Model, rep: &Report<K>, outcome: &str, missing: BTreeSet<Id>) -> Result<(), Mismatch> {
    let _ = w;
    m.all_provable.append(&mut m.provable);
    m.all_unprovable.append(&mut m.unprovable);
    let got = match &rep.outcome {
        SessionOutcome::Result(r) => format!("result {r}"),
        SessionOutcome::NotEnoughMessages => "not enough".into(),
        SessionOutcome::Terminated => "terminated".into(),
    };
    cover(&format!("report {}", outcome.split(' ').next().unwrap_or("")));
    if got != outcome {
        return mm(&["P13"], format!("the outcome is {got}, expected {outcome}"));
    }
    if keys(&rep.provable_errors) != m.all_provable {
        return mm(&["P08", "P13", "P03", "P07", "P14"], format!("provable errors against {:?}, expected {:?}", keys(&rep.provable_errors), m.all_provable));
    }
    if keys(&rep.unprovable_errors) != m.all_unprovable {
        return mm(&["P02", "P08", "P13", "P03"], format!("unprovable errors against {:?}, expected {:?}", keys(&rep.unprovable_errors), m.all_unprovable));
    }
    let expected: BTreeMap<RoundId, BTreeSet<Id>> =
        if missing.is_empty() { BTreeMap::new() } else { BTreeMap::from([(m.round.clone(), missing)]) };
    if rep.missing_messages != expected {
        return mm(&["P13"], format!("missing messages {:?}, expected {expected:?}", rep.missing_messages));
    }
    for (id, ev) in &rep.provable_errors {
        if ev.guilty_party() != id {
            return mm(&["P08"], format!("the evidence against {:?} is filed under {id:?}", ev.guilty_party()));
        }
        let v = to_v(ev)?;
        if let Some(ps) = m.proofs.get(id) {
            let text = v.to_string();
            if !ps.iter().any(|p| text.contains(p.as_str())) {
                return mm(&["P08"], format!("the evidence against {id:?} is not that of its first offence (signatures {ps:?}): {v}"));
            }
        }
        if !m.unverifiable.contains(id) {
            let ev2: Evidence<Puppet<K>, Sp> = match serde_json::from_value(v.clone()) {
                Ok(e) => e,
                Err(e) => return mm(&["P09", "P17"], format!("the evidence does not deserialize: {e}: {v}")),
            };
            if let Err(e) = ev2.verify(&Shared(42)) {
                return mm(&["P09", "P08", "P14", "P10"], format!("the evidence against {id:?} does not verify: {e:?}: {v}"));
            }
        }
    }
    Ok(())
}

/// One history.  `trace` receives what was done.
fn history(seed: u64, trace: &mut Vec<String>) -> Result<(), Mismatch> {
    let mut r = rng(seed);
    let calm = [1, 4, 20, 60][(r.next_u32() % 4) as usize];
    let script = Arc::new(random_script(&mut r, calm)?);
    clear_registry();
    for s in &script.rounds {
        register(K, &s.ti.id, s.shape);
    }
    let mut w = World {
        equivocator: if coin(&mut r, 4) { Some(*pick(&mut r, &peers())) } else { None },
        calm,
        script: script.clone(),
        session: sid("model"),
        other_session: sid("another"),
        crafted: BTreeMap::new(),
        hashes: BTreeMap::new(),
    };
    trace.push(format!(
        "script: {}",
        script.rounds.iter().map(|s| format!("[{} shape {:?} children {:?} ci {:?}]", s.ti.id, s.shape, s.ti.children, s.ci)).collect::<Vec<_>>().join(" ")
    ));
    let log = new_log();
    let session: S<K> = start(&script, ME, &w.session, &log, seed)?;
    let mut session = Box::new(session);
    let mut m = Model {
        round: RoundId::new(1),
        main: None,
        idx: 0,
        expecting: Default::default(),
        destinations: Default::default(),
        expected_echos: Default::default(),
        simultaneous: Default::default(),
        children: Default::default(),
        has_echo: false,
        banned: Default::default(),
        provable: Default::default(),
        unprovable: Default::default(),
        all_provable: Default::default(),
        all_unprovable: Default::default(),
        processing: Default::default(),
        handled: Default::default(),
        payloads: Default::default(),
        echo_texts: Default::default(),
        main_payloads: Default::default(),
        artifacts: Default::default(),
        main_artifacts: Default::default(),
        cached: Default::default(),
        unverifiable: Default::default(),
        proofs: Default::default(),
    };
    enter(&w, &mut m, 0, false)?;
    let mut accum = session.make_accumulator();
    send_all(&w, &mut m, &session, &mut accum, seed)?;
    let mut pending: Vec<Pending> = vec![];

    for _step in 0..90 {
        let verdict = session.can_finalize(&accum);
        cover(&format!("ready {verdict:?}"));
        if verdict != m.can_finalize() {
            return mm(&["P05"], format!("in {} readiness is {verdict:?}, expected {:?} (expected from {:?}, accepted {:?}, taken {:?}, banned {:?})",
                m.round, m.can_finalize(), m.expecting, keys(&m.payloads), m.processing,
                m.expecting.iter().filter(|p| m.bans(p)).collect::<Vec<_>>()));
        }
        let op = match verdict {
            CanFinalize::Yes if pending.is_empty() && !coin(&mut r, 3) => Op::Finalize,
            CanFinalize::Never if !coin(&mut r, 3) => Op::GiveUp,
            _ if !pending.is_empty() && coin(&mut r, 2) => Op::Process((r.next_u32() as usize) % pending.len()),
            _ if coin(&mut r, 100) => Op::Terminate,
            _ if !m.destinations.is_empty() && coin(&mut r, 150) => {
                Op::Again(*pick(&mut r, &m.destinations.iter().cloned().collect::<Vec<_>>()))
            }
            _ => Op::Deliver(random_delivery(&w, &mut r, &m)?),
        };
        trace.push(format!("{}: {op:?}", m.round));
        match op {
            Op::Deliver(d) => {
                let msg = w.message(&d)?;
                let v = m.verdict(&d);
                cover(&format!("message {v:?}{}", if m.main.is_some() { " (echo round)" } else { "" }));
                let got = pre(&session, &mut accum, d.from, &msg);
                let of = match v {
                    Verdict::Process => vec!["P01", "P02", "P18", "P12"],
                    Verdict::Cache => vec!["P04", "P02", "P15", "P01"],
                    Verdict::Banned => vec!["P03", "P01"],
                    Verdict::Meta | Verdict::Session => vec!["P01", "P12"],
                    Verdict::Signature => vec!["P01", "P12"],
                    Verdict::Unexpected | Verdict::Duplicate => vec!["P01"],
                    Verdict::DuplicateCached => vec!["P04", "P02"],
                    Verdict::Round => vec!["P01", "P04", "P15"],
                };
                match (v, got) {
                    (_, Err(e)) => {
                        let mut of = of;
                        of.push("P02");
                        return mm(&of, format!("a message from {:?} that should be {v:?} failed locally: {e}", d.from));
                    }
                    (Verdict::Process, Ok(PreprocessOutcome::ToProcess(x))) => {
                        m.processing.insert(d.from);
                        pending.push(Pending { v: *x, d });
                    }
                    (Verdict::Cache, Ok(PreprocessOutcome::Cached)) => {
                        m.cached.insert((d.from, d.round.clone()), d);
                    }
                    (Verdict::Process | Verdict::Cache, Ok(o)) => {
                        return mm(&of, format!("a message from {:?} for {} in {} should be {v:?}, but was {o:?}", d.from, d.round, m.round));
                    }
                    (_, Ok(PreprocessOutcome::Error(_))) => {
                        if v != Verdict::Banned {
                            m.unprovable.insert(d.from);
                        }
                    }
                    (_, Ok(o)) => {
                        return mm(&of, format!("a message from {:?} for {} in {} should be refused ({v:?}), but was {o:?}", d.from, d.round, m.round));
                    }
                }
            }
            Op::Again(to) => {
                cover("a second artifact for one destination");
                let made = session.make_message(&mut rng(seed), &to);
                let (_, art) = match made {
                    Ok(x) => x,
                    Err(e) => return mm(&["P06", "P18"], format!("making a message once more failed: {e}")),
                };
                if session.add_artifact(&mut accum, art).is_ok() {
                    return mm(&["P06"], format!("two artifacts for {to:?} were accepted in {}", m.round));
                }
                return Ok(());
            }
            Op::Process(i) => {
                let p = pending.remove(i);
                process(&mut w, &mut m, &session, &mut accum, &log, p)?;
            }
            Op::Terminate | Op::GiveUp => {
                let give_up = matches!(op, Op::GiveUp);
                let rep = if give_up { session.terminate_due_to_errors(accum) } else { session.terminate(accum) };
                let rep = match rep {
                    Ok(x) => x,
                    Err(e) => return mm(&["P13", "P02"], format!("terminating failed locally: {e}")),
                };
                let missing = m.expecting.iter().filter(|p| !m.handled.contains(p)).cloned().collect();
                return check_report(&w, &mut m, &rep, if give_up { "not enough" } else { "terminated" }, missing);
            }
            Op::Finalize => {
                let before = log_len(&log);
                let spec = script.rounds[m.idx].clone();
                let out = session.finalize_round(&mut rng(seed ^ 0x55), accum);
                let evs: Vec<Ev> = log.lock().unwrap()[before..].to_vec();
                let finalized: Vec<&Ev> = evs.iter().filter(|e| matches!(e, Ev::Finalized { .. })).collect();
                // expected next place
                let to_echo = m.main.is_none() && m.has_echo;
                if to_echo {
                    if !finalized.is_empty() {
                        return mm(&["P06"], format!("{} was finalized before its echo round", m.round));
                    }
                } else {
                    let (pl, ar) = if m.main.is_some() { (&m.main_payloads, &m.main_artifacts) } else { (&m.payloads, &m.artifacts) };
                    let expected = Ev::Finalized {
                        node: ME,
                        round: format!("{K}:{}", spec.ti.id),
                        payloads: pl.clone().into_iter().collect(),
                        artifacts: ar.clone().into_iter().collect(),
                        rng: 0,
                    };
                    if finalized != vec![&expected] {
                        return mm(&["P06"], format!("finalizing {} the protocol saw {finalized:?}, expected {expected:?}", m.round));
                    }
                }
                let (new, cached) = match (out, to_echo, &spec.fin) {
                    (Err(e), true, _) => return mm(&["P06", "P07", "P02"], format!("going to the echo round of {} failed: {e}", m.round)),
                    (Err(_), false, Fin::Local) => return Ok(()),
                    (Ok(_), false, Fin::Local) => return mm(&["P06"], "a failed finalization was passed over"),
                    (Ok(RoundOutcome::Finished(rep)), false, Fin::Result(x)) => {
                        let x = format!("result {x}");
                        return check_report(&w, &mut m, &rep, &x, BTreeSet::new());
                    }
                    (Err(e), false, Fin::Result(_)) => return mm(&["P06", "P13"], format!("finalizing the last round failed: {e}")),
                    (x, false, Fin::Next(i)) => {
                        let declared = m.children.contains(&script.rounds[*i].ti.id);
                        match (x, declared) {
                            (Err(_), false) => return Ok(()),
                            (Ok(_), false) => return mm(&["P06"], format!("{} led to the undeclared {}", m.round, script.rounds[*i].ti.id)),
                            (Err(e), true) => return mm(&["P06", "P02"], format!("finalizing {} failed: {e}", m.round)),
                            (Ok(RoundOutcome::AnotherRound { session, cached_messages }), true) => {
                                enter(&w, &mut m, *i, false)?;
                                (session, cached_messages)
                            }
                            (Ok(_), true) => return mm(&["P06", "P13"], format!("{} ended the session instead of going on", m.round)),
                        }
                    }
                    (Ok(RoundOutcome::AnotherRound { session, cached_messages }), true, _) => {
                        let i = m.idx;
                        enter(&w, &mut m, i, true)?;
                        (session, cached_messages)
                    }
                    (Ok(_), _, _) => return mm(&["P06", "P13"], format!("{} led to a wrong outcome", m.round)),
                };
                session = new;
                accum = session.make_accumulator();
                let sd = seed ^ m.idx as u64;
                send_all(&w, &mut m, &session, &mut accum, sd)?;
                let here: Vec<Delivery> = m
                    .cached
                    .iter()
                    .filter(|((f, rd), _)| *rd == m.round && !m.banned.contains(f) && m.expecting.contains(f))
                    .map(|(_, d)| d.clone())
                    .collect();
                let round = m.round.clone();
                let banned = m.banned.clone();
                m.cached.retain(|(f, rd), _| *rd != round && !banned.contains(f));
                if cached.len() != here.len() {
                    return mm(&["P04", "P03"], format!("{} cached messages were delivered in {}, expected those of {:?}",
                        cached.len(), m.round, here.iter().map(|d| d.from).collect::<Vec<_>>()));
                }
                for d in &here {
                    m.processing.insert(d.from);
                }
                // whose is which: by the content the debug form shows
                let mut left = here;
                for v in cached {
                    cover("delivered from the cache");
                    let text = format!("{v:?}");
                    let i = left.iter().position(|d| text.contains(&format!("{:?}", d.from)));
                    match i {
                        Some(i) => {
                            let d = left.remove(i);
                            pending.push(Pending { v, d });
                        }
                        None => return mm(&["P04"], format!("a cached message of another party was delivered: {text}")),
                    }
                }
            }
        }
    }
    let rep = match session.terminate(accum) {
        Ok(x) => x,
        Err(e) => return mm(&["P13", "P02"], format!("terminating failed locally: {e}")),
    };
    let missing = m.expecting.iter().filter(|p| !m.handled.contains(p)).cloned().collect();
    check_report(&w, &mut m, &rep, "terminated", missing)
}

enum Bad {
    Skipped(String),
    Failed(&'static str, String),
}

fn one(seed: u64, prop: &str) -> Option<Bad> {
    let mut trace = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| history(seed, &mut trace)));
    let tail = |t: &[String]| t.join("; ").chars().take(6000).collect::<String>();
    match res {
        Ok(Ok(())) => None,
        Ok(Err(mis)) if mis.props.contains(&"skip") => Some(Bad::Skipped(format!("history {seed}: {}", mis.what))),
        Ok(Err(mis)) if mis.props.contains(&"end") => None,
        Ok(Err(mis)) if prop == "all" || mis.props.contains(&prop) => {
            Some(Bad::Failed("history", format!("{:?} history {seed}: {} -- after: {}", mis.props, mis.what, tail(&trace))))
        }
        Ok(Err(_)) => None,
        Err(p) => {
            let msg = panic_text(&p);
            Some(Bad::Failed("history-panic", format!("history {seed} panicked: {msg} -- after: {}", tail(&trace))))
        }
    }
}

pub fn run(ctx: &mut Ctx, histories: u64) {
    let base = ctx.seed.wrapping_mul(1_000_003);
    let threads = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let prop = ctx.prop.clone();
    let results: Vec<(Vec<(u64, Bad)>, BTreeMap<String, u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let prop = prop.clone();
                sc.spawn(move || {
                    let mut bad = vec![];
                    let mut i = t;
                    while i < histories {
                        if let Some(b) = one(base.wrapping_add(i), &prop) {
                            bad.push((i, b));
                        }
                        if bad.len() > 20 {
                            break;
                        }
                        i += threads;
                    }
                    (bad, COVER.with(|c| c.borrow().clone()))
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    let mut all = vec![];
    for (bad, cover) in results {
        all.extend(bad);
        for (k, v) in cover {
            *ctx.counts.entry(k).or_insert(0) += v;
        }
    }
    all.sort_by_key(|b| b.0);
    let mut skipped = 0;
    for (_, b) in all {
        match b {
            Bad::Skipped(s) => {
                skipped += 1;
                if skipped < 3 {
                    ctx.skipped.push(s);
                }
            }
            Bad::Failed(id, what) => ctx.fail(id, what),
        }
    }
    ctx.evaluations += histories;
    ctx.counts.insert("histories".into(), histories);
    ctx.counts.insert("histories skipped".into(), skipped);
}
