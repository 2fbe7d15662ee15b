//! A protocol whose rounds are data: one Rust type covers every shape of round.
//! It only uses the public API of manul.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use manul::protocol::*;
use manul::session::{SessionParameters, WireFormat};
use rand_core::CryptoRngCore;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};

// ---------------------------------------------------------------- identities, signatures, wire format

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Vid(pub u8);

#[derive(Debug, Clone, Copy)]
pub struct Sgn(pub u8);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    pub nonce: u64,
    pub mac: [u8; 32],
}

thread_local! {
    /// Every digest handed to a signer or a verifier.
    pub static SIGNED: RefCell<Vec<(u8, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    pub static CHECKED: RefCell<Vec<(u8, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    pub static SIGN_FAILS: RefCell<bool> = const { RefCell::new(false) };
}

pub fn mac(by: u8, nonce: u64, digest: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(b"harness-secret");
    h.update([by]);
    h.update(nonce.to_be_bytes());
    h.update(digest);
    h.finalize().into()
}

impl signature::Keypair for Sgn {
    type VerifyingKey = Vid;
    fn verifying_key(&self) -> Vid {
        Vid(self.0)
    }
}

impl signature::RandomizedDigestSigner<Sha256, Sig> for Sgn {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: Sha256) -> Result<Sig, signature::Error> {
        if SIGN_FAILS.with(|f| *f.borrow()) {
            return Err(signature::Error::new());
        }
        let d = digest.finalize().to_vec();
        SIGNED.with(|s| s.borrow_mut().push((self.0, d.clone())));
        let nonce = rng.next_u64();
        Ok(Sig { nonce, mac: mac(self.0, nonce, &d) })
    }
}

impl signature::DigestVerifier<Sha256, Sig> for Vid {
    fn verify_digest(&self, digest: Sha256, sig: &Sig) -> Result<(), signature::Error> {
        let d = digest.finalize().to_vec();
        CHECKED.with(|s| s.borrow_mut().push((self.0, d.clone())));
        if mac(self.0, sig.nonce, &d) == sig.mac {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

/// JSON, except that a message whose text is `__RAW__<hex>` is serialized into exactly these bytes.
#[derive(Debug, Clone, Copy)]
pub struct Fmt;

impl WireFormat for Fmt {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        let b = serde_json::to_vec(&value).map_err(|e| LocalError::new(e.to_string()))?;
        if b.starts_with(b"\"__RAW__") {
            let hex = &b[8..b.len() - 1];
            let mut out = Vec::new();
            for c in hex.chunks(2) {
                out.push(u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap());
            }
            return Ok(out.into());
        }
        if b == b"\"__FAIL__\"" {
            return Err(LocalError::new("serialization failed as requested"));
        }
        Ok(b.into())
    }
    type Deserializer<'de> = <manul::dev::HumanReadableFormat as WireFormat>::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        manul::dev::HumanReadableFormat::deserializer(bytes)
    }
}

pub fn raw(bytes: &[u8]) -> String {
    let mut s = String::from("__RAW__");
    for b in bytes {
        s.push_str(&format!("{b:02x}"));
    }
    s
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Sp;

impl SessionParameters for Sp {
    type Signer = Sgn;
    type Digest = Sha256;
    type Verifier = Vid;
    type Signature = Sig;
    type WireFormat = Fmt;
}

// ---------------------------------------------------------------- data describing a run

/// What a message part carries. A part may stand for "nothing", and then reads as `null` does.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(from = "Option<String>")]
pub struct Msg(pub String);

impl From<Option<String>> for Msg {
    fn from(x: Option<String>) -> Self {
        Msg(x.unwrap_or_default())
    }
}

/// What a round does with a message of some party.
#[derive(Debug, Clone)]
pub enum Recv {
    Ok,
    Unprovable,
    /// Unprovable, after a while.
    Slow,
    Local,
    Protocol(ErrSpec),
}

#[derive(Debug, Clone)]
pub enum Fin {
    Next(usize),
    Result(String),
    Local,
}

/// The data of a protocol error; its third-party check looks at everything it declared as required.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ErrSpec {
    /// Required parts (echo, normal, direct) of the message itself, and the text each must have.
    pub this: [Option<String>; 3],
    /// Required parts of earlier rounds (round number, parts with their texts).
    pub prev: Vec<(u8, [Option<String>; 3])>,
    /// Rounds (numbers) for which the combined echos are required, with the expected texts by sender.
    pub combined: Vec<(u8, Vec<(Vid, String)>)>,
    pub from: Vid,
    pub session: Vec<u8>,
    pub shared: u32,
    pub round: u8,
    pub answer_local: bool,
}

impl ErrSpec {
    pub fn simple(this: [Option<&str>; 3], from: Vid, session: &[u8], round: u8) -> Self {
        ErrSpec {
            this: this.map(|t| t.map(|t| t.to_string())),
            prev: vec![],
            combined: vec![],
            from,
            session: session.to_vec(),
            shared: 42,
            round,
            answer_local: false,
        }
    }
}

#[derive(Debug, Clone)]
pub struct RoundSpec {
    pub ti: TransitionInfo,
    /// Presence of (direct, echo, normal) parts in the type of the round.
    pub shape: [bool; 3],
    pub ci: CommunicationInfo<Vid>,
    pub direct: BTreeMap<Vid, String>,
    pub echo: String,
    pub normal: String,
    pub recv: BTreeMap<Vid, Recv>,
    pub fin: Fin,
    /// Use the default (non overridden) behaviour of the round trait.
    pub draw_rng: bool,
}

pub fn set<T: Ord + Clone>(x: &[T]) -> BTreeSet<T> {
    x.iter().cloned().collect()
}

impl RoundSpec {
    pub fn new(ti: TransitionInfo, shape: [bool; 3], others: &[Vid]) -> Self {
        RoundSpec {
            ti,
            shape,
            ci: CommunicationInfo::regular(&set(others)),
            direct: BTreeMap::new(),
            echo: "echo".into(),
            normal: "normal".into(),
            recv: BTreeMap::new(),
            fin: Fin::Result("done".into()),
            draw_rng: false,
        }
    }
}

#[derive(Debug)]
pub struct Script {
    pub rounds: Vec<RoundSpec>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
    Start { node: Vid, session: Vec<u8>, rng: u64 },
    Direct { node: Vid, round: String, to: Vid, text: String, rng: u64 },
    Echo { node: Vid, round: String, rng: u64 },
    Normal { node: Vid, round: String, rng: u64 },
    Received { node: Vid, round: String, from: Vid, parts: [Option<String>; 3] },
    Finalized { node: Vid, round: String, payloads: Vec<(Vid, String)>, artifacts: Vec<(Vid, String)>, rng: u64 },
    Evidence { round: String, from: Vid, k: usize },
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

pub fn new_log() -> Log {
    Arc::new(Mutex::new(Vec::new()))
}

thread_local! {
    /// Shapes of the rounds of puppet protocol `K`, as seen by third parties.
    pub static REGISTRY: RefCell<BTreeMap<(usize, RoundId), [bool; 3]>> = const { RefCell::new(BTreeMap::new()) };
    pub static ENTRY: RefCell<BTreeMap<usize, RoundId>> = const { RefCell::new(BTreeMap::new()) };
    /// With this, a puppet error is only confirmed if a text of the guilty party starts with `BAD`.
    pub static STRICT: RefCell<bool> = const { RefCell::new(false) };
    pub static TURN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    pub static EVIDENCE_LOG: RefCell<Vec<(usize, RoundId, Vid)>> = const { RefCell::new(Vec::new()) };
}

pub fn register(k: usize, id: &RoundId, shape: [bool; 3]) {
    REGISTRY.with(|r| r.borrow_mut().insert((k, id.clone()), shape));
}

pub fn clear_registry() {
    REGISTRY.with(|r| r.borrow_mut().clear());
}

// ---------------------------------------------------------------- the protocol

#[derive(Debug, Serialize, Deserialize)]
pub struct Puppet<const K: usize>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Shared(pub u32);

pub trait Part: 'static + Debug + Serialize + DeserializeOwned + Send + Sync {
    const PRESENT: bool;
    fn make(text: &str) -> Self;
    fn text(&self) -> Option<String>;
}

impl Part for Msg {
    const PRESENT: bool = true;
    fn make(text: &str) -> Self {
        Msg(text.to_string())
    }
    fn text(&self) -> Option<String> {
        Some(self.0.clone())
    }
}

impl Part for NoMessage {
    const PRESENT: bool = false;
    fn make(_text: &str) -> Self {
        serde_json::from_str("null").expect("NoMessage can be deserialized")
    }
    fn text(&self) -> Option<String> {
        None
    }
}

macro_rules! by_shape {
    ($shape:expr, $f:ident, $k:expr, $($arg:expr),*) => {
        match $shape {
            [false, false, false] => $f::<{ $k }, NoMessage, NoMessage, NoMessage>($($arg),*),
            [false, false, true] => $f::<{ $k }, NoMessage, NoMessage, Msg>($($arg),*),
            [false, true, false] => $f::<{ $k }, NoMessage, Msg, NoMessage>($($arg),*),
            [false, true, true] => $f::<{ $k }, NoMessage, Msg, Msg>($($arg),*),
            [true, false, false] => $f::<{ $k }, Msg, NoMessage, NoMessage>($($arg),*),
            [true, false, true] => $f::<{ $k }, Msg, NoMessage, Msg>($($arg),*),
            [true, true, false] => $f::<{ $k }, Msg, Msg, NoMessage>($($arg),*),
            [true, true, true] => $f::<{ $k }, Msg, Msg, Msg>($($arg),*),
        }
    };
}
pub(crate) use by_shape;

fn info<const K: usize, D: Part, E: Part, N: Part>() -> RoundInfo<Vid, Puppet<K>> {
    RoundInfo::new::<PR<K, D, E, N>>()
}

impl<const K: usize> Protocol<Vid> for Puppet<K> {
    type Result = String;
    type SharedData = Shared;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Vid, Self>> {
        let shape = REGISTRY.with(|r| r.borrow().get(&(K, round_id.clone())).copied())?;
        Some(by_shape!(shape, info, K,))
    }
}

#[derive(Debug)]
pub struct PR<const K: usize, D, E, N> {
    idx: usize,
    script: Arc<Script>,
    me: Vid,
    log: Log,
    ph: PhantomData<fn() -> (D, E, N)>,
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct PErr<const K: usize, D, E, N> {
    spec: ErrSpec,
    #[serde(skip)]
    ph: PhantomData<fn() -> (D, E, N)>,
}

impl<const K: usize, D, E, N> Clone for PErr<K, D, E, N> {
    fn clone(&self) -> Self {
        Self { spec: self.spec.clone(), ph: PhantomData }
    }
}

impl<const K: usize, D, E, N> Debug for PErr<K, D, E, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PErr({:?})", self.spec)
    }
}

/// The declared parts, put together in any order.
fn parts_of(p: &[bool; 3]) -> Option<RequiredMessageParts> {
    const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]];
    let order = ORDERS[TURN.with(|t| {
        t.set((t.get() + 1) % 6);
        t.get()
    })];
    let mut r: Option<RequiredMessageParts> = None;
    for i in order {
        if p[i] {
            r = Some(match (r, i) {
                (None, 0) => RequiredMessageParts::echo_broadcast(),
                (None, 1) => RequiredMessageParts::normal_broadcast(),
                (None, _) => RequiredMessageParts::direct_message(),
                (Some(r), 0) => r.and_echo_broadcast(),
                (Some(r), 1) => r.and_normal_broadcast(),
                (Some(r), _) => r.and_direct_message(),
            });
        }
    }
    r
}

fn wrong(what: &str) -> EvidenceError {
    EvidenceError::InvalidEvidence(format!("the puppet does not confirm: {what}"))
}

/// A type with all three parts, to read the parts of earlier rounds.
pub type Full<const K: usize> = PR<K, Msg, Msg, Msg>;

impl<const K: usize, D: Part, E: Part, N: Part> ProtocolError<Vid> for PErr<K, D, E, N> {
    type Round = PR<K, D, E, N>;
    fn description(&self) -> String {
        "puppet error".into()
    }
    fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
        let b = |p: &[Option<String>; 3]| [p[0].is_some(), p[1].is_some(), p[2].is_some()];
        RequiredMessages::new(
            parts_of(&b(&self.spec.this)).expect("at least one part"),
            if self.spec.prev.is_empty() {
                None
            } else {
                Some(self.spec.prev.iter().map(|(r, p)| (RoundId::new(*r), parts_of(&b(p)).unwrap())).collect())
            },
            if self.spec.combined.is_empty() {
                None
            } else {
                Some(self.spec.combined.iter().map(|(r, _)| RoundId::new(*r)).collect())
            },
        )
    }
    fn verify_evidence(
        &self,
        round_id: &RoundId,
        from: &Vid,
        shared_randomness: &[u8],
        shared_data: &Shared,
        messages: EvidenceMessages<'_, Vid, PR<K, D, E, N>>,
    ) -> Result<(), EvidenceError> {
        EVIDENCE_LOG.with(|l| l.borrow_mut().push((K, round_id.clone(), *from)));
        let s = &self.spec;
        if s.answer_local {
            return Err(EvidenceError::Local(LocalError::new("the protocol's own local error")));
        }
        if from != &s.from {
            return Err(wrong("the guilty party"));
        }
        if shared_randomness != s.session.as_slice() {
            return Err(wrong("the shared randomness"));
        }
        if shared_data.0 != s.shared {
            return Err(wrong("the shared data"));
        }
        if round_id != &RoundId::new(s.round) {
            return Err(wrong("the round"));
        }
        if let Some(t) = &s.this[0] {
            if messages.echo_broadcast()?.text().as_ref() != Some(t) {
                return Err(wrong("the echo broadcast"));
            }
        }
        if let Some(t) = &s.this[1] {
            if messages.normal_broadcast()?.text().as_ref() != Some(t) {
                return Err(wrong("the normal broadcast"));
            }
        }
        if let Some(t) = &s.this[2] {
            if messages.direct_message()?.text().as_ref() != Some(t) {
                return Err(wrong("the direct message"));
            }
        }
        for (r, p) in &s.prev {
            if let Some(t) = &p[0] {
                if &messages.previous_echo_broadcast::<Full<K>>(*r)?.0 != t {
                    return Err(wrong("the earlier echo broadcast"));
                }
            }
            if let Some(t) = &p[1] {
                if &messages.previous_normal_broadcast::<Full<K>>(*r)?.0 != t {
                    return Err(wrong("the earlier normal broadcast"));
                }
            }
            if let Some(t) = &p[2] {
                if &messages.previous_direct_message::<Full<K>>(*r)?.0 != t {
                    return Err(wrong("the earlier direct message"));
                }
            }
        }
        for (r, expected) in &s.combined {
            let got = messages.combined_echos::<Full<K>>(*r)?;
            let got: Vec<(Vid, String)> = got.into_iter().map(|(k, v)| (k, v.0)).collect();
            if &got != expected {
                return Err(wrong("the combined echos"));
            }
        }
        if STRICT.with(|x| *x.borrow()) {
            let bad = |t: &Option<String>| t.as_ref().map(|t| t.starts_with("BAD")).unwrap_or(false);
            if !s.this.iter().any(bad) && !s.prev.iter().any(|p| p.1.iter().any(bad)) {
                return Err(wrong("no offence in what the guilty party sent"));
            }
        }
        Ok(())
    }
}

fn boxed<const K: usize, D: Part, E: Part, N: Part>(
    idx: usize,
    script: Arc<Script>,
    me: Vid,
    log: Log,
) -> BoxedRound<Vid, Puppet<K>> {
    BoxedRound::new(PR::<K, D, E, N> { idx, script, me, log, ph: PhantomData })
}

pub fn make_boxed<const K: usize>(idx: usize, script: Arc<Script>, me: Vid, log: Log) -> BoxedRound<Vid, Puppet<K>> {
    let shape = script.rounds[idx].shape;
    by_shape!(shape, boxed, K, idx, script, me, log)
}

impl<const K: usize, D, E, N> PR<K, D, E, N> {
    fn spec(&self) -> &RoundSpec {
        &self.script.rounds[self.idx]
    }
    fn name(&self) -> String {
        format!("{K}:{}", self.spec().ti.id)
    }
    fn draw(&self, rng: &mut impl CryptoRngCore) -> u64 {
        if self.spec().draw_rng {
            rng.next_u64()
        } else {
            0
        }
    }
    fn ev(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
}

#[derive(Debug)]
pub struct Art(pub String);

impl<const K: usize, D: Part, E: Part, N: Part> Round<Vid> for PR<K, D, E, N> {
    type Protocol = Puppet<K>;
    type ProtocolError = PErr<K, D, E, N>;
    type DirectMessage = D;
    type EchoBroadcast = E;
    type NormalBroadcast = N;
    type Payload = String;
    type Artifact = Art;

    fn transition_info(&self) -> TransitionInfo {
        self.spec().ti.clone()
    }
    fn communication_info(&self) -> CommunicationInfo<Vid> {
        self.spec().ci.clone()
    }
    fn make_direct_message(&self, rng: &mut impl CryptoRngCore, destination: &Vid) -> Result<(D, Art), LocalError> {
        let text = self.spec().direct.get(destination).cloned().unwrap_or_else(|| format!("direct to {}", destination.0));
        let rng = self.draw(rng);
        self.ev(Ev::Direct { node: self.me, round: self.name(), to: *destination, text: text.clone(), rng });
        Ok((D::make(&text), Art(format!("artifact {} {text}", destination.0))))
    }
    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<E, LocalError> {
        let rng = self.draw(rng);
        self.ev(Ev::Echo { node: self.me, round: self.name(), rng });
        Ok(E::make(&self.spec().echo))
    }
    fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<N, LocalError> {
        let rng = self.draw(rng);
        self.ev(Ev::Normal { node: self.me, round: self.name(), rng });
        Ok(N::make(&self.spec().normal))
    }
    fn receive_message(
        &self,
        from: &Vid,
        parts: ProtocolMessage<Vid, Self>,
    ) -> Result<String, ReceiveError<Vid, Self>> {
        let p = [parts.direct_message.text(), parts.echo_broadcast.text(), parts.normal_broadcast.text()];
        self.ev(Ev::Received { node: self.me, round: self.name(), from: *from, parts: p.clone() });
        match self.spec().recv.get(from).unwrap_or(&Recv::Ok) {
            Recv::Ok => Ok(format!("payload {} {p:?}", from.0)),
            Recv::Unprovable => Err(ReceiveError::Unprovable(RemoteError::new("puppet unprovable"))),
            Recv::Slow => {
                std::thread::sleep(std::time::Duration::from_millis(60));
                Err(ReceiveError::Unprovable(RemoteError::new("puppet unprovable")))
            }
            Recv::Local => Err(ReceiveError::Local(LocalError::new("puppet local"))),
            Recv::Protocol(spec) => Err(ReceiveError::Protocol(PErr { spec: spec.clone(), ph: PhantomData })),
        }
    }
    fn finalize(
        self,
        rng: &mut impl CryptoRngCore,
        payloads: BTreeMap<Vid, String>,
        artifacts: BTreeMap<Vid, Art>,
    ) -> Result<FinalizeOutcome<Vid, Puppet<K>>, LocalError> {
        let rng = self.draw(rng);
        self.ev(Ev::Finalized {
            node: self.me,
            round: self.name(),
            payloads: payloads.into_iter().collect(),
            artifacts: artifacts.into_iter().map(|(k, v)| (k, v.0)).collect(),
            rng,
        });
        match &self.spec().fin {
            Fin::Next(i) => Ok(FinalizeOutcome::AnotherRound(make_boxed::<K>(
                *i,
                self.script.clone(),
                self.me,
                self.log.clone(),
            ))),
            Fin::Result(s) => Ok(FinalizeOutcome::Result(s.clone())),
            Fin::Local => Err(LocalError::new("puppet finalize failed")),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Entry<const K: usize> {
    pub script: Arc<Script>,
    pub log: Log,
    pub draw_rng: bool,
}

impl<const K: usize> EntryPoint<Vid> for Entry<K> {
    type Protocol = Puppet<K>;
    fn entry_round_id() -> RoundId {
        ENTRY.with(|e| e.borrow().get(&K).cloned().unwrap_or_else(|| RoundId::new(1)))
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Vid,
    ) -> Result<BoxedRound<Vid, Puppet<K>>, LocalError> {
        let r = if self.draw_rng { rng.next_u64() } else { 0 };
        self.log.lock().unwrap().push(Ev::Start { node: *id, session: shared_randomness.to_vec(), rng: r });
        Ok(make_boxed::<K>(0, self.script, *id, self.log))
    }
}
