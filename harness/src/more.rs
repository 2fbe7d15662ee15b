//! Scenarios besides random histories and evidence: digests, part shapes, round graphs, full runs, equivocation,
//! collection helpers, outgoing messages.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::protocol::*;
use manul::session::*;
use manul::utils::*;
use rand_core::RngCore;
use serde_json::{json, Value};

use crate::ev::{verify_in, Verdict};
use crate::puppet::*;
use crate::sim;
use crate::util::*;

const A: Vid = Vid(0);
const B: Vid = Vid(1);
const C: Vid = Vid(2);
const K: usize = 3;

// ---------------------------------------------------------------- P12

fn sig_of(part: &Value) -> R<Sig> {
    let b = unhex(at(part, &["signature"])?)?;
    serde_json::from_slice(&b).map_err(|e| Skip(e.to_string()))
}

fn signed_digest(part: &Value, by: Vid) -> R<Vec<u8>> {
    let s = sig_of(part)?;
    let found = SIGNED.with(|l| {
        l.borrow().iter().rev().find(|(w, d)| *w == by.0 && mac(by.0, s.nonce, d) == s.mac).map(|x| x.1.clone())
    });
    found.ok_or(Skip("the signature in the message is not one that was made".into()))
}

/// What is signed determines and is determined by (session, round, kind, presence, payload).
pub fn digests(ctx: &mut Ctx) -> R<()> {
    let sessions = [sid("a"), sid("b"), sid("")];
    let mut rounds = vec![];
    for n in [0u8, 1, 2, 17, 255] {
        rounds.push(RoundId::new(n));
    }
    for g in [&[1u8][..], &[2], &[1, 2], &[2, 1], &[1, 1], &[0]] {
        rounds.push(grouped(1, g, false)?);
        rounds.push(grouped(1, g, true)?);
    }
    rounds.push(grouped(2, &[1], false)?);
    rounds.push(echo_id(&RoundId::new(1))?);
    rounds.push(echo_id(&RoundId::new(2))?);
    let long: Vec<u8> = (0..300).map(|i| i as u8).collect();
    let payloads: Vec<Option<Vec<u8>>> = vec![
        None,
        Some(vec![]),
        Some(vec![0]),
        Some(vec![1]),
        Some(vec![0, 0]),
        Some(b"\"a\"".to_vec()),
        Some(b"\"b\"".to_vec()),
        Some(vec![1, 0, 0, 0, 0, 0, 0, 0, 1, 97]),
        Some(long.clone()),
        Some(long[..256].to_vec()),
        Some(long[..299].iter().cloned().chain([0]).collect()),
        Some([0].into_iter().chain(long[1..].iter().cloned()).collect()),
    ];
    type Key = (usize, usize, usize, Option<Vec<u8>>);
    let mut by_key: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    let mut by_digest: BTreeMap<Vec<u8>, Key> = BTreeMap::new();
    for (si, s) in sessions.iter().enumerate() {
        for (ri, r) in rounds.iter().enumerate() {
            for shift in 0..payloads.len() {
                let p: Vec<Option<Vec<u8>>> = (0..3).map(|i| payloads[(shift + i * 3) % payloads.len()].clone()).collect();
                let texts: Parts = [0, 1, 2].map(|i| p[i].as_ref().map(|b: &Vec<u8>| raw(b)));
                SIGNED.with(|l| l.borrow_mut().clear());
                let m = craft(s, r, A, B, &texts, 1 + shift as u64)?;
                for i in 0..3 {
                    let part = part_v(&m, i)?;
                    if payload_of(&part)? != p[i] {
                        return skip("the payload is not stored as it was serialized");
                    }
                    let d = signed_digest(&part, A)?;
                    let key = (si, ri, i, p[i].clone());
                    let show = |k: &Key| format!("{:?}, {}, {} with payload {:?}", sessions[k.0], rounds[k.1], PARTS[k.2], k.3);
                    if let Some(old) = by_key.insert(key.clone(), d.clone()) {
                        ctx.check("signed-data-not-determined", old == d, || format!("two digests are signed for {}", show(&key)));
                    }
                    if let Some(old) = by_digest.insert(d, key.clone()) {
                        ctx.check("signed-data-ambiguous", old == key, || {
                            format!("the same digest is signed for {} and for {}", show(&old), show(&key))
                        });
                    }
                }
            }
        }
    }
    Ok(())
}

/// A signed part presented in any other context is refused.
pub fn transplants(ctx: &mut Ctx) -> R<()> {
    let sn = sid("here");
    let rounds = [RoundId::new(1), RoundId::new(2), echo_id(&RoundId::new(1))?, grouped(1, &[1], false)?];
    let long = "long ".repeat(100);
    let all: [&[Option<&str>; 3]; 4] =
        [&[Some("x"), Some("x"), Some("x")], &[None, None, None], &[Some(""), Some(""), Some("")], &[Some(&long), Some(&long), Some(&long)]];
    for shape in [[true, true, true], [false, false, false]] {
        let mut spec = RoundSpec::new(ti(RoundId::new(1)), shape, &[B]);
        spec.ci.echo_round_participation = EchoRoundParticipation::Send;
        let script = Arc::new(Script { rounds: vec![spec] });
        for texts in all.iter() {
            let p: Parts = [0, 1, 2].map(|i| texts[i].map(|t| t.to_string()));
            let good = craft(&sn, &rounds[0], B, A, &p, 1)?;
            for (what, donor) in [
                ("of another kind", craft(&sn, &rounds[0], B, A, &p, 2)?),
                ("of another session", craft(&sid("there"), &rounds[0], B, A, &p, 2)?),
                ("of another round", craft(&sn, &rounds[1], B, A, &p, 2)?),
                ("of the echo round", craft(&sn, &rounds[2], B, A, &p, 2)?),
                ("of a grouped round", craft(&sn, &rounds[3], B, A, &p, 2)?),
                ("of another party", craft(&sn, &rounds[0], C, A, &p, 2)?),
            ] {
                for i in 0..3 {
                    for j in 0..3 {
                        if what == "of another kind" && i == j {
                            continue;
                        }
                        for relabel in [false, true] {
                            let mut part = part_v(&donor, j)?;
                            if relabel {
                                *at_mut(&mut part, &["message_with_metadata", "metadata"])? =
                                    at(&part_v(&good, i)?, &["message_with_metadata", "metadata"])?.clone();
                            }
                            let m = with_part(&good, i, part)?;
                            let s: S<K> = start(&script, A, &sn, &new_log(), 3)?;
                            let mut a = s.make_accumulator();
                            let got = feed(&s, &mut a, B, &m);
                            ctx.check("signature-used-elsewhere", matches!(got, Fed::Refused(_)), || {
                                format!("a {} {what} as {} (texts {texts:?}, relabelled: {relabel}): {got:?}", PARTS[j], PARTS[i])
                            });
                        }
                    }
                }
            }
            // any change of the signed data
            for i in 0..3 {
                if let Some(bytes) = payload_of(&part_v(&good, i)?)? {
                    let mut changed: Vec<Vec<u8>> = (0..bytes.len())
                        .step_by(7)
                        .chain(bytes.len().checked_sub(2))
                        .map(|k| bytes.iter().enumerate().map(|(j, b)| if j == k { b'y' } else { *b }).collect())
                        .filter(|b| *b != bytes)
                        .collect();
                    changed.push(bytes.iter().cloned().chain([b' ']).collect());
                    for b in changed {
                        let mut part = part_v(&good, i)?;
                        *at_mut(&mut part, &["message_with_metadata", "message"])? = json!(base64(&b));
                        let m = with_part(&good, i, part)?;
                        let s: S<K> = start(&script, A, &sn, &new_log(), 3)?;
                        let mut a = s.make_accumulator();
                        let got = feed(&s, &mut a, B, &m);
                        ctx.check("changed-part-accepted", matches!(got, Fed::Refused(_)), || {
                            format!("a {} of {} bytes with the payload changed: {got:?}", PARTS[i], bytes.len())
                        });
                    }
                }
                for (path, payload) in [
                    (vec!["message_with_metadata", "metadata", "session_id"], false),
                    (vec!["signature"], false),
                    (vec!["message_with_metadata", "message"], true),
                ] {
                    let mut part = part_v(&good, i)?;
                    let x = at_mut(&mut part, &path)?;
                    if payload {
                        *x = if x.is_null() { json!(base64(b"")) } else { json!(base64(b"\"other\"")) };
                    } else {
                        flip(x, 8)?;
                    }
                    let m = match with_part(&good, i, part) {
                        Ok(m) => m,
                        Err(_) => continue,
                    };
                    let s: S<K> = start(&script, A, &sn, &new_log(), 3)?;
                    let mut a = s.make_accumulator();
                    let got = feed(&s, &mut a, B, &m);
                    ctx.check("changed-part-accepted", matches!(got, Fed::Refused(_)), || format!("a {} with {path:?} changed: {got:?}", PARTS[i]));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

pub fn shapes(ctx: &mut Ctx) -> R<()> {
    let sn = sid("shapes");
    for n in 0..8usize {
        let shape = [n & 1 != 0, n & 2 != 0, n & 4 != 0];
        clear_registry();
        register(K, &RoundId::new(1), shape);
        register(K, &RoundId::new(2), [true, true, true]);
        for x in 0..27usize {
            let state = [x % 3, x / 3 % 3, x / 9];
            // 0: absent, 1: well-formed, 2: garbage; the garbage is of several kinds
            let garbage: [&[u8]; 4] = [b"{", b"", b"17", b"{}"];
            for g in 0..4 {
                if g > 0 && !state.contains(&2) {
                    continue;
                }
                let p: Parts = [0, 1, 2].map(|i| match state[i] {
                    0 => None,
                    1 => Some(format!("text {i}")),
                    _ => Some(raw(garbage[(g + i) % 4])),
                });
                let malformed: Vec<bool> = (0..3).map(|i| if shape[i] { state[i] != 1 } else { state[i] != 0 }).collect();
                let m = craft(&sn, &RoundId::new(1), B, A, &p, 4)?;
                let mut spec = RoundSpec::new(ti(RoundId::new(1)), shape, &[B]);
                spec.ci.echo_round_participation = EchoRoundParticipation::Send;
                let log = new_log();
                let s: S<K> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &log, 3)?;
                let mut a = s.make_accumulator();
                let name = format!("shape (direct, echo, normal) {shape:?}, parts {p:?}");
                let got = feed(&s, &mut a, B, &m);
                if !ctx.check("well-signed-message-not-processed", got == Fed::Processed, || format!("{name}: {got:?}")) {
                    continue;
                }
                let received: Vec<Ev> = log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Received { .. })).cloned().collect();
                let ok = malformed.iter().all(|m| !m);
                if ok {
                    let want = [0, 1, 2].map(|i| if shape[i] { p[i].clone() } else { None });
                    ctx.check(
                        "typed-values",
                        received == vec![Ev::Received { node: A, round: format!("{K}:{}", RoundId::new(1)), from: B, parts: want }],
                        || format!("{name}: the round got {received:?}"),
                    );
                    ctx.check("good-message-refused", s.can_finalize(&a) == CanFinalize::Yes, || format!("{name}: a well-formed message was not accepted"));
                } else {
                    ctx.check("malformed-reached-the-round", received.is_empty(), || format!("{name}: the round got {received:?}"));
                    ctx.check("malformed-accepted", s.can_finalize(&a) == CanFinalize::Never, || format!("{name}: {:?}", s.can_finalize(&a)));
                }
                let rep = s.terminate(a)?;
                ctx.check("unprovable", rep.unprovable_errors.is_empty(), || format!("{name}: {:?}", rep.unprovable_errors));
                match rep.provable_errors.get(&B) {
                    None => {
                        ctx.check("malformed-not-blamed", ok, || format!("{name}: no evidence"));
                    }
                    Some(e) => {
                        let v = to_v(e)?;
                        let kinds = ["InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast"];
                        let named = at(&v, &["evidence"])?.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                        let i = kinds.iter().position(|k| *k == named);
                        ctx.check("wrong-part-blamed", i.map(|i| malformed[i]).unwrap_or(false), || format!("{name}: the evidence is {named}"));
                        let got = verify_in::<Puppet<K>>(&v, &Shared(42));
                        ctx.check("evidence-does-not-verify", got == Verdict::Confirmed, || format!("{name}: {got:?}"));
                        // the same form of evidence with each part, and in another round
                        for j in 0..3 {
                            let w = json!({"guilty_party": B, "description": "x", "evidence": { kinds[j]: part_v(&m, j)? }});
                            let got = verify_in::<Puppet<K>>(&w, &Shared(42));
                            ctx.check("blame-check-wrong", (got == Verdict::Confirmed) == malformed[j] && !matches!(got, Verdict::Panic(_) | Verdict::Local(_)), || {
                                format!("{name}: {} malformed: {}; checked: {got:?}", PARTS[j], malformed[j])
                            });
                        }
                    }
                }
                if ok {
                    for j in 0..3 {
                        let k = ["InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast"][j];
                        let w = json!({"guilty_party": B, "description": "x", "evidence": { k: part_v(&m, j)? }});
                        let got = verify_in::<Puppet<K>>(&w, &Shared(42));
                        ctx.check("blame-check-wrong", matches!(got, Verdict::Invalid(_)), || format!("{name}: {} is well-formed; checked: {got:?}", PARTS[j]));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P15

pub fn graphs(ctx: &mut Ctx) -> R<()> {
    let ids = |x: &[u8]| -> BTreeSet<RoundId> { x.iter().map(|n| RoundId::new(*n)).collect() };
    for n in 0..255u8 {
        let parents = if n > 1 { ids(&[n - 1]) } else { ids(&[]) };
        let t = TransitionInfo::new_linear(n);
        ctx.check("new-linear", t.id == RoundId::new(n) && t.parents == parents && t.siblings.is_empty() && t.children == ids(&[n + 1]) && !t.may_produce_result, || {
            format!("new_linear({n}) = {t:?}")
        });
        let u = t.clone().with_children(set(&[3, n, 200])).with_siblings(set(&[9, 250]));
        let mut ch = ids(&[3, n, 200]);
        ch.insert(RoundId::new(n + 1));
        ctx.check("with-children", u.id == t.id && u.parents == t.parents && u.siblings == ids(&[9, 250]) && u.children == ch && u.may_produce_result == t.may_produce_result, || {
            format!("with_children, with_siblings: {u:?}")
        });
        let u2 = u.clone().with_siblings(set(&[9, 4])).with_children(set(&[77]));
        ch.insert(RoundId::new(77));
        ctx.check("with-children", u2.siblings == ids(&[9, 250, 4]) && u2.children == ch && u2.parents == t.parents && u2.id == t.id, || format!("again: {u2:?}"));
    }
    for n in 0..=255u8 {
        let parents = if n > 1 { ids(&[n - 1]) } else { ids(&[]) };
        let t = TransitionInfo::new_linear_terminating(n);
        ctx.check("new-linear-terminating", t.id == RoundId::new(n) && t.parents == parents && t.siblings.is_empty() && t.children.is_empty() && t.may_produce_result, || {
            format!("new_linear_terminating({n}) = {t:?}")
        });
        ctx.check("round-number", RoundId::new(n) == n && RoundId::from(n) == RoundId::new(n) && !(RoundId::new(n) == n.wrapping_add(1)), || format!("RoundId::new({n})"));
    }
    let mut all = vec![];
    for n in [0u8, 1, 2, 3, 255] {
        for g in [&[][..], &[1u8], &[2], &[1, 2], &[2, 1], &[1, 1], &[1, 1, 1], &[2, 2, 2, 2], &[1, 2, 1, 2, 1], &[2, 2, 2, 2, 2, 2]] {
            for e in [false, true] {
                all.push(grouped(n, g, e)?);
            }
        }
    }
    for (i, x) in all.iter().enumerate() {
        for (j, y) in all.iter().enumerate() {
            ctx.check("identifiers-mixed-up", (x == y) == (i == j) && (x.cmp(y) == std::cmp::Ordering::Equal) == (i == j) && (x.to_string() == y.to_string()) == (i == j), || {
                format!("{x} and {y}")
            });
        }
        let back: RoundId = from_v(&to_v(x)?)?;
        ctx.check("identifier-round-trip", back == *x, || format!("{x} reads back as {back}"));
        let ec = echo_id(x)?;
        let plain = x.to_string().contains("(echo)") == (ec == *x);
        ctx.check("echo-identifier", plain, || format!("{x}"));
    }
    Ok(())
}

/// Which messages a session keeps, for a round with arbitrary (also grouped) neighbours.
pub fn neighbours(ctx: &mut Ctx) -> R<()> {
    let sn = sid("neighbours");
    let mut pool = vec![];
    for n in [1u8, 2, 3, 4, 5] {
        for g in [&[][..], &[1u8], &[2], &[1, 2]] {
            pool.push(grouped(n, g, false)?);
        }
    }
    let mut r = rng(ctx.seed ^ 0x515);
    let rounds = if ctx.thorough { 2000 } else { 120 };
    for _ in 0..rounds {
        let mut t = ti(pick(&mut r, &pool).clone());
        for k in 0..3 {
            for _ in 0..r.next_u32() % 3 {
                let x = pick(&mut r, &pool).clone();
                match k {
                    0 => t.parents.insert(x),
                    1 => t.siblings.insert(x),
                    _ => t.children.insert(x),
                };
            }
        }
        let echo = coin(&mut r, 2);
        let mut spec = RoundSpec::new(t.clone(), [true, echo, true], &[B, C]);
        let default = coin(&mut r, 2);
        if !default {
            spec.ci.echo_round_participation = EchoRoundParticipation::Send;
        }
        let with_echo = echo && default;
        let mut expected: BTreeSet<RoundId> = t.parents.iter().chain(&t.siblings).chain(&t.children).cloned().collect();
        if with_echo {
            expected.insert(echo_id(&t.id)?);
        }
        let script = Arc::new(Script { rounds: vec![spec] });
        let mut tests = pool.clone();
        for x in &pool {
            tests.push(echo_id(x)?);
        }
        for x in tests {
            let s: S<K> = start(&script, A, &sn, &new_log(), 3)?;
            let mut a = s.make_accumulator();
            let m = craft(&sn, &x, B, A, &parts(Some("d"), Some("e"), Some("n")), 5)?;
            let got = feed(&s, &mut a, B, &m);
            let want = if x == t.id { "processed" } else if expected.contains(&x) { "cached" } else { "refused" };
            let ok = match &got {
                Fed::Processed => want == "processed",
                Fed::Cached => want == "cached",
                Fed::Refused(_) => want == "refused",
                Fed::Local(_) => false,
            };
            ctx.check("simultaneous-rounds", ok, || format!("in {t:?} (followed by an echo round: {with_echo}), a message for {x} should be {want}, was {got:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- full runs

pub fn everyone(n: u8) -> Vec<Vid> {
    (0..n).map(Vid).collect()
}

fn others(n: u8, me: Vid) -> Vec<Vid> {
    everyone(n).into_iter().filter(|v| *v != me).collect()
}

/// A script for a party in a run of `n` parties through rounds with these shapes.
pub fn linear(me: Vid, n: u8, shapes: &[[bool; 3]], draw: bool, result: &str) -> Arc<Script> {
    let last = shapes.len() as u8;
    let mut rounds = vec![];
    for (i, sh) in shapes.iter().enumerate() {
        let r = i as u8 + 1;
        let t = if r == last { TransitionInfo::new_linear_terminating(r) } else { TransitionInfo::new_linear(r) };
        let mut s = RoundSpec::new(t, *sh, &others(n, me));
        s.echo = format!("echo {r} of {}", me.0);
        s.normal = format!("normal {r} of {}", me.0);
        for o in others(n, me) {
            s.direct.insert(o, format!("direct {r} of {} to {}", me.0, o.0));
        }
        s.draw_rng = draw;
        s.fin = if r == last { Fin::Result(format!("{result} of {}", me.0)) } else { Fin::Next(i + 1) };
        rounds.push(s);
    }
    Arc::new(Script { rounds })
}

fn sessions<const Q: usize>(n: u8, sn: &SessionId, shapes: &[[bool; 3]], log: &Log, seed: u64, pad: &str) -> R<BTreeMap<Vid, (S<Q>, rand_chacha::ChaCha8Rng)>> {
    let mut out = BTreeMap::new();
    for me in everyone(n) {
        let mut r = rng(seed * 100 + me.0 as u64);
        let mut script = linear(me, n, shapes, false, "result");
        for x in Arc::get_mut(&mut script).expect("not shared yet").rounds.iter_mut() {
            x.echo.push_str(pad);
        }
        let ep = Entry::<Q> { script, log: log.clone(), draw_rng: false };
        let s: S<Q> = Session::new(&mut r, sn.clone(), Sgn(me.0), ep)?;
        out.insert(me, (s, r));
    }
    Ok(out)
}

fn random_shapes(r: &mut rand_chacha::ChaCha8Rng) -> Vec<[bool; 3]> {
    (0..1 + r.next_u32() % 4).map(|_| [coin(r, 2), coin(r, 2), coin(r, 2)]).collect()
}

/// Honest parties, any delivery order: everybody finishes, with everything that was sent.
pub fn honest_runs(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x44);
    let runs = if ctx.thorough { 3000 } else { 150 };
    for i in 0..runs {
        let n = 2 + (r.next_u32() % 4) as u8;
        let shapes = random_shapes(&mut r);
        clear_registry();
        for (j, s) in shapes.iter().enumerate() {
            register(K, &RoundId::new(j as u8 + 1), *s);
        }
        let log = new_log();
        let sn = sid("honest");
        let out = sim::run(sessions::<K>(n, &sn, &shapes, &log, i, "")?, Some(i), &mut |_| None);
        let name = format!("{n} honest parties, rounds {shapes:?}, order {i}");
        let mut path = vec![];
        for (j, s) in shapes.iter().enumerate() {
            path.push(RoundId::new(j as u8 + 1));
            if s[1] {
                path.push(echo_id(&RoundId::new(j as u8 + 1))?);
            }
        }
        for (id, node) in &out.nodes {
            ctx.check("honest-run-trouble", node.trouble.is_empty(), || format!("{name}: {id:?}: {:?}", node.trouble));
            ctx.check("honest-run-path", node.path == path, || format!("{name}: {id:?} went through {:?}", node.path));
            match &node.report {
                None => ctx.fail("honest-run-no-report", format!("{name}: {id:?}")),
                Some(rep) => {
                    let res = match &rep.outcome {
                        SessionOutcome::Result(x) => x.clone(),
                        x => x.brief(),
                    };
                    ctx.check("honest-run-no-result", res == format!("result of {}", id.0), || format!("{name}: {id:?}: {}", rep.brief()));
                    ctx.check("honest-party-reported", rep.provable_errors.is_empty() && rep.unprovable_errors.is_empty() && rep.missing_messages.is_empty(), || {
                        format!("{name}: {id:?}: {}", rep.brief())
                    });
                }
            }
        }
        // what each round was given in the end
        let evs = log.lock().unwrap().clone();
        for me in everyone(n) {
            for (j, sh) in shapes.iter().enumerate() {
                let rn = j as u8 + 1;
                let want: Vec<(Vid, String)> = others(n, me)
                    .into_iter()
                    .map(|o| {
                        let p: Parts = [
                            if sh[0] { Some(format!("direct {rn} of {} to {}", o.0, me.0)) } else { None },
                            if sh[1] { Some(format!("echo {rn} of {}", o.0)) } else { None },
                            if sh[2] { Some(format!("normal {rn} of {}", o.0)) } else { None },
                        ];
                        (o, format!("payload {} {p:?}", o.0))
                    })
                    .collect();
                let arts: Vec<(Vid, String)> = others(n, me)
                    .into_iter()
                    .map(|o| (o, format!("artifact {} direct {rn} of {} to {}", o.0, me.0, o.0)))
                    .collect();
                let got: Vec<&Ev> = evs
                    .iter()
                    .filter(|e| matches!(e, Ev::Finalized { node, round, .. } if *node == me && *round == format!("{K}:{}", RoundId::new(rn))))
                    .collect();
                let ok = match got.as_slice() {
                    [Ev::Finalized { payloads, artifacts, .. }] => *payloads == want && *artifacts == arts,
                    _ => false,
                };
                ctx.check("round-inputs", ok, || format!("{name}: round {rn} of {me:?} was finalized with {got:?}"));
            }
        }
        // outgoing messages
        let mut first: BTreeMap<(Vid, RoundId), [Value; 2]> = BTreeMap::new();
        for w in &out.wires {
            let e = [part_v(&w.msg, 1)?, part_v(&w.msg, 2)?];
            let f = first.entry((w.from, w.round.clone())).or_insert(e.clone());
            ctx.check("broadcasts-differ", *f == e, || format!("{name}: {:?} in {} to {:?}", w.from, w.round, w.to));
            ctx.check("destination", *w.msg.destination() == w.to, || format!("{name}: a message for {:?} says {:?}", w.to, w.msg.destination()));
        }
        for me in everyone(n) {
            for p in &path {
                let to: BTreeSet<Vid> = out.wires.iter().filter(|w| w.from == me && w.round == *p).map(|w| w.to).collect();
                ctx.check("destinations", to == others(n, me).into_iter().collect(), || format!("{name}: {me:?} in {p} sent to {to:?}"));
            }
        }
    }
    Ok(())
}

/// One party sends different echo broadcasts: nobody honest is reported, and it does not stay hidden.
pub fn equivocation(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x45);
    let runs = if ctx.thorough { 3000 } else { 200 };
    for i in 0..runs {
        let n = 3 + (r.next_u32() % 3) as u8;
        let liar = Vid((r.next_u32() % n as u32) as u8);
        let shapes = vec![[coin(&mut r, 2), true, coin(&mut r, 2)], [true, coin(&mut r, 2), false]];
        clear_registry();
        for (j, s) in shapes.iter().enumerate() {
            register(K, &RoundId::new(j as u8 + 1), *s);
        }
        let victims: Vec<Vid> = others(n, liar);
        let mask = 1 + r.next_u32() % ((1 << victims.len()) - 1);
        let fooled: BTreeSet<Vid> = victims.iter().enumerate().filter(|(j, _)| mask >> j & 1 == 1).map(|x| *x.1).collect();
        let sn = sid("equivocation");
        let log = new_log();
        let sh = shapes[0];
        let fooled2 = fooled.clone();
        let sn2 = sn.clone();
        let mut failed = None;
        // the two broadcasts may be long, and differ in one place
        let pad = "p".repeat([0, 40, 300, 1000][(i / 4 % 4) as usize]);
        let honest = format!("echo 1 of {}{pad}", liar.0);
        let other = match i % 4 {
            0 => "the other broadcast".to_string(),
            1 => format!("{}?", &honest[..honest.len() - 1]),
            2 => format!("?{}", &honest[1..]),
            _ => honest[..honest.len() - 1].to_string(),
        };
        let out = sim::run(sessions::<K>(n, &sn, &shapes, &log, i, &pad)?, Some(i), &mut |w| {
            if w.from != liar || w.round != RoundId::new(1) || !fooled2.contains(&w.to) {
                return None;
            }
            let p: Parts = [
                if sh[0] { Some(format!("direct 1 of {} to {}", liar.0, w.to.0)) } else { None },
                Some(other.clone()),
                if sh[2] { Some(format!("normal 1 of {}", liar.0)) } else { None },
            ];
            match craft(&sn2, &RoundId::new(1), liar, w.to, &p, 10) {
                Ok(m) => Some(m),
                Err(e) => {
                    failed = Some(e);
                    None
                }
            }
        });
        if let Some(e) = failed {
            return Err(e);
        }
        let name = format!("{n} parties, {liar:?} sends another broadcast to {fooled:?}, order {i}");
        let split = fooled.len() < victims.len();
        let mut exposed = false;
        let mut done = BTreeSet::new();
        for id in &victims {
            let node = &out.nodes[id];
            let rep = match &node.report {
                Some(r) => r,
                None => {
                    ctx.fail("run-without-report", format!("{name}: {id:?}: {:?}", node.trouble));
                    continue;
                }
            };
            for (g, e) in &rep.provable_errors {
                // the liar does not know it sent two broadcasts: it reports what others echo to it
                ctx.check("honest-party-reported", *g == liar, || format!("{name}: {id:?} reports {g:?}: {}", e.description()));
                if *g == liar {
                    exposed = true;
                }
                let got = verify_in::<Puppet<K>>(&to_v(e)?, &Shared(42));
                ctx.check("evidence-does-not-verify", got == Verdict::Confirmed, || format!("{name}: of {id:?}: {got:?}"));
            }
            for g in rep.unprovable_errors.keys() {
                ctx.check("honest-party-reported", *g == liar, || format!("{name}: {id:?} reports {g:?} without proof"));
            }
            if matches!(rep.outcome, SessionOutcome::Result(_)) {
                done.insert(*id);
            }
        }
        if split {
            ctx.check("equivocation-hidden", exposed, || format!("{name}: nobody has evidence"));
            let both = done.iter().any(|d| fooled.contains(d)) && done.iter().any(|d| !fooled.contains(d));
            ctx.check("inconsistent-broadcasts-accepted", !both, || format!("{name}: {done:?} all finished"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P13

pub fn reports(ctx: &mut Ctx) -> R<()> {
    let sn = sid("reports");
    clear_registry();
    register(K, &RoundId::new(1), [true, false, true]);
    for n in 0..27usize {
        // each of three peers: 0 good, 1 malformed, 2 silent
        let st = [n % 3, n / 3 % 3, n / 9];
        let peers = [B, C, Vid(3)];
        let mut spec = RoundSpec::new(ti(RoundId::new(1)), [true, false, true], &peers);
        spec.fin = Fin::Result("the result".into());
        let s: S<K> = start(&Arc::new(Script { rounds: vec![spec] }), A, &sn, &new_log(), 3)?;
        let mut a = s.make_accumulator();
        outgoing(&s, &mut a, 5)?;
        for (i, p) in peers.iter().enumerate() {
            let texts = match st[i] {
                0 => parts(Some("d"), None, Some("n")),
                1 => parts(None, None, Some("n")),
                _ => continue,
            };
            let m = craft(&sn, &RoundId::new(1), *p, A, &texts, 9)?;
            let got = feed(&s, &mut a, *p, &m);
            if got != Fed::Processed {
                return skip(format!("{got:?}"));
            }
        }
        let bad: BTreeSet<Vid> = (0..3).filter(|i| st[*i] == 1).map(|i| peers[i]).collect();
        let silent: BTreeSet<Vid> = (0..3).filter(|i| st[*i] == 2).map(|i| peers[i]).collect();
        let mut missing: BTreeMap<RoundId, BTreeSet<Vid>> = BTreeMap::new();
        if !silent.is_empty() {
            missing.insert(RoundId::new(1), silent.clone());
        }
        let (rep, want) = if n % 2 == 0 && s.can_finalize(&a) == CanFinalize::Yes {
            match s.finalize_round(&mut rng(1), a)? {
                RoundOutcome::Finished(r) => (r, "Success (\"the result\")"),
                _ => return skip("no report"),
            }
        } else if n % 3 == 0 {
            (s.terminate(a)?, "Terminated by the user")
        } else {
            (s.terminate_due_to_errors(a)?, "Not enough messages to finalize, terminated")
        };
        let name = format!("peers {st:?}");
        let kind = match &rep.outcome {
            SessionOutcome::Result(_) => "Success",
            SessionOutcome::NotEnoughMessages => "Not enough",
            SessionOutcome::Terminated => "Terminated",
        };
        ctx.check("outcome", want.starts_with(kind), || format!("{name}: {kind} instead of {want}"));
        ctx.check("errors-in-report", keys(&rep.provable_errors) == bad && rep.unprovable_errors.is_empty(), || format!("{name}: {}", rep.brief()));
        // every party that was expected and did not get a message accepted, except those reported with evidence
        let got: BTreeMap<RoundId, BTreeSet<Vid>> = rep.missing_messages.iter().filter(|x| !x.1.is_empty()).map(|x| (x.0.clone(), x.1.clone())).collect();
        ctx.check("missing-in-report", got == missing, || format!("{name}: missing {got:?} instead of {missing:?}"));
        let ok = (kind == "Success") == (rep.result() == Some("the result".to_string()));
        ctx.check("result", ok, || name.clone());
    }
    Ok(())
}

// ---------------------------------------------------------------- P17

/// What is read back, and whether what was written is what is written for the sequence of pairs.
fn in_format<F: WireFormat>(m: &SerializableMap<u16, u16>, pairs: &Vec<(u16, u16)>) -> (Option<BTreeMap<u16, u16>>, bool) {
    use serde::Deserialize;
    let a = F::serialize(m).ok();
    let b = F::serialize(pairs).ok();
    let back = a.as_ref().and_then(|a| SerializableMap::<u16, u16>::deserialize(F::deserializer(a)).ok());
    (back.map(BTreeMap::from), a.is_some() && a == b)
}

pub fn helpers(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x17);
    let runs = if ctx.thorough { 20000 } else { 2000 };
    for i in 0..runs {
        // mostly small maps, with many coincidences; now and then a big one
        let (n, keys) = if i % 50 == 49 { (r.next_u32() % 1500, 3000) } else { (r.next_u32() % 6, 8) };
        let m: BTreeMap<u16, u16> = (0..n).map(|_| ((r.next_u32() % keys) as u16, r.next_u32() as u16)).collect();
        let x = (r.next_u32() % (keys + 1)) as u16;
        let st: BTreeSet<u16> = m.keys().cloned().collect();
        let w: BTreeMap<u16, u16> = m.iter().filter(|e| *e.0 != x).map(|e| (*e.0, *e.1)).collect();
        let ws: BTreeSet<u16> = st.iter().filter(|e| **e != x).cloned().collect();
        ctx.check("without", m.clone().without(&x) == w, || format!("{m:?} without {x}: {:?}", m.clone().without(&x)));
        ctx.check("without", st.clone().without(&x) == ws, || format!("{st:?} without {x}: {:?}", st.clone().without(&x)));
        let f: BTreeMap<u16, String> = m.iter().map(|e| (*e.0, format!("<{}>", e.1))).collect();
        ctx.check("map-values", m.clone().map_values(|v| format!("<{v}>")) == f, || format!("{m:?}"));
        ctx.check("map-values-ref", m.map_values_ref(|v| format!("<{v}>")) == f, || format!("{m:?}"));
        let l = m.get_or_local_error("the map", &x);
        ctx.check("get-or-local-error", l.as_ref().ok().copied() == m.get(&x), || format!("{x} in {m:?}: {l:?}"));
        let e = m.get_or_invalid_evidence("the map", &x);
        let ok = match (&e, m.get(&x)) {
            (Ok(v), Some(u)) => *v == u,
            (Err(EvidenceError::InvalidEvidence(_)), None) => true,
            _ => false,
        };
        ctx.check("get-or-invalid-evidence", ok, || format!("{x} in {m:?}: {e:?}"));
        // the serialized map
        let sm: SerializableMap<u16, u16> = m.clone().into();
        let pairs: Vec<(u16, u16)> = m.iter().map(|e| (*e.0, *e.1)).collect();
        ctx.check("serializable-map", serde_json::to_value(&sm).ok() == serde_json::to_value(&pairs).ok(), || format!("{m:?}"));
        for binary in [false, true] {
            let (a, b) = if binary { in_format::<manul::dev::BinaryFormat>(&sm, &pairs) } else { in_format::<manul::dev::HumanReadableFormat>(&sm, &pairs) };
            ctx.check("serializable-map", a == Some(m.clone()) && b, || format!("{m:?} written and read back in a format (binary: {binary}): {a:?}, as a sequence: {b}"));
        }
        let mut any: Vec<(u16, u16)> = pairs.clone();
        for _ in 0..r.next_u32() % 3 {
            any.push(((r.next_u32() % keys) as u16, r.next_u32() as u16));
        }
        if coin(&mut r, 3) && !any.is_empty() {
            let p = *pick(&mut r, &any);
            any.push(p);
        }
        let distinct: BTreeSet<u16> = any.iter().map(|p| p.0).collect();
        let back: Result<SerializableMap<u16, u16>, _> = serde_json::from_value(json!(any));
        let ok = match back {
            Ok(b) => distinct.len() == any.len() && BTreeMap::from(b) == any.iter().cloned().collect::<BTreeMap<u16, u16>>(),
            Err(_) => distinct.len() != any.len(),
        };
        ctx.check("serializable-map", ok, || format!("{any:?} read as a map"));
        let collected: SerializableMap<u16, u16> = pairs.iter().cloned().collect();
        ctx.check("serializable-map", *collected == m && BTreeMap::from(collected) == m, || format!("{pairs:?} collected"));
        let mut edited: SerializableMap<u16, u16> = m.clone().into();
        edited.insert(77, 1);
        let mut m2 = m.clone();
        m2.insert(77, 1);
        ctx.check("serializable-map", BTreeMap::from(edited) == m2, || format!("{m:?} with 77"));
    }
    ctx.check("verify-that", verify_that(true).is_ok() && matches!(verify_that(false), Err(EvidenceError::InvalidEvidence(_))), || "verify_that".into());
    Ok(())
}

// ---------------------------------------------------------------- P18

mod simple {
    //! A protocol that only uses the defaults of the round trait.
    use super::*;
    use manul::protocol::*;
    use rand_core::CryptoRngCore;
    use serde::{Deserialize, Serialize};

    #[derive(Debug, Serialize, Deserialize)]
    pub struct P;
    #[derive(Debug)]
    pub struct Quiet {
        pub peers: BTreeSet<Vid>,
    }
    /// A message type, but no function that makes the message.
    #[derive(Debug)]
    pub struct Forgetful<const W: usize> {
        pub peers: BTreeSet<Vid>,
    }

    impl Protocol<Vid> for P {
        type Result = Vec<Vid>;
        type SharedData = ();
        fn round_info(id: &RoundId) -> Option<RoundInfo<Vid, Self>> {
            if id == &RoundId::new(1) {
                Some(RoundInfo::new::<Quiet>())
            } else {
                None
            }
        }
    }

    fn ti() -> TransitionInfo {
        TransitionInfo::new_linear_terminating(1)
    }

    impl Round<Vid> for Quiet {
        type Protocol = P;
        type ProtocolError = NoProtocolErrors<Self>;
        type DirectMessage = NoMessage;
        type EchoBroadcast = NoMessage;
        type NormalBroadcast = NoMessage;
        type Payload = u8;
        type Artifact = NoArtifact;
        fn transition_info(&self) -> TransitionInfo {
            ti()
        }
        fn communication_info(&self) -> CommunicationInfo<Vid> {
            CommunicationInfo::regular(&self.peers)
        }
        fn receive_message(&self, from: &Vid, _m: ProtocolMessage<Vid, Self>) -> Result<u8, ReceiveError<Vid, Self>> {
            Ok(from.0)
        }
        fn finalize(
            self,
            _rng: &mut impl CryptoRngCore,
            payloads: BTreeMap<Vid, u8>,
            _artifacts: BTreeMap<Vid, NoArtifact>,
        ) -> Result<FinalizeOutcome<Vid, P>, LocalError> {
            Ok(FinalizeOutcome::Result(payloads.into_keys().collect()))
        }
    }

    macro_rules! forgetful {
        ($w:literal, $d:ty, $e:ty, $n:ty) => {
            impl Round<Vid> for Forgetful<$w> {
                type Protocol = P;
                type ProtocolError = NoProtocolErrors<Self>;
                type DirectMessage = $d;
                type EchoBroadcast = $e;
                type NormalBroadcast = $n;
                type Payload = u8;
                type Artifact = NoArtifact;
                fn transition_info(&self) -> TransitionInfo {
                    ti()
                }
                fn communication_info(&self) -> CommunicationInfo<Vid> {
                    CommunicationInfo::regular(&self.peers)
                }
                fn receive_message(&self, from: &Vid, _m: ProtocolMessage<Vid, Self>) -> Result<u8, ReceiveError<Vid, Self>> {
                    Ok(from.0)
                }
                fn finalize(
                    self,
                    _rng: &mut impl CryptoRngCore,
                    payloads: BTreeMap<Vid, u8>,
                    _artifacts: BTreeMap<Vid, NoArtifact>,
                ) -> Result<FinalizeOutcome<Vid, P>, LocalError> {
                    Ok(FinalizeOutcome::Result(payloads.into_keys().collect()))
                }
            }
        };
    }
    forgetful!(0, Msg, NoMessage, NoMessage);
    forgetful!(1, NoMessage, Msg, NoMessage);
    forgetful!(2, NoMessage, NoMessage, Msg);

    #[derive(Debug)]
    pub struct Start {
        pub what: usize,
        pub peers: BTreeSet<Vid>,
    }
    impl EntryPoint<Vid> for Start {
        type Protocol = P;
        fn entry_round_id() -> RoundId {
            RoundId::new(1)
        }
        fn make_round(self, _rng: &mut impl CryptoRngCore, _s: &[u8], _id: &Vid) -> Result<BoxedRound<Vid, P>, LocalError> {
            Ok(match self.what {
                0 => BoxedRound::new(Forgetful::<0> { peers: self.peers }),
                1 => BoxedRound::new(Forgetful::<1> { peers: self.peers }),
                2 => BoxedRound::new(Forgetful::<2> { peers: self.peers }),
                _ => BoxedRound::new(Quiet { peers: self.peers }),
            })
        }
    }
}

pub fn defaults(ctx: &mut Ctx) -> R<()> {
    let sn = sid("defaults");
    let mut ss = BTreeMap::new();
    for me in everyone(3) {
        let mut r = rng(me.0 as u64);
        let ep = simple::Start { what: 3, peers: others(3, me).into_iter().collect() };
        let s: Session<simple::P, Sp> = Session::new(&mut r, sn.clone(), Sgn(me.0), ep)?;
        ss.insert(me, (s, r));
    }
    let out = sim::run(ss, None, &mut |_| None);
    for (id, n) in out.nodes {
        ctx.check("quiet-round", n.trouble.is_empty(), || format!("{:?}", n.trouble));
        let res = n.report.and_then(|r| r.result());
        ctx.check("quiet-round", res == Some(others(3, id)), || format!("{res:?}"));
    }
    for w in &out.wires {
        for i in 0..3 {
            ctx.check("quiet-round", payload_of(&part_v(&w.msg, i)?)?.is_none(), || format!("{} is not empty", PARTS[i]));
        }
    }
    for what in 0..3 {
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), LocalError> {
            let ep = simple::Start { what, peers: set(&[B]) };
            let s: Session<simple::P, Sp> = Session::new(&mut rng(3), sn.clone(), Sgn(0), ep)?;
            s.make_message(&mut rng(4), &B)?;
            Ok(())
        }));
        ctx.check("forgotten-message", matches!(r, Ok(Err(_))), || format!("a round that does not make its {} could send", PARTS[what]));
    }
    // nobody to talk to: the round is ready at once
    let ep = simple::Start { what: 3, peers: BTreeSet::new() };
    let s: Session<simple::P, Sp> = Session::new(&mut rng(3), sn.clone(), Sgn(0), ep)?;
    let a = s.make_accumulator();
    ctx.check("no-peers", s.message_destinations().is_empty() && s.can_finalize(&a) == CanFinalize::Yes, || "a round without peers is not ready".into());
    Ok(())
}

/// P11, for rounds without protocol errors: such an error in evidence is invalid, and never more than that.
pub fn no_errors(ctx: &mut Ctx) -> R<()> {
    clear_registry();
    register(K, &RoundId::new(1), [true, true, true]);
    let sn = sid("no errors");
    let spec = ErrSpec::simple([None, Some("n"), Some("d")], B, sn.as_ref(), 1);
    let mut round = RoundSpec::new(ti(RoundId::new(1)), [true, true, true], &[B]);
    round.ci.echo_round_participation = EchoRoundParticipation::Send;
    round.recv.insert(B, Recv::Protocol(spec));
    let s: S<K> = start(&Arc::new(Script { rounds: vec![round] }), A, &sn, &new_log(), 3)?;
    let mut a = s.make_accumulator();
    let m = craft(&sn, &RoundId::new(1), B, A, &parts(Some("d"), Some("e"), Some("n")), 4)?;
    if feed(&s, &mut a, B, &m) != Fed::Processed {
        return skip("not processed");
    }
    let rep = s.terminate(a)?;
    let v = match rep.provable_errors.get(&B) {
        Some(e) => to_v(e)?,
        None => return skip("no evidence"),
    };
    let mut bodies = vec![at(&v, &["evidence", "Protocol", "error"])?.clone()];
    for b in [&b"null"[..], b"{}", b"[]", b"", b"{\"phantom\":null}", b"[null]", b"0"] {
        bodies.push(json!(base64(b)));
    }
    for b in bodies {
        let mut w = v.clone();
        *at_mut(&mut w, &["evidence", "Protocol", "error"])? = b.clone();
        let got = verify_in::<simple::P>(&w, &());
        ctx.check("hostile-evidence-fails-locally", matches!(got, Verdict::Invalid(_) | Verdict::Unreadable), || {
            format!("a protocol error for a round without protocol errors, serialized as {b}: {got:?}")
        });
    }
    Ok(())
}
