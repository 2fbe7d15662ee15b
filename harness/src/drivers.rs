//! The drivers (`run_session`, `par_run_session`, `run_sync`, `run_async`) against the same session run by hand.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::{Duration, Instant};

use manul::protocol::*;
use manul::session::tokio::{par_run_session, run_session, MessageIn, MessageOut};
use manul::session::*;
use rand_core::RngCore;
use ::tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::more::{everyone, linear};
use crate::puppet::*;
use crate::sim::{self, Node, Wire};
use crate::util::*;

const A: Vid = Vid(0);
const K: usize = 3;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Plain,
    Par,
}

fn rt() -> R<::tokio::runtime::Runtime> {
    ::tokio::runtime::Builder::new_current_thread().enable_time().build().map_err(|e| Skip(e.to_string()))
}

fn round_of(m: &M) -> R<RoundId> {
    from_v(at(&part_v(m, 0)?, &["message_with_metadata", "metadata", "round_id"])?)
}

fn kind<P: Protocol<Vid>>(r: &SessionReport<P, Sp>) -> &'static str {
    match &r.outcome {
        SessionOutcome::Result(_) => "result",
        SessionOutcome::NotEnoughMessages => "not enough messages",
        SessionOutcome::Terminated => "terminated",
    }
}

/// What a report says.
fn summary(r: &SessionReport<Puppet<K>, Sp>) -> String {
    let res = match &r.outcome {
        SessionOutcome::Result(x) => x.clone(),
        _ => String::new(),
    };
    format!(
        "{} {res}; provable {:?}; unprovable {:?}; missing {:?}",
        kind(r),
        keys(&r.provable_errors),
        keys(&r.unprovable_errors),
        r.missing_messages.iter().filter(|x| !x.1.is_empty()).collect::<Vec<_>>(),
    )
}

/// The party `A` (`star`), run by a driver, with everybody else and a second `A` run by hand.
struct Scene {
    n: u8,
    /// The party whose part differs from the others'.
    star: Vid,
    shapes: Vec<[bool; 3]>,
    /// Parties whose messages `A` rejects, in the given round.
    faulty: BTreeMap<Vid, usize>,
    /// The parties from whom `A` gets nothing, from the given round on.
    silent: BTreeMap<Vid, usize>,
    /// Parties `A` does not wait for.
    early: BTreeMap<usize, Vid>,
    /// Rounds in which `A` sends nothing.
    listens: BTreeSet<usize>,
    noise: bool,
    seed: u64,
}

fn scene(i: u64, r: &mut rand_chacha::ChaCha8Rng) -> Scene {
    let n = 2 + (r.next_u32() % 4) as u8;
    let shapes: Vec<[bool; 3]> = (0..1 + r.next_u32() % 4).map(|_| [coin(r, 2), coin(r, 3), coin(r, 2)]).collect();
    let mut s = Scene { n, star: A, shapes, faulty: BTreeMap::new(), silent: BTreeMap::new(), early: BTreeMap::new(), listens: BTreeSet::new(), noise: coin(r, 3), seed: i };
    // only in the last round: the others do not wait for `A`, and could get two rounds ahead of it
    let last = s.shapes.len() - 1;
    if !s.shapes[last][1] && coin(r, 2) {
        s.listens.insert(last);
    }
    let peer = |r: &mut rand_chacha::ChaCha8Rng| Vid(1 + (r.next_u32() % (n as u32 - 1)) as u8);
    let round = |r: &mut rand_chacha::ChaCha8Rng, s: &Scene| (r.next_u32() as usize) % s.shapes.len();
    match i % 4 {
        1 => {
            let k = (peer(r), round(r, &s));
            s.faulty.insert(k.0, k.1);
        }
        2 => {
            let k = (peer(r), round(r, &s));
            s.silent.insert(k.0, k.1);
        }
        3 => {
            let k = (round(r, &s), peer(r));
            if !s.shapes[k.0][1] {
                s.early.insert(k.0, k.1);
            }
        }
        _ => {}
    }
    s
}

fn entry(s: &Scene, me: Vid, log: &Log) -> Entry<K> {
    let mut script = linear(me, s.n, &s.shapes, false, "result");
    let sc = Arc::get_mut(&mut script).expect("not shared yet");
    for j in &s.listens {
        if me == s.star {
            sc.rounds[*j].ci.message_destinations.clear();
        } else {
            sc.rounds[*j].ci.expecting_messages_from.remove(&s.star);
        }
    }
    if me == s.star {
        let sc = Arc::get_mut(&mut script).expect("not shared yet");
        for (v, j) in &s.faulty {
            sc.rounds[*j].recv.insert(*v, Recv::Unprovable);
        }
        for (j, v) in &s.early {
            sc.rounds[*j].ci.expecting_messages_from.remove(v);
        }
    }
    Entry { script, log: log.clone(), draw_rng: false }
}

fn received(log: &Log, me: Vid) -> Vec<Ev> {
    log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Received { node, .. } if *node == me)).cloned().collect()
}

fn finalized(log: &Log, me: Vid) -> Vec<Ev> {
    log.lock().unwrap().iter().filter(|e| matches!(e, Ev::Finalized { node, .. } if *node == me)).cloned().collect()
}

fn sorted(v: &[Ev]) -> Vec<String> {
    let mut v: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect();
    v.sort();
    v
}

fn play(ctx: &mut Ctx, s: &Scene, mode: Mode) -> R<bool> {
    let name = format!(
        "{mode:?} driver, {} parties, rounds {:?}, faulty {:?}, silent {:?}, early {:?}, listens {:?}, noise {}, order {}",
        s.n, s.shapes, s.faulty, s.silent, s.early, s.listens, s.noise, s.seed
    );
    clear_registry();
    for (j, sh) in s.shapes.iter().enumerate() {
        register(K, &RoundId::new(j as u8 + 1), *sh);
    }
    let sn = sid("driven");
    let (dlog, mlog, plog) = (new_log(), new_log(), new_log());
    let mut peers: BTreeMap<Vid, Node<Puppet<K>>> = BTreeMap::new();
    let mut pool: Vec<Wire> = vec![];
    let (mut wires, mut nowhere, mut mirror_wires) = (vec![], vec![], vec![]);
    for me in everyone(s.n) {
        if me != A {
            let mut r = rng(s.seed * 100 + me.0 as u64);
            let ses: S<K> = Session::new(&mut r, sn.clone(), Sgn(me.0), entry(s, me, &plog))?;
            peers.insert(me, Node::new(ses, r));
        }
    }
    for (me, n) in peers.iter_mut() {
        sim::send(*me, n, &mut pool, &mut wires, &mut |_| None);
    }
    for (me, n) in peers.iter_mut() {
        sim::advance(*me, n, &mut pool, &mut wires, &mut |_| None);
    }
    let mut r = rng(s.seed * 100);
    let mut mirror: Node<Puppet<K>> = Node::new(Session::new(&mut r, sn.clone(), Sgn(0), entry(s, A, &mlog))?, r.clone());
    sim::send(A, &mut mirror, &mut nowhere, &mut mirror_wires, &mut |_| None);
    sim::advance(A, &mut mirror, &mut nowhere, &mut mirror_wires, &mut |_| None);

    let session: S<K> = Session::new(&mut r, sn.clone(), Sgn(0), entry(s, A, &dlog))?;
    let mut order = rng(s.seed ^ 0x9999);
    let round_number = |id: &RoundId| -> R<usize> {
        for j in 0..s.shapes.len() {
            let p = RoundId::new(j as u8 + 1);
            if *id == p || *id == echo_id(&p)? {
                return Ok(j);
            }
        }
        skip("unknown round")
    };
    let cancellation = CancellationToken::new();
    let (otx, mut orx) = mpsc::channel::<MessageOut<Sp>>(100000);
    let (itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100000);
    let mut sent: Vec<MessageOut<Sp>> = vec![];
    let mut cancelled = false;
    let mut stuck = false;
    let rt = rt()?;
    let result = rt.block_on(async {
        let token = cancellation.clone();
        let mut drng = rng(s.seed + 7);
        let handle = ::tokio::spawn(async move {
            match mode {
                Mode::Plain => run_session(&mut drng, &otx, &mut irx, token, session).await,
                Mode::Par => par_run_session(&mut drng, &otx, &mut irx, token, session).await,
            }
        });
        let mut since = Instant::now();
        let mut calm = 0;
        loop {
            while let Ok(m) = orx.try_recv() {
                let rid = round_of(&m.message)?;
                pool.push(Wire { from: m.from, to: m.to, round: rid, msg: m.message.clone() });
                sent.push(m);
                since = Instant::now();
                calm = 0;
            }
            if !pool.is_empty() {
                calm = 0;
                since = Instant::now();
                let w = pool.remove((order.next_u32() as usize) % pool.len());
                if w.to == A {
                    if s.silent.get(&w.from).map(|j| round_number(&w.round).map(|k| k >= *j)).transpose()? == Some(true) {
                        continue;
                    }
                    let mut given = vec![];
                    if s.noise && coin(&mut order, 4) {
                        let mut bad = w.clone();
                        let mut v = part_v(&w.msg, 2)?;
                        *at_mut(&mut v, &["message_with_metadata", "metadata", "session_id"])? =
                            to_v(&sid("another"))?;
                        bad.msg = with_part(&w.msg, 2, v)?;
                        given.push(bad);
                    }
                    given.push(w.clone());
                    if s.noise && coin(&mut order, 4) {
                        given.push(w);
                    }
                    for w in given {
                        let _ = itx.try_send(MessageIn { from: w.from, message: w.msg.clone() });
                        sim::deliver(&mut mirror, &w);
                        sim::advance(A, &mut mirror, &mut nowhere, &mut mirror_wires, &mut |_| None);
                    }
                } else if let Some(n) = peers.get_mut(&w.to) {
                    sim::deliver(n, &w);
                    sim::advance(w.to, n, &mut pool, &mut wires, &mut |_| None);
                }
                if coin(&mut order, 2) {
                    ::tokio::task::yield_now().await;
                }
                continue;
            }
            if handle.is_finished() {
                break;
            }
            let settled = sent.len() >= mirror_wires.len()
                && itx.capacity() == itx.max_capacity()
                && received(&dlog, A).len() >= received(&mlog, A).len();
            if settled && mirror.report.is_none() && !cancelled {
                calm += 1;
                if calm > if mode == Mode::Par { 40 } else { 5 } {
                    cancelled = true;
                    cancellation.cancel();
                    sim::finish(&mut mirror);
                }
            }
            if since.elapsed() > Duration::from_secs(30) {
                stuck = true;
                handle.abort();
                break;
            }
            ::tokio::time::sleep(Duration::from_micros(if calm > 0 { 300 } else { 50 })).await;
        }
        while let Ok(m) = orx.try_recv() {
            sent.push(m);
        }
        if stuck {
            return Ok(None);
        }
        match handle.await {
            Ok(x) => Ok(Some(x)),
            Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
            Err(e) => skip(e.to_string()),
        }
    })?;
    if !ctx.check("driver-stuck", result.is_some(), || format!("{name}: no report and nothing left to receive")) {
        return Ok(false);
    }
    let want = match &mirror.report {
        Some(r) => r,
        None => return skip(format!("{name}: no report by hand: {:?}", mirror.trouble)),
    };
    // what was sent
    for m in &sent {
        ctx.check("sent-label", m.session_id == sn && m.from == A && *m.message.destination() == m.to, || {
            format!("{name}: a message for {:?} labelled {:?} {:?} {:?}", m.message.destination(), m.session_id, m.from, m.to)
        });
    }
    let mut s1: Vec<(RoundId, Vid)> = sent.iter().map(|m| Ok((round_of(&m.message)?, m.to))).collect::<R<Vec<_>>>()?;
    let mut s2: Vec<(RoundId, Vid)> = mirror_wires.iter().map(|w| (w.round.clone(), w.to)).collect();
    s1.sort();
    s2.sort();
    let report = match result.expect("checked above") {
        Err(e) => {
            ctx.fail("driver-fails", format!("{name}: {e}"));
            return Ok(true);
        }
        Ok(r) => r,
    };
    ctx.count(&format!("{mode:?} {}", kind(&report)));
    ctx.check("sent-messages", s1 == s2, || format!("{name}: sent {s1:?} instead of {s2:?}"));
    let (got, expected) = (summary(&report), summary(want));
    if mode == Mode::Plain || kind(want) == "result" {
        ctx.check("report", got == expected, || format!("{name}: {got} instead of {expected}"));
        let (f1, f2) = (finalized(&dlog, A), finalized(&mlog, A));
        ctx.check("finalized", f1 == f2, || format!("{name}: {f1:?} instead of {f2:?}"));
        let (r1, r2) = (sorted(&received(&dlog, A)), sorted(&received(&mlog, A)));
        ctx.check("handed-over", r1 == r2, || format!("{name}: {r1:?} instead of {r2:?}"));
    } else {
        // which of the messages were looked at before the end depends on the timing
        ctx.check("outcome", kind(&report) == kind(want), || format!("{name}: {got} instead of {expected}"));
        let bad: BTreeSet<Vid> = s.faulty.keys().cloned().collect();
        ctx.check("accused", keys(&report.unprovable_errors).is_subset(&bad) && report.provable_errors.is_empty(), || format!("{name}: {got}"));
        if kind(want) == "not enough messages" {
            ctx.check("errors", !report.unprovable_errors.is_empty(), || format!("{name}: {got} instead of {expected}"));
        }
        let (f1, f2) = (finalized(&dlog, A), finalized(&mlog, A));
        ctx.check("finalized", f1 == f2, || format!("{name}: {f1:?} instead of {f2:?}"));
    }
    Ok(true)
}

pub fn drivers(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x20);
    let runs = if ctx.thorough { 4000 } else { 240 };
    for i in 0..runs {
        let s = scene(i, &mut r);
        for mode in [Mode::Plain, Mode::Par] {
            // when messages are refused, the course of things depends on when they are seen
            if mode == Mode::Par && (s.noise || !s.early.is_empty()) {
                continue;
            }
            if !play(ctx, &s, mode)? {
                return Ok(());
            }
        }
    }
    Ok(())
}

/// A transport that fails is a local error; a cancelled session that waits reports so.
pub fn closed(ctx: &mut Ctx) -> R<()> {
    for mode in [Mode::Plain, Mode::Par] {
        for what in ["nobody takes messages", "no more messages", "cancelled"] {
            clear_registry();
            register(K, &RoundId::new(1), [true, false, true]);
            let log = new_log();
            let mut r = rng(5);
            let ep = Entry::<K> { script: linear(A, 3, &[[true, false, true]], false, "result"), log: log.clone(), draw_rng: false };
            let session: S<K> = Session::new(&mut r, sid("closed"), Sgn(0), ep)?;
            let (otx, orx) = mpsc::channel::<MessageOut<Sp>>(100);
            let (itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100);
            let token = CancellationToken::new();
            let mut keep = (Some(orx), Some(itx));
            match what {
                "nobody takes messages" => keep.0 = None,
                "no more messages" => keep.1 = None,
                _ => token.cancel(),
            }
            let done = rt()?.block_on(async {
                let f = async {
                    match mode {
                        Mode::Plain => run_session(&mut r, &otx, &mut irx, token, session).await,
                        Mode::Par => par_run_session(&mut r, &otx, &mut irx, token, session).await,
                    }
                };
                ::tokio::time::timeout(Duration::from_secs(60), f).await.ok()
            });
            let name = format!("{mode:?} driver, {what}");
            let text = match &done {
                None => "still running".into(),
                Some(Err(_)) => "a local error".to_string(),
                Some(Ok(rep)) => kind(rep).to_string(),
            };
            let want = if what == "cancelled" { "terminated" } else { "a local error" };
            ctx.check("closed-channel", text == want, || format!("{name}: {text}"));
            drop(keep);
        }
    }
    Ok(())
}

/// Rounds with more destinations than the drivers' internal queues have room for.
pub fn crowded(ctx: &mut Ctx) -> R<()> {
    let n = 230;
    for mode in [Mode::Plain, Mode::Par] {
        for what in ["waits for nobody", "cancelled"] {
            let name = format!("{mode:?} driver, {n} parties, {what}");
            clear_registry();
            register(K, &RoundId::new(1), [false, false, true]);
            let log = new_log();
            let mut r = rng(6);
            let mut script = linear(A, n, &[[false, false, true]], false, "result");
            if what == "waits for nobody" {
                Arc::get_mut(&mut script).expect("not shared yet").rounds[0].ci.expecting_messages_from.clear();
            }
            let ep = Entry::<K> { script, log: log.clone(), draw_rng: false };
            let session: S<K> = Session::new(&mut r, sid("crowded"), Sgn(0), ep)?;
            let (otx, mut orx) = mpsc::channel::<MessageOut<Sp>>(1000);
            let (itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(1000);
            let token = CancellationToken::new();
            if what == "cancelled" {
                token.cancel();
            }
            let (rt, done) = (rt()?, Arc::new(std::sync::Mutex::new(None)));
            rt.block_on(async {
                let slot = done.clone();
                let task = ::tokio::spawn(async move {
                    let x = match mode {
                        Mode::Plain => run_session(&mut r, &otx, &mut irx, token, session).await,
                        Mode::Par => par_run_session(&mut r, &otx, &mut irx, token, session).await,
                    };
                    *slot.lock().unwrap() = Some(x);
                });
                let _ = ::tokio::time::timeout(Duration::from_secs(20), task).await;
            });
            drop(itx);
            let text = match &*done.lock().unwrap() {
                None => "still running".into(),
                Some(Err(e)) => format!("a local error: {e}"),
                Some(Ok(rep)) => kind(rep).to_string(),
            };
            let want = if what == "cancelled" { "terminated" } else { "result" };
            ctx.check("driver-stuck", text == want, || format!("{name}: {text}"));
            let mut to = BTreeSet::new();
            while let Ok(m) = orx.try_recv() {
                ctx.check("sent-messages", to.insert(m.to), || format!("{name}: two messages for {:?}", m.to));
            }
            ctx.check("sent-messages", to.len() == n as usize - 1, || format!("{name}: {} messages sent", to.len()));
            rt.shutdown_background();
        }
    }
    Ok(())
}

/// What is being processed when the session is cancelled still gets into the report.
pub fn cancelled_while_processing(ctx: &mut Ctx) -> R<()> {
    for mode in [Mode::Plain, Mode::Par] {
        for again in 0..3 {
            clear_registry();
            register(K, &RoundId::new(1), [false, false, true]);
            let (log, plog) = (new_log(), new_log());
            let mut r = rng(60 + again);
            let s = Scene {
                n: 3 + again as u8,
                star: A,
                shapes: vec![[false, false, true]],
                faulty: BTreeMap::new(),
                silent: BTreeMap::new(),
                early: BTreeMap::new(),
                listens: BTreeSet::new(),
                noise: false,
                seed: again,
            };
            let mut ep = entry(&s, A, &log);
            Arc::get_mut(&mut ep.script).expect("not shared yet").rounds[0].recv.insert(Vid(1), Recv::Slow);
            let session: S<K> = Session::new(&mut r, sid("cancelled"), Sgn(0), ep)?;
            let mut r1 = rng(61);
            let other: S<K> = Session::new(&mut r1, sid("cancelled"), Sgn(1), entry(&s, Vid(1), &plog))?;
            let msg = other.make_message(&mut r1, &A)?.0;
            let (otx, _orx) = mpsc::channel::<MessageOut<Sp>>(100);
            let (itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100);
            let token = CancellationToken::new();
            let canceller = token.clone();
            let seen = log.clone();
            let done = rt()?.block_on(async {
                let task = ::tokio::spawn(async move {
                    match mode {
                        Mode::Plain => run_session(&mut r, &otx, &mut irx, token, session).await,
                        Mode::Par => par_run_session(&mut r, &otx, &mut irx, token, session).await,
                    }
                });
                let _ = itx.try_send(MessageIn { from: Vid(1), message: msg });
                let since = Instant::now();
                while received(&seen, A).is_empty() && since.elapsed() < Duration::from_secs(20) {
                    ::tokio::time::sleep(Duration::from_millis(1)).await;
                }
                canceller.cancel();
                ::tokio::time::timeout(Duration::from_secs(20), task).await.ok()
            });
            let name = format!("{mode:?} driver, {} parties, cancelled while the message of one is processed", s.n);
            let text = match &done {
                Some(Ok(Ok(rep))) => summary(rep),
                Some(Ok(Err(e))) => format!("a local error: {e}"),
                _ => "still running".to_string(),
            };
            // with all the others silent, the session is not over without the cancellation
            let ok = matches!(&done, Some(Ok(Ok(rep))) if kind(rep) == "terminated" && keys(&rep.unprovable_errors) == BTreeSet::from([Vid(1)]));
            ctx.check("cancelled-loses", ok, || format!("{name}: {text}"));
        }
    }
    Ok(())
}

/// Every message gets randomness of its own.
pub fn randomness(ctx: &mut Ctx) -> R<()> {
    for mode in [Mode::Plain, Mode::Par] {
        for n in [3u8, 7] {
            clear_registry();
            register(K, &RoundId::new(1), [false, false, true]);
            register(K, &RoundId::new(2), [false, false, true]);
            let log = new_log();
            let mut r = rng(70);
            let mut script = linear(A, n, &[[false, false, true], [false, false, true]], true, "result");
            for x in Arc::get_mut(&mut script).expect("not shared yet").rounds.iter_mut() {
                x.ci.expecting_messages_from.clear();
            }
            let session: S<K> = Session::new(&mut r, sid("random"), Sgn(0), Entry { script, log: log.clone(), draw_rng: false })?;
            let (otx, _orx) = mpsc::channel::<MessageOut<Sp>>(100);
            let (_itx, mut irx) = mpsc::channel::<MessageIn<Sp>>(100);
            let token = CancellationToken::new();
            let done = rt()?.block_on(async {
                let f = async {
                    match mode {
                        Mode::Plain => run_session(&mut r, &otx, &mut irx, token, session).await,
                        Mode::Par => par_run_session(&mut r, &otx, &mut irx, token, session).await,
                    }
                };
                ::tokio::time::timeout(Duration::from_secs(60), f).await.ok()
            });
            let name = format!("{mode:?} driver, {n} parties");
            ctx.check("random-run", matches!(&done, Some(Ok(rep)) if kind(rep) == "result"), || format!("{name}: no result"));
            let mut seen = BTreeMap::new();
            for e in log.lock().unwrap().iter() {
                if let Ev::Direct { round, to, rng, .. } = e {
                    let before = seen.insert(*rng, (round.clone(), *to));
                    ctx.check("randomness-shared", before.is_none(), || format!("{name}: the same randomness for {:?} and {:?}", (round, to), before));
                }
            }
            ctx.check("random-run", seen.len() == 2 * (n as usize - 1), || format!("{name}: {} messages", seen.len()));
        }
    }
    Ok(())
}

/// The development drivers, which run all the parties.
pub fn whole(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x21);
    let runs = if ctx.thorough { 2000 } else { 120 };
    for i in 0..runs {
        let mut s = scene(i * 4, &mut r);
        s.noise = false;
        if i % 8 == 5 {
            // more parties than a handful
            s.n = 9 + (r.next_u32() % 6) as u8;
            s.shapes.truncate(2);
            s.listens.retain(|j| *j < s.shapes.len());
        }
        s.star = Vid((r.next_u32() % s.n as u32) as u8);
        let others: Vec<Vid> = everyone(s.n).into_iter().filter(|v| *v != s.star).collect();
        let peer = others[r.next_u32() as usize % others.len()];
        let fault = i % 3 == 1;
        let mut ends_at = 0;
        if fault {
            ends_at = (r.next_u32() as usize) % s.shapes.len();
            s.faulty.insert(peer, ends_at);
        }
        // whether the others can do without what the party that stops in round `ends_at` would have sent later
        let last_needed = (ends_at + 1..s.shapes.len()).any(|k| !s.listens.contains(&k)) || s.shapes[ends_at][1];
        clear_registry();
        for (j, sh) in s.shapes.iter().enumerate() {
            register(K, &RoundId::new(j as u8 + 1), *sh);
        }
        for how in 0..3 {
            let log = new_log();
            let mut r = rng(i);
            let eps: Vec<(Sgn, Entry<K>)> = everyone(s.n).into_iter().map(|me| (Sgn(me.0), entry(&s, me, &log))).collect();
            let name = format!("{} {} parties, rounds {:?}, {:?} listens in {:?}, faulty {:?}, seed {i}", ["run_sync", "run_async", "run_async offloading"][how], s.n, s.shapes, s.star, s.listens, s.faulty);
            let got = match how {
                0 => Some(manul::dev::run_sync::<Entry<K>, Sp>(&mut r, eps)),
                // with a faulty party, the others would wait forever
                _ if fault => continue,
                _ => rt()?.block_on(async {
                    let f = manul::dev::tokio::run_async::<Entry<K>, Sp>(&mut r, eps, how == 2);
                    ::tokio::time::timeout(Duration::from_secs(60), f).await.ok()
                }),
            };
            let rep = match got {
                None => {
                    ctx.fail("whole-run-stuck", name);
                    return Ok(());
                }
                Some(Err(e)) => {
                    ctx.fail("whole-run-fails", format!("{name}: {e}"));
                    continue;
                }
                Some(Ok(r)) => r,
            };
            let who: Vec<Vid> = rep.reports.keys().cloned().collect();
            ctx.check("whole-run-parties", who == everyone(s.n), || format!("{name}: reports of {who:?}"));
            for (id, x) in &rep.reports {
                let want = if !fault {
                    "result"
                } else if *id == s.star {
                    "not enough messages"
                } else {
                    ctx.check("whole-run-accused", x.provable_errors.is_empty() && x.unprovable_errors.is_empty(), || format!("{name}: {id:?}: {}", summary(x)));
                    ctx.check("whole-run-others", kind(x) == if last_needed { "terminated" } else { "result" }, || format!("{name}: {id:?}: {}", summary(x)));
                    continue;
                };
                ctx.check("whole-run-outcome", kind(x) == want, || format!("{name}: {id:?}: {}", summary(x)));
                let bad = if fault { vec![peer] } else { vec![] };
                ctx.check("whole-run-errors", keys(&x.unprovable_errors).into_iter().collect::<Vec<_>>() == bad, || format!("{name}: {id:?}: {}", summary(x)));
            }
            let all = rep.reports.values().all(|x| kind(x) == "result");
            let res = rep.results();
            ctx.check("whole-run-results", res.is_ok() == all, || format!("{name}: {res:?}"));
            if let Ok(m) = res {
                let ok = m.iter().all(|(id, x)| *x == format!("result of {}", id.0)) && m.len() == s.n as usize;
                ctx.check("whole-run-results", ok, || format!("{name}: {m:?}"));
            }
        }
    }
    Ok(())
}
