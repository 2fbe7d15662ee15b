//! Several parties running real sessions against each other.
use std::collections::BTreeMap;

use manul::protocol::*;
use manul::session::*;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;

use crate::puppet::*;
use crate::util::*;

pub struct Node<P: Protocol<Vid>> {
    pub session: Option<Box<Session<P, Sp>>>,
    pub accum: Option<RoundAccumulator<P, Sp>>,
    pub report: Option<SessionReport<P, Sp>>,
    pub rng: ChaCha8Rng,
    /// The rounds this party went through.
    pub path: Vec<RoundId>,
    /// What could not be done.
    pub trouble: Vec<String>,
}

impl<P: Protocol<Vid>> Node<P> {
    pub fn new(s: Session<P, Sp>, rng: ChaCha8Rng) -> Self {
        let accum = s.make_accumulator();
        Node { session: Some(Box::new(s)), accum: Some(accum), report: None, rng, path: vec![], trouble: vec![] }
    }
}

/// Hands a message to the session.
pub fn deliver<P: Protocol<Vid>>(n: &mut Node<P>, w: &Wire) {
    if let (Some(s), Some(a)) = (n.session.as_ref(), n.accum.as_mut()) {
        match s.preprocess_message(a, &w.from, w.msg.clone()) {
            Err(e) => n.trouble.push(format!("{}: a message of {:?} for {}: {e}", s.round_id(), w.from, w.round)),
            Ok(PreprocessOutcome::ToProcess(v)) => {
                let p = s.process_message(*v);
                if let Err(e) = s.add_processed_message(a, p) {
                    n.trouble.push(format!("{}: a message of {:?} for {}: {e}", s.round_id(), w.from, w.round));
                }
            }
            Ok(PreprocessOutcome::Cached) => {}
            Ok(PreprocessOutcome::Error(e)) => {
                n.trouble.push(format!("{}: a message of {:?} for {} refused: {e}", s.round_id(), w.from, w.round))
            }
        }
    }
}

/// Ends the session by the user's wish.
pub fn finish<P: Protocol<Vid>>(n: &mut Node<P>) {
    if let (Some(s), Some(a)) = (n.session.take(), n.accum.take()) {
        let r = s.round_id();
        match s.terminate(a) {
            Ok(rep) => n.report = Some(rep),
            Err(e) => n.trouble.push(format!("terminating in {r}: {e}")),
        }
    }
}

#[derive(Clone)]
pub struct Wire {
    pub from: Vid,
    pub to: Vid,
    pub round: RoundId,
    pub msg: M,
}

pub struct Outcome<P: Protocol<Vid>> {
    pub nodes: BTreeMap<Vid, Node<P>>,
    pub wires: Vec<Wire>,
}

/// Messages are delivered in a random order (`shuffle`) or in the order they were sent.
pub fn run<P: Protocol<Vid>>(
    sessions: BTreeMap<Vid, (Session<P, Sp>, ChaCha8Rng)>,
    shuffle: Option<u64>,
    tamper: &mut dyn FnMut(&Wire) -> Option<M>,
) -> Outcome<P> {
    let mut order = rng(shuffle.unwrap_or(0));
    let mut nodes: BTreeMap<Vid, Node<P>> = BTreeMap::new();
    let mut pool: Vec<Wire> = vec![];
    let mut wires = vec![];
    for (id, (s, r)) in sessions {
        let mut n = Node::new(s, r);
        send(id, &mut n, &mut pool, &mut wires, tamper);
        nodes.insert(id, n);
    }
    for id in nodes.keys().cloned().collect::<Vec<_>>() {
        advance(id, nodes.get_mut(&id).unwrap(), &mut pool, &mut wires, tamper);
    }
    let mut steps = 0;
    while !pool.is_empty() && steps < 20000 {
        steps += 1;
        let i = if shuffle.is_some() { (order.next_u32() as usize) % pool.len() } else { 0 };
        let w = pool.remove(i);
        let n = match nodes.get_mut(&w.to) {
            Some(n) => n,
            None => continue,
        };
        deliver(n, &w);
        advance(w.to, n, &mut pool, &mut wires, tamper);
    }
    for n in nodes.values_mut() {
        finish(n);
    }
    Outcome { nodes, wires }
}

pub fn send<P: Protocol<Vid>>(
    id: Vid,
    n: &mut Node<P>,
    pool: &mut Vec<Wire>,
    wires: &mut Vec<Wire>,
    tamper: &mut dyn FnMut(&Wire) -> Option<M>,
) {
    let (s, a) = match (n.session.as_ref(), n.accum.as_mut()) {
        (Some(s), Some(a)) => (s, a),
        _ => return,
    };
    n.path.push(s.round_id());
    for d in s.message_destinations().clone() {
        match s.make_message(&mut n.rng, &d) {
            Ok((m, art)) => {
                if let Err(e) = s.add_artifact(a, art) {
                    n.trouble.push(format!("{}: artifact for {d:?}: {e}", s.round_id()));
                }
                let mut w = Wire { from: id, to: d, round: s.round_id(), msg: m };
                if let Some(m) = tamper(&w) {
                    w.msg = m;
                }
                wires.push(w.clone());
                pool.push(w);
            }
            Err(e) => n.trouble.push(format!("{}: no message for {d:?}: {e}", s.round_id())),
        }
    }
}

pub fn advance<P: Protocol<Vid>>(
    id: Vid,
    n: &mut Node<P>,
    pool: &mut Vec<Wire>,
    wires: &mut Vec<Wire>,
    tamper: &mut dyn FnMut(&Wire) -> Option<M>,
) {
    loop {
        let can = match (n.session.as_ref(), n.accum.as_ref()) {
            (Some(s), Some(a)) => s.can_finalize(a),
            _ => return,
        };
        match can {
            CanFinalize::NotYet => return,
            CanFinalize::Never => {
                let s = n.session.take().unwrap();
                match s.terminate_due_to_errors(n.accum.take().unwrap()) {
                    Ok(r) => n.report = Some(r),
                    Err(e) => n.trouble.push(format!("terminating: {e}")),
                }
                return;
            }
            CanFinalize::Yes => {
                let s = n.session.take().unwrap();
                let r = s.round_id();
                match s.finalize_round(&mut n.rng, n.accum.take().unwrap()) {
                    Err(e) => {
                        n.trouble.push(format!("finalizing {r}: {e}"));
                        return;
                    }
                    Ok(RoundOutcome::Finished(rep)) => {
                        n.report = Some(rep);
                        return;
                    }
                    Ok(RoundOutcome::AnotherRound { session, cached_messages }) => {
                        let mut a = session.make_accumulator();
                        let mut trouble = vec![];
                        for v in cached_messages {
                            let p = session.process_message(v);
                            if let Err(e) = session.add_processed_message(&mut a, p) {
                                trouble.push(format!("{}: a cached message: {e}", session.round_id()));
                            }
                        }
                        n.trouble.extend(trouble);
                        n.session = Some(session);
                        n.accum = Some(a);
                        send(id, n, pool, wires, tamper);
                    }
                }
            }
        }
    }
}
