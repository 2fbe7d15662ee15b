//! Runs of extended protocols against the original ones: what an extension does not override has to stay as it was.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::Arc;

use manul::dev::{ExtendableEntryPoint, RoundExtension};
use manul::protocol::*;
use manul::session::*;
use rand_core::{CryptoRngCore, RngCore};
use serde_json::{json, Value};

use crate::ev::{verify_in, Verdict};
use crate::more::everyone;
use crate::puppet::*;
use crate::sim;
use crate::util::*;

const K: usize = 1;
type Ep = ExtendableEntryPoint<Vid, Entry<K>>;

/// Overrides the chosen methods, in terms of what the round itself does.
struct Ex<D, E, N> {
    which: [bool; 4],
    tag: String,
    ph: PhantomData<fn() -> (D, E, N)>,
}

impl<D, E, N> Clone for Ex<D, E, N> {
    fn clone(&self) -> Self {
        Ex { which: self.which, tag: self.tag.clone(), ph: PhantomData }
    }
}

impl<D, E, N> Debug for Ex<D, E, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Ex({:?}, {})", self.which, self.tag)
    }
}

impl<D: Part, E: Part, N: Part> RoundExtension<Vid> for Ex<D, E, N> {
    type Round = PR<K, D, E, N>;
    fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<N, LocalError> {
        let x = round.make_normal_broadcast(rng)?;
        Ok(if self.which[2] { N::make(&format!("{}{}", x.text().unwrap_or_default(), self.tag)) } else { x })
    }
    fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore, round: &Self::Round) -> Result<E, LocalError> {
        let x = round.make_echo_broadcast(rng)?;
        Ok(if self.which[1] { E::make(&format!("{}{}", x.text().unwrap_or_default(), self.tag)) } else { x })
    }
    fn make_direct_message(&self, rng: &mut impl CryptoRngCore, round: &Self::Round, destination: &Vid) -> Result<(D, Art), LocalError> {
        let (x, a) = round.make_direct_message(rng, destination)?;
        Ok(if self.which[0] {
            (D::make(&format!("{}{}", x.text().unwrap_or_default(), self.tag)), Art(format!("{}{}", a.0, self.tag)))
        } else {
            (x, a)
        })
    }
    fn finalize(
        &self,
        rng: &mut impl CryptoRngCore,
        round: Self::Round,
        payloads: BTreeMap<Vid, String>,
        artifacts: BTreeMap<Vid, Art>,
    ) -> Result<FinalizeOutcome<Vid, Puppet<K>>, LocalError> {
        if !self.which[3] {
            return round.finalize(rng, payloads, artifacts);
        }
        let t = &self.tag;
        let payloads = payloads.into_iter().map(|(k, v)| (k, format!("{v}{t}"))).collect();
        let artifacts = artifacts.into_iter().map(|(k, v)| (k, Art(format!("{}{t}", v.0)))).collect();
        Ok(match round.finalize(rng, payloads, artifacts)? {
            FinalizeOutcome::Result(x) => FinalizeOutcome::Result(format!("{x}{t}")),
            x => x,
        })
    }
}

/// Overrides nothing.
struct Plain<D, E, N>(PhantomData<fn() -> (D, E, N)>);

impl<D, E, N> Clone for Plain<D, E, N> {
    fn clone(&self) -> Self {
        Plain(PhantomData)
    }
}

impl<D, E, N> Debug for Plain<D, E, N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Plain")
    }
}

impl<D: Part, E: Part, N: Part> RoundExtension<Vid> for Plain<D, E, N> {
    type Round = PR<K, D, E, N>;
}

fn add<const Q: usize, D: Part, E: Part, N: Part>(ep: Ep, which: [bool; 4], tag: String, by_ref: bool) -> Ep {
    if which == [false; 4] && by_ref {
        return ep.with_extension(Plain::<D, E, N>(PhantomData));
    }
    let x = Ex::<D, E, N> { which, tag, ph: PhantomData };
    if by_ref {
        let mut ep = ep;
        ep.extend(x);
        ep
    } else {
        ep.with_extension(x)
    }
}

#[derive(Debug, Clone)]
struct Exten {
    which: [bool; 4],
    tag: String,
    by_ref: bool,
}

#[derive(Debug)]
struct Plan {
    n: u8,
    first: u8,
    shapes: Vec<[bool; 3]>,
    senders: Vec<BTreeSet<Vid>>,
    /// Who has nothing to say to whom.
    apart: Vec<BTreeSet<(Vid, Vid)>>,
    /// The extensions of each party, by the shape of the round.
    ext: BTreeMap<Vid, BTreeMap<[bool; 3], Exten>>,
    /// (round, who refuses, whose message, how)
    refusals: Vec<(usize, Vid, Vid, Recv)>,
    fails: Option<(Vid, usize)>,
}

impl Plan {
    fn tag(&self, who: Vid, i: usize, method: usize) -> &str {
        match self.ext.get(&who).and_then(|m| m.get(&self.shapes[i])) {
            Some(x) if x.which[method] => &x.tag,
            _ => "",
        }
    }
    fn talks(&self, i: usize, from: Vid, to: Vid) -> bool {
        self.senders[i].contains(&from) && !self.apart[i].contains(&(from, to))
    }
    fn ids(&self, i: usize) -> RoundId {
        RoundId::new(self.first + i as u8)
    }
    /// Text of a part, with what an extension adds to it.
    fn text(&self, i: usize, kind: usize, from: Vid, to: Vid, extended: bool) -> String {
        let t = if extended { self.tag(from, i, kind) } else { "" };
        match kind {
            0 => format!("direct {i} of {} to {}{t}", from.0, to.0),
            1 => format!("echo {i} of {}{t}", from.0),
            _ => format!("normal {i} of {}{t}", from.0),
        }
    }
    fn script(&self, me: Vid, extended: bool) -> Arc<Script> {
        let mut rounds = vec![];
        for (i, sh) in self.shapes.iter().enumerate() {
            let last = i + 1 == self.shapes.len();
            let mut t = ti(self.ids(i));
            t.may_produce_result = last;
            if i > 0 {
                t.parents.insert(self.ids(i - 1));
            }
            if !last {
                t.children.insert(self.ids(i + 1));
            }
            let peers: Vec<Vid> = everyone(self.n).into_iter().filter(|v| *v != me).collect();
            let mut s = RoundSpec::new(t, *sh, &peers);
            let sends = self.senders[i].contains(&me);
            if !sends {
                s.ci.message_destinations = set(&[]);
            }
            s.ci.message_destinations.retain(|v| !self.apart[i].contains(&(me, *v)));
            s.ci.expecting_messages_from = peers.iter().filter(|v| self.talks(i, **v, me)).cloned().collect();
            s.echo = self.text(i, 1, me, me, extended);
            s.normal = self.text(i, 2, me, me, extended);
            for o in &peers {
                s.direct.insert(*o, self.text(i, 0, me, *o, extended));
            }
            for (at, who, whose, how) in &self.refusals {
                if *at == i && *who == me {
                    s.recv.insert(*whose, how.clone());
                }
            }
            s.draw_rng = true;
            s.fin = if self.fails == Some((me, i)) {
                Fin::Local
            } else if last {
                Fin::Result(format!("result of {}", me.0))
            } else {
                Fin::Next(i + 1)
            };
            rounds.push(s);
        }
        Arc::new(Script { rounds })
    }
}

fn plan(r: &mut rand_chacha::ChaCha8Rng, sn: &SessionId) -> Plan {
    let n = 2 + (r.next_u32() % 3) as u8;
    let few: Vec<[bool; 3]> = (0..1 + r.next_u32() % 3).map(|_| [!coin(r, 3), coin(r, 2), !coin(r, 3)]).collect();
    let shapes: Vec<[bool; 3]> = (0..1 + r.next_u32() % 5).map(|_| *pick(r, &few)).collect();
    let senders = shapes
        .iter()
        .map(|sh| {
            // Everybody takes part in an echo round.
            if sh[1] || !coin(r, 3) {
                return everyone(n).into_iter().collect();
            }
            everyone(n).into_iter().filter(|_| coin(r, 2)).collect()
        })
        .collect();
    let apart = shapes
        .iter()
        .map(|sh| {
            let mut x = BTreeSet::new();
            if !sh[1] && coin(r, 2) {
                for a in everyone(n) {
                    for b in everyone(n) {
                        if coin(r, 3) {
                            x.insert((a, b));
                        }
                    }
                }
            }
            x
        })
        .collect();
    let mut p = Plan { n, first: 1 + (r.next_u32() % 3) as u8, shapes, senders, apart, ext: BTreeMap::new(), refusals: vec![], fails: None };
    for me in everyone(n) {
        if coin(r, 3) {
            continue;
        }
        let mut m = BTreeMap::new();
        for sh in &few {
            if coin(r, 3) {
                continue;
            }
            let which = [coin(r, 2), coin(r, 2), coin(r, 2), coin(r, 2)];
            let which = if coin(r, 4) { [false; 4] } else { which };
            m.insert(*sh, Exten { which, tag: format!("+x{}{}", me.0, r.next_u32() % 10), by_ref: coin(r, 2) });
        }
        p.ext.insert(me, m);
    }
    for _ in 0..r.next_u32() % 3 {
        let at = (r.next_u32() as usize) % p.shapes.len();
        let me = *pick(r, &everyone(n));
        let whose = *pick(r, &everyone(n));
        if whose == me {
            continue;
        }
        let sh = p.shapes[at];
        let kinds = [1usize, 2, 0];
        let of = |i: usize, r: &mut rand_chacha::ChaCha8Rng| -> [Option<String>; 3] {
            let mut out = [None, None, None];
            for (j, k) in kinds.iter().enumerate() {
                if p.shapes[i][*k] && !coin(r, 3) {
                    out[j] = Some(p.text(i, *k, whose, me, true));
                }
            }
            out
        };
        let this = of(at, r);
        let how = match r.next_u32() % 6 {
            0 => Recv::Unprovable,
            1 => Recv::Local,
            _ if sh != [false; 3] && this.iter().any(|x| x.is_some()) => {
                let mut prev = vec![];
                let mut combined = vec![];
                for i in 0..at {
                    let x = of(i, r);
                    if x.iter().any(|x| x.is_some()) && p.talks(i, whose, me) {
                        prev.push((p.first + i as u8, x));
                    }
                    if p.shapes[i][1] && coin(r, 2) {
                        let all = everyone(n).into_iter().filter(|v| *v != whose && p.senders[i].contains(v));
                        combined.push((p.first + i as u8, all.map(|v| (v, p.text(i, 1, v, v, true))).collect()));
                    }
                }
                Recv::Protocol(ErrSpec {
                    this,
                    prev,
                    combined,
                    from: whose,
                    session: sn.as_ref().to_vec(),
                    shared: 42,
                    round: p.first + at as u8,
                    answer_local: coin(r, 8),
                })
            }
            _ => Recv::Unprovable,
        };
        p.refusals.push((at, me, whose, how));
    }
    if coin(r, 8) {
        p.fails = Some((*pick(r, &everyone(n)), (r.next_u32() as usize) % p.shapes.len()));
    }
    p
}

/// What a party did and was told, with the tags taken off its own messages, and what it ended with.
fn story(p: &Plan, log: &Log, me: Vid, extended: bool) -> Vec<String> {
    let base = |s: &str| s.split('+').next().unwrap_or_default().to_string();
    let mut out = vec![];
    for e in log.lock().unwrap().iter() {
        match e {
            Ev::Direct { node, round, to, text, rng } if *node == me => out.push(format!("direct {round} {to:?} {} {rng}", base(text))),
            Ev::Finalized { node, round, payloads, artifacts, rng } if *node == me => {
                let i = (0..p.shapes.len()).find(|i| *round == format!("{K}:{}", p.ids(*i)));
                let t = match i {
                    Some(i) if !extended => p.tag(me, i, 3),
                    _ => "",
                };
                let x: Vec<(Vid, String)> = payloads.iter().map(|(k, v)| (*k, format!("{v}{t}"))).collect();
                let a: Vec<(Vid, String)> = artifacts.iter().map(|(k, v)| (*k, format!("{v}{t}"))).collect();
                out.push(format!("finalized {round} {x:?} {a:?} {rng}"));
            }
            Ev::Start { node, .. } | Ev::Echo { node, .. } | Ev::Normal { node, .. } | Ev::Received { node, .. } if *node == me => {
                out.push(format!("{e:?}"));
            }
            _ => {}
        }
    }
    out
}

fn end(rep: &Option<SessionReport<Puppet<K>, Sp>>, tag: &str) -> R<Value> {
    let rep = match rep {
        None => return Ok(Value::Null),
        Some(x) => x,
    };
    let outcome = match &rep.outcome {
        SessionOutcome::Result(x) => format!("result {x}{tag}"),
        x => x.brief(),
    };
    let mut provable = BTreeMap::new();
    for (k, v) in &rep.provable_errors {
        provable.insert(k.0, to_v(v)?);
    }
    let unprovable: BTreeMap<u8, String> = rep.unprovable_errors.iter().map(|(k, v)| (k.0, format!("{v:?}"))).collect();
    let missing: Vec<String> = rep.missing_messages.iter().map(|(k, v)| format!("{k} {v:?}")).collect();
    Ok(json!({"outcome": outcome, "provable": provable, "unprovable": unprovable, "missing": missing}))
}

pub fn extensions(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x1919);
    for i in 0..if ctx.thorough { 4000 } else { 400 } {
        let sn = sid("extended");
        let p = plan(&mut r, &sn);
        clear_registry();
        for (j, s) in p.shapes.iter().enumerate() {
            register(K, &p.ids(j), *s);
        }
        ENTRY.with(|e| e.borrow_mut().insert(K, p.ids(0)));
        let rs = run(ctx, &p, &sn, i);
        ENTRY.with(|e| e.borrow_mut().remove(&K));
        rs?;
    }
    Ok(())
}

fn run(ctx: &mut Ctx, p: &Plan, sn: &SessionId, i: u64) -> R<()> {
    let logs = [new_log(), new_log()];
    let mut plain = BTreeMap::new();
    let mut extended = BTreeMap::new();
    for me in everyone(p.n) {
        let seed = i * 100 + me.0 as u64;
        let ep = |x: bool, log: &Log| Entry::<K> { script: p.script(me, x), log: log.clone(), draw_rng: true };
        let mut g = rng(seed);
        let s: S<K> = Session::new(&mut g, sn.clone(), Sgn(me.0), ep(true, &logs[0]))?;
        plain.insert(me, (s, g));
        let mut g = rng(seed);
        let s: S<K> = match p.ext.get(&me) {
            None => Session::new(&mut g, sn.clone(), Sgn(me.0), ep(true, &logs[1]))?,
            Some(m) => {
                let mut e = ExtendableEntryPoint::new(ep(false, &logs[1]));
                for (sh, x) in m {
                    e = by_shape!(*sh, add, K, e, x.which, x.tag.clone(), x.by_ref);
                }
                Session::new(&mut g, sn.clone(), Sgn(me.0), e)?
            }
        };
        extended.insert(me, (s, g));
    }
    let a = sim::run(plain, Some(i), &mut |_| None);
    let b = sim::run(extended, Some(i), &mut |_| None);
    let sent = |ws: &[sim::Wire]| -> R<Vec<String>> {
        ws.iter().map(|w| Ok(format!("{:?} {:?} {} {}", w.from, w.to, w.round, to_v(&w.msg)?))).collect()
    };
    let (x, y) = (sent(&a.wires)?, sent(&b.wires)?);
    ctx.check("extended-sends", x == y, || {
        let d = x.iter().zip(y.iter()).find(|(a, b)| a != b);
        format!("{p:?}: {} and {} messages, first difference {d:?}", x.len(), y.len())
    });
    for me in everyone(p.n) {
        let (na, nb) = match (a.nodes.get(&me), b.nodes.get(&me)) {
            (Some(x), Some(y)) => (x, y),
            _ => return skip("a party is missing from a run"),
        };
        let ends = na.path.last().and_then(|l| (0..p.shapes.len()).find(|i| p.ids(*i) == *l || echo_id(&p.ids(*i)).ok().as_ref() == Some(l)));
        let tag = ends.map(|i| p.tag(me, i, 3)).unwrap_or("");
        ctx.check("extended-path", na.path == nb.path, || format!("{p:?}: {me:?}: {:?} instead of {:?}", nb.path, na.path));
        ctx.check("extended-trouble", na.trouble == nb.trouble, || format!("{p:?}: {me:?}: {:?} instead of {:?}", nb.trouble, na.trouble));
        let (ea, eb) = (end(&na.report, tag)?, end(&nb.report, "")?);
        ctx.check("extended-report", ea == eb, || format!("{p:?}: {me:?}: {eb} instead of {ea}"));
        let (sa, sb) = (story(p, &logs[0], me, false), story(p, &logs[1], me, true));
        ctx.check("extended-rounds", sa == sb, || {
            let d = sa.iter().zip(sb.iter()).find(|(a, b)| a != b);
            format!("{p:?}: {me:?}: {} and {} calls, first difference {d:?}", sa.len(), sb.len())
        });
        if let (Some(ra), Some(rb)) = (&na.report, &nb.report) {
            for (who, e) in &rb.provable_errors {
                let vb = verify_in::<Puppet<K>>(&to_v(e)?, &Shared(42));
                let va = match ra.provable_errors.get(who) {
                    Some(e) => verify_in::<Puppet<K>>(&to_v(e)?, &Shared(42)),
                    None => continue,
                };
                ctx.count(match &va {
                    Verdict::Confirmed => "extended evidence confirmed",
                    _ => "extended evidence not confirmed",
                });
                ctx.check("extended-evidence", va == vb, || format!("{p:?}: {me:?} against {who:?}: {vb:?} instead of {va:?}"));
            }
        }
    }
    Ok(())
}
