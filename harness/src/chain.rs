//! P16: chained protocols against the two protocols run one after the other.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use manul::combinators::chain::*;
use manul::protocol::*;
use manul::session::*;
use rand_chacha::ChaCha8Rng;
use rand_core::RngCore;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::ev::{all_places, get, is_part, kind_at, put, resign_in, show, signer_of, verify_in, Step, Verdict};
use crate::more::everyone;
use crate::puppet::*;
use crate::sim;
use crate::util::*;

#[derive(Debug, Serialize, Deserialize)]
pub struct Both;
impl ChainedMarker for Both {}
impl ChainedProtocol<Vid> for Both {
    type Protocol1 = Puppet<1>;
    type Protocol2 = Puppet<2>;
}

#[derive(Debug, Clone)]
pub struct BothEntry {
    one: Entry<1>,
    two: Entry<2>,
}
impl ChainedMarker for BothEntry {}

fn with_result(two: &Entry<2>, result: &str) -> Entry<2> {
    let mut rounds = two.script.rounds.clone();
    for r in &mut rounds {
        if let Fin::Result(x) = &mut r.fin {
            *x = format!("{x} after {result}");
        }
    }
    Entry { script: Arc::new(Script { rounds }), log: two.log.clone(), draw_rng: two.draw_rng }
}

#[derive(Debug)]
struct Join(Entry<2>);

impl ChainedSplit<Vid> for BothEntry {
    type Protocol = Both;
    type EntryPoint = Entry<1>;
    fn make_entry_point1(self) -> (Entry<1>, impl ChainedJoin<Vid, Protocol = Both>) {
        (self.one, Join(self.two))
    }
}

impl ChainedJoin<Vid> for Join {
    type Protocol = Both;
    type EntryPoint = Entry<2>;
    fn make_entry_point2(self, result: String) -> Entry<2> {
        with_result(&self.0, &result)
    }
}

/// A chain whose first part is a chain.
#[derive(Debug, Serialize, Deserialize)]
pub struct Three;
impl ChainedMarker for Three {}
impl ChainedProtocol<Vid> for Three {
    type Protocol1 = Both;
    type Protocol2 = Puppet<3>;
}
#[derive(Debug, Clone)]
pub struct ThreeEntry {
    first: BothEntry,
    last: Entry<3>,
}
impl ChainedMarker for ThreeEntry {}
#[derive(Debug)]
struct Join3(Entry<3>);
impl ChainedSplit<Vid> for ThreeEntry {
    type Protocol = Three;
    type EntryPoint = BothEntry;
    fn make_entry_point1(self) -> (BothEntry, impl ChainedJoin<Vid, Protocol = Three>) {
        (self.first, Join3(self.last))
    }
}
impl ChainedJoin<Vid> for Join3 {
    type Protocol = Three;
    type EntryPoint = Entry<3>;
    fn make_entry_point2(self, _result: String) -> Entry<3> {
        self.0
    }
}

#[derive(Clone, Debug)]
struct Plan {
    n: u8,
    shapes: [Vec<[bool; 3]>; 2],
    /// For a round of the first or second protocol: a shortcut to the result, taken or not.
    shortcut: [Option<(u8, bool)>; 2],
    offence: Option<(usize, u8, Vid, Vid, u32)>,
}

const SHARED: [u32; 2] = [42, 43];

fn part_text(g: usize, kind: usize, r: u8, from: Vid, to: Vid) -> String {
    let to = if kind == 0 { format!(" to {}", to.0) } else { String::new() };
    format!("{} of round {r} of protocol {} from {}{to}", ["direct", "echo", "normal"][kind], g + 1, from.0)
}

fn script(p: &Plan, g: usize, me: Vid, sn: &SessionId) -> Script {
    let peers: Vec<Vid> = everyone(p.n).into_iter().filter(|v| *v != me).collect();
    let last = p.shapes[g].len() as u8;
    let mut rounds = vec![];
    for (i, sh) in p.shapes[g].iter().enumerate() {
        let r = i as u8 + 1;
        let mut t = if r == last { TransitionInfo::new_linear_terminating(r) } else { TransitionInfo::new_linear(r) };
        let mut fin = if r == last { Fin::Result(format!("result {} of {}", g + 1, me.0)) } else { Fin::Next(i + 1) };
        if let Some((at, taken)) = p.shortcut[g] {
            if at == r {
                t.may_produce_result = true;
                if taken {
                    fin = Fin::Result(format!("early result {} of {}", g + 1, me.0));
                }
            }
        }
        let mut s = RoundSpec::new(t, *sh, &peers);
        s.draw_rng = true;
        s.fin = fin;
        s.echo = part_text(g, 1, r, me, me);
        s.normal = part_text(g, 2, r, me, me);
        for o in &peers {
            s.direct.insert(*o, part_text(g, 0, r, me, *o));
        }
        if let Some((og, or, by, against, what)) = p.offence {
            if og == g && or == r && by == me {
                let t = |rr: u8, take: [bool; 3]| -> [Option<String>; 3] {
                    // echo, normal, direct
                    [1, 2, 0].map(|k| {
                        if take[k] && p.shapes[g][rr as usize - 1][k] {
                            Some(part_text(g, k, rr, against, me))
                        } else {
                            None
                        }
                    })
                };
                let mut e = ErrSpec::simple([None, None, None], against, sn.as_ref(), r);
                e.shared = SHARED[g];
                e.this = t(r, [true; 3]);
                for q in 1..r {
                    let x = t(q, [true, p.shapes[g][q as usize - 1][1], true]);
                    if x.iter().any(|x| x.is_some()) {
                        e.prev.push((q, x));
                    }
                    if p.shapes[g][q as usize - 1][1] {
                        e.combined.push((
                            q,
                            everyone(p.n).into_iter().filter(|v| *v != against).map(|v| (v, part_text(g, 1, q, v, v))).collect(),
                        ));
                    }
                }
                let rc = if what == 0 || e.this.iter().all(|x| x.is_none()) { Recv::Unprovable } else { Recv::Protocol(e) };
                s.recv.insert(against, rc);
            }
        }
        rounds.push(s);
    }
    Script { rounds }
}

fn entry<const Q: usize>(p: &Plan, g: usize, me: Vid, sn: &SessionId, log: &Log) -> Entry<Q> {
    Entry { script: Arc::new(script(p, g, me, sn)), log: log.clone(), draw_rng: true }
}

fn node_rng(seed: u64, me: Vid) -> ChaCha8Rng {
    rng(seed * 1000 + me.0 as u64)
}

type Wires = BTreeMap<(Vid, Vid, RoundId), Vec<Option<Vec<u8>>>>;

fn collect(ws: &[sim::Wire], group: Option<u8>) -> R<Wires> {
    let mut out = BTreeMap::new();
    for w in ws {
        let mut ps = vec![];
        for i in 0..3 {
            // echo messages contain signatures, and these depend on the round identifiers
            let e = w.round.to_string().contains("(echo)");
            let p = payload_of(&part_v(&w.msg, i)?)?;
            ps.push(if e { p.map(|_| vec![]) } else { p });
        }
        out.insert((w.from, w.to, in_group(&w.round, group)?), ps);
    }
    Ok(out)
}

fn in_group(r: &RoundId, group: Option<u8>) -> R<RoundId> {
    let g = match group {
        None => return Ok(r.clone()),
        Some(g) => g,
    };
    let mut v = to_v(r)?;
    match v.get_mut("groups").and_then(|x| x.as_array_mut()) {
        Some(x) => x.push(json!(g)),
        None => return skip("no groups in the serialized round id"),
    }
    from_v(&v)
}

fn story(log: &Log, me: Vid) -> (Vec<Ev>, Vec<String>) {
    let all = log.lock().unwrap().clone();
    let of = |e: &Ev| match e {
        Ev::Start { node, .. } | Ev::Direct { node, .. } | Ev::Echo { node, .. } | Ev::Normal { node, .. } | Ev::Received { node, .. } | Ev::Finalized { node, .. } => {
            *node == me
        }
        Ev::Evidence { .. } => false,
    };
    let seq = all.iter().filter(|e| of(e) && !matches!(e, Ev::Received { .. })).cloned().collect();
    let mut rec: Vec<String> = all.iter().filter(|e| of(e) && matches!(e, Ev::Received { .. })).map(|e| format!("{e:?}")).collect();
    rec.sort();
    (seq, rec)
}

fn kind<P: Protocol<Vid, Result = String>>(r: &SessionReport<P, Sp>) -> String {
    match &r.outcome {
        SessionOutcome::Result(x) => format!("result {x}"),
        SessionOutcome::NotEnoughMessages => "not enough".into(),
        SessionOutcome::Terminated => "terminated".into(),
    }
}

type Summary = (String, BTreeSet<Vid>, BTreeSet<Vid>, BTreeMap<RoundId, BTreeSet<Vid>>);

fn summary<P: Protocol<Vid, Result = String>>(r: &Option<SessionReport<P, Sp>>, group: Option<u8>) -> R<Option<Summary>> {
    let r = match r {
        None => return Ok(None),
        Some(r) => r,
    };
    let mut missing = BTreeMap::new();
    for (k, v) in &r.missing_messages {
        if !v.is_empty() {
            missing.insert(in_group(k, group)?, v.clone());
        }
    }
    Ok(Some((kind(r), keys(&r.provable_errors), keys(&r.unprovable_errors), missing)))
}

fn plan(r: &mut ChaCha8Rng) -> Plan {
    let n = 2 + (r.next_u32() % 3) as u8;
    let mut shapes = [vec![], vec![]];
    for s in &mut shapes {
        for _ in 0..1 + r.next_u32() % 3 {
            s.push([coin(r, 2), coin(r, 2), coin(r, 2)]);
        }
    }
    let mut shortcut = [None, None];
    for g in 0..2 {
        if coin(r, 3) {
            let at = 1 + (r.next_u32() % shapes[g].len() as u32) as u8;
            shortcut[g] = Some((at, coin(r, 2)));
        }
    }
    let mut offence = None;
    if coin(r, 2) {
        let g = (r.next_u32() % 2) as usize;
        let rd = 1 + (r.next_u32() % shapes[g].len() as u32) as u8;
        let by = Vid((r.next_u32() % n as u32) as u8);
        let against = Vid((by.0 + 1 + (r.next_u32() % (n as u32 - 1)) as u8) % n);
        offence = Some((g, rd, by, against, r.next_u32() % 4));
    }
    Plan { n, shapes, shortcut, offence }
}

fn register_plan(p: &Plan) {
    clear_registry();
    for (i, s) in p.shapes[0].iter().enumerate() {
        register(1, &RoundId::new(i as u8 + 1), *s);
    }
    for (i, s) in p.shapes[1].iter().enumerate() {
        register(2, &RoundId::new(i as u8 + 1), *s);
    }
    register(3, &RoundId::new(1), [true, true, true]);
}

pub fn chain(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x16);
    let runs = if ctx.thorough { 4000 } else { 250 };
    ctx.check("entry-round", BothEntry::entry_round_id() == grouped(1, &[1], false)?, || format!("{}", BothEntry::entry_round_id()));
    ctx.check("entry-round", ThreeEntry::entry_round_id() == grouped(1, &[1, 1], false)?, || format!("{}", ThreeEntry::entry_round_id()));
    for i in 0..runs {
        let p = plan(&mut r);
        register_plan(&p);
        let sn = sid("chain");
        let shuffle = if coin(&mut r, 2) { Some(i) } else { None };
        let name = format!("{p:?}, order {shuffle:?}");
        // chained
        let log = new_log();
        let mut ss = BTreeMap::new();
        for me in everyone(p.n) {
            let mut r = node_rng(i, me);
            let ep = BothEntry { one: entry(&p, 0, me, &sn, &log), two: entry(&p, 1, me, &sn, &log) };
            let s: Session<Both, Sp> = Session::new(&mut r, sn.clone(), Sgn(me.0), ep)?;
            ctx.check("first-round", s.round_id() == grouped(1, &[1], false)?, || format!("{}", s.round_id()));
            ss.insert(me, (s, r));
        }
        let out = sim::run(ss, shuffle, &mut |_| None);
        // one after the other
        let log2 = new_log();
        let mut ss = BTreeMap::new();
        for me in everyone(p.n) {
            let mut r = node_rng(i, me);
            let s: S<1> = Session::new(&mut r, sn.clone(), Sgn(me.0), entry::<1>(&p, 0, me, &sn, &log2))?;
            ss.insert(me, (s, r));
        }
        let mut out1 = sim::run(ss, None, &mut |_| None);
        let mut ss = BTreeMap::new();
        for me in everyone(p.n) {
            let n = out1.nodes.get_mut(&me).unwrap();
            if let Some(SessionOutcome::Result(res)) = n.report.as_ref().map(|r| &r.outcome) {
                let two = entry::<2>(&p, 1, me, &sn, &log2);
                let s: S<2> = Session::new(&mut n.rng, sn.clone(), Sgn(me.0), with_result(&two, res))?;
                ss.insert(me, (s, n.rng.clone()));
            }
        }
        let out2 = sim::run(ss, None, &mut |_| None);
        let mut wires = collect(&out1.wires, Some(1))?;
        wires.extend(collect(&out2.wires, Some(2))?);
        let got = collect(&out.wires, None)?;
        // an offence makes one party stop early, and what the others still get done depends on the order
        if p.offence.is_none() {
            ctx.check("chained-messages", got == wires, || format!("{name}: {got:?} instead of {wires:?}"));
        }
        for me in everyone(p.n) {
            let n = &out.nodes[&me];
            let n1 = &out1.nodes[&me];
            let n2 = out2.nodes.get(&me);
            if p.offence.is_some() && p.offence.map(|o| o.2) != Some(me) {
                continue;
            }
            let mut path = vec![];
            for q in &n1.path {
                path.push(in_group(q, Some(1))?);
            }
            for q in n2.map(|n| n.path.clone()).unwrap_or_default() {
                path.push(in_group(&q, Some(2))?);
            }
            // up to where the offence stops this party, in any order the same happens
            ctx.check("chained-path", n.path == path, || format!("{name}: {me:?} went through {:?} instead of {path:?}", n.path));
            ctx.check("chained-trouble", p.offence.is_some() || n.trouble.is_empty() || !n1.trouble.is_empty() || n2.map(|n| !n.trouble.is_empty()).unwrap_or(false), || {
                format!("{name}: {me:?}: {:?}", n.trouble)
            });
            let want = match n2 {
                Some(n2) => summary(&n2.report, Some(2))?,
                None => summary(&n1.report, Some(1))?,
            };
            let have = summary(&n.report, None)?;
            if p.offence.is_none() {
                ctx.check("chained-report", have == want, || format!("{name}: {me:?}: {have:?} instead of {want:?}"));
                let (a, b) = (story(&log, me), story(&log2, me));
                ctx.check("chained-history", a == b, || format!("{name}: {me:?}: {a:?}\ninstead of {b:?}"));
            } else {
                let errs = |x: &Option<Summary>| x.as_ref().map(|x| (x.0.clone(), x.1.clone(), x.2.clone()));
                ctx.check("chained-report", errs(&have) == errs(&want), || format!("{name}: {me:?}: {have:?} instead of {want:?}"));
            }
            if let Some(rep) = &n.report {
                for (id, e) in &rep.provable_errors {
                    let v = to_v(e)?;
                    chained_evidence(ctx, &name, *id, &v)?;
                }
            }
        }
    }
    Ok(())
}

fn check(v: &Value, a: u32, b: u32) -> Verdict {
    verify_in::<Both>(v, &ChainedSharedData { protocol1: Shared(a), protocol2: Shared(b) })
}

/// Evidence of a chained session: checked with that part's data, and no other group's rounds are accepted in it.
pub fn chained_evidence(ctx: &mut Ctx, name: &str, against: Vid, v: &Value) -> R<()> {
    EVIDENCE_LOG.with(|l| l.borrow_mut().clear());
    let got = check(v, 42, 43);
    ctx.check("chained-evidence", got == Verdict::Confirmed, || format!("{name}: evidence against {against:?}: {got:?}; {v}"));
    let asked = EVIDENCE_LOG.with(|l| l.borrow().clone());
    let g = asked.first().map(|x| x.0).unwrap_or(0);
    let other = if g == 2 { check(v, 42, 7) } else { check(v, 7, 43) };
    ctx.check("chained-shared-data", g == 0 || matches!(other, Verdict::Invalid(_)), || format!("{name}: with other shared data: {other:?}"));
    let same = if g == 2 { check(v, 7, 43) } else { check(v, 42, 7) };
    ctx.check("chained-shared-data", same == Verdict::Confirmed, || format!("{name}: with other data of the other protocol: {same:?}"));
    let sn = sid("chain");
    for p in all_places(v) {
        let here = match get(v, &p) {
            Some(h) => h.clone(),
            None => continue,
        };
        let alts: Vec<Value> = vec![json!([]), json!([1]), json!([2]), json!([1, 1]), json!([2, 1]), json!([1, 2]), json!([3])];
        if is_part(&here) {
            let kind = match kind_at(&p) {
                Some(k) => k,
                None => continue,
            };
            for a in &alts {
                let mut rid = at(&here, &["message_with_metadata", "metadata", "round_id"])?.clone();
                if rid.get("groups") == Some(a) {
                    continue;
                }
                rid["groups"] = a.clone();
                let rid: RoundId = from_v(&rid)?;
                let part = resign_in(&sn, &here, kind, &rid, signer_of(v, &p, against))?;
                let mut w = v.clone();
                put(&mut w, &p, part);
                expect_invalid(ctx, &format!("{name}: evidence with {} signed for {rid}", show(&p)), &w);
                // together with the key it is under
                if matches!(p.last(), Some(Step::Idx(1))) {
                    let mut q = p.clone();
                    q.pop();
                    q.push(Step::Idx(0));
                    if get(v, &q).and_then(|k| k.get("groups")).is_some() {
                        let mut w = w.clone();
                        put(&mut w, &q, to_v(&rid)?);
                        expect_invalid(ctx, &format!("{name}: evidence with {} signed for and filed under {rid}", show(&p)), &w);
                    }
                }
            }
        } else if here.get("groups").is_some() {
            for a in &alts {
                if here.get("groups") == Some(a) {
                    continue;
                }
                let mut w = v.clone();
                let mut rid = here.clone();
                rid["groups"] = a.clone();
                put(&mut w, &p, rid);
                expect_invalid(ctx, &format!("{name}: evidence with the groups in {} changed to {a}", show(&p)), &w);
            }
        }
    }
    // every identifier and signature moved to another group
    for a in [json!([]), json!([1]), json!([2]), json!([3]), json!([1, 2])] {
        let mut w = v.clone();
        let mut changed = false;
        for p in all_places(v) {
            let here = match get(&w, &p) {
                Some(h) => h.clone(),
                None => continue,
            };
            if is_part(&here) {
                if let Some(kind) = kind_at(&p) {
                    let mut rid = at(&here, &["message_with_metadata", "metadata", "round_id"])?.clone();
                    changed |= rid.get("groups") != Some(&a);
                    rid["groups"] = a.clone();
                    let part = resign_in(&sn, &here, kind, &from_v(&rid)?, signer_of(v, &p, against))?;
                    put(&mut w, &p, part);
                }
            } else if here.get("groups").is_some() && !p.iter().any(|s| matches!(s, Step::Key(k) if k == "message_with_metadata")) {
                let mut rid = here.clone();
                rid["groups"] = a.clone();
                put(&mut w, &p, rid);
            }
        }
        if changed && v.get("evidence").and_then(|e| e.get("Protocol")).is_some() {
            expect_invalid(ctx, &format!("{name}: evidence moved to group {a}"), &w);
        }
    }
    Ok(())
}

fn expect_invalid(ctx: &mut Ctx, what: &str, v: &Value) {
    let got = check(v, 42, 43);
    ctx.check("wrong-group", matches!(got, Verdict::Invalid(_) | Verdict::Unreadable), || format!("{what}: {got:?}: {v}"));
}

/// A chain in a chain.
pub fn nested(ctx: &mut Ctx) -> R<()> {
    let mut r = rng(ctx.seed ^ 0x161);
    for i in 0..if ctx.thorough { 500 } else { 100 } {
        let mut p = plan(&mut r);
        // an offence in the last protocol: by whom, against whom
        let mut late = None;
        if i % 5 == 4 {
            p.offence = None;
            late = Some((Vid(0), Vid(1)));
        }
        register_plan(&p);
        let sn = sid("chain");
        let log = new_log();
        let mut ss = BTreeMap::new();
        for me in everyone(p.n) {
            let mut r = node_rng(i, me);
            let peers: Vec<Vid> = everyone(p.n).into_iter().filter(|v| *v != me).collect();
            let mut spec = RoundSpec::new(TransitionInfo::new_linear_terminating(1), [true, true, true], &peers);
            spec.fin = Fin::Result(format!("end {}", me.0));
            if let Some((by, against)) = late {
                if by == me {
                    let mut e = ErrSpec::simple([Some("echo"), Some("normal"), Some("direct to 0")], against, sn.as_ref(), 1);
                    e.shared = 44;
                    spec.recv.insert(against, Recv::Protocol(e));
                }
            }
            let last = Entry::<3> { script: Arc::new(Script { rounds: vec![spec] }), log: log.clone(), draw_rng: true };
            let ep = ThreeEntry { first: BothEntry { one: entry(&p, 0, me, &sn, &log), two: entry(&p, 1, me, &sn, &log) }, last };
            let s: Session<Three, Sp> = Session::new(&mut r, sn.clone(), Sgn(me.0), ep)?;
            ss.insert(me, (s, r));
        }
        let out = sim::run(ss, Some(i), &mut |_| None);
        let mut path = vec![];
        for g in 0..2usize {
            for (j, sh) in p.shapes[g].iter().enumerate() {
                let gs = [g as u8 + 1, 1];
                path.push(grouped(j as u8 + 1, &gs, false)?);
                if sh[1] {
                    path.push(grouped(j as u8 + 1, &gs, true)?);
                }
                if let Some((at, true)) = p.shortcut[g] {
                    if at == j as u8 + 1 {
                        break;
                    }
                }
            }
        }
        path.push(grouped(1, &[2], false)?);
        path.push(grouped(1, &[2], true)?);
        let offence = p.offence.map(|o| (o.0, o.1, o.2, o.3)).or(late.map(|l| (2, 1, l.0, l.1)));
        for (id, n) in out.nodes {
            let by = offence.map(|o| o.2);
            if offence.is_none() {
                ctx.check("nested-chain", n.trouble.is_empty() && n.path == path, || format!("{p:?}: {id:?}: {:?} {:?} instead of {path:?}", n.path, n.trouble));
                let res = n.report.and_then(|r| r.result());
                ctx.check("nested-chain", res == Some(format!("end {}", id.0)), || format!("{p:?}: {id:?}: {res:?}"));
            } else if by == Some(id) {
                let (g, rd, _, against) = offence.expect("checked above");
                let here = grouped(rd, &if g == 2 { vec![2] } else { vec![g as u8 + 1, 1] }, false)?;
                let provable = g == 2 || script(&p, g, id, &sn).rounds[rd as usize - 1].recv.get(&against).map(|x| matches!(x, Recv::Protocol(_))).unwrap_or(false);
                let rep = match n.report {
                    Some(r) => r,
                    None => {
                        ctx.fail("nested-report", format!("{p:?}: {id:?}: no report; {:?}", n.trouble));
                        continue;
                    }
                };
                let reached = path.contains(&here);
                let want = if reached && provable { BTreeSet::from([against]) } else { BTreeSet::new() };
                ctx.check("nested-report", keys(&rep.provable_errors) == want, || format!("{p:?}, {late:?}: {id:?} accuses {:?} instead of {want:?}", keys(&rep.provable_errors)));
                for (against, e) in &rep.provable_errors {
                    nested_evidence(ctx, &format!("nested chain {p:?}, {late:?}"), g, *against, &to_v(e)?)?;
                }
            }
        }
    }
    Ok(())
}

/// Evidence of a nested chain: checked with that part's data, and no other group's rounds are accepted in it.
fn nested_evidence(ctx: &mut Ctx, name: &str, g: usize, against: Vid, v: &Value) -> R<()> {
    let check = |v: &Value, d: [u32; 3]| {
        let protocol1 = ChainedSharedData { protocol1: Shared(d[0]), protocol2: Shared(d[1]) };
        verify_in::<Three>(v, &ChainedSharedData { protocol1, protocol2: Shared(d[2]) })
    };
    for wrong in 0..4 {
        let mut d = [42, 43, 44];
        if wrong < 3 {
            d[wrong] = 7;
        }
        let got = check(v, d);
        let ok = if wrong == g { matches!(got, Verdict::Invalid(_)) } else { got == Verdict::Confirmed };
        ctx.check("nested-evidence", ok, || format!("{name}: evidence against {against:?} in protocol {}, with the shared data {d:?}: {got:?}; {v}", g + 1));
    }
    let sn = sid("chain");
    for a in [json!([]), json!([1]), json!([2]), json!([1, 1]), json!([2, 1]), json!([1, 2]), json!([2, 2]), json!([1, 1, 1]), json!([2, 1, 1]), json!([1, 2, 1])] {
        // everything in another group, and only some of it
        for only in [None, Some("direct_message"), Some("echo_broadcast"), Some("normal_broadcast"), Some("direct_messages"), Some("echo_hashes")] {
            let mut w = v.clone();
            let mut changed = false;
            for p in all_places(v) {
                let here = match get(&w, &p) {
                    Some(h) => h.clone(),
                    None => continue,
                };
                if let Some(only) = only {
                    if !p.iter().any(|s| matches!(s, Step::Key(k) if k == only)) {
                        continue;
                    }
                }
                if is_part(&here) {
                    if let Some(kind) = kind_at(&p) {
                        let mut rid = at(&here, &["message_with_metadata", "metadata", "round_id"])?.clone();
                        changed |= rid.get("groups") != Some(&a);
                        rid["groups"] = a.clone();
                        let part = resign_in(&sn, &here, kind, &from_v(&rid)?, signer_of(v, &p, against))?;
                        put(&mut w, &p, part);
                    }
                } else if here.get("groups").is_some() && !p.iter().any(|s| matches!(s, Step::Key(k) if k == "message_with_metadata")) {
                    let mut rid = here.clone();
                    rid["groups"] = a.clone();
                    put(&mut w, &p, rid);
                }
            }
            if changed && v.get("evidence").and_then(|e| e.get("Protocol")).is_some() {
                let got = check(&w, [42, 43, 44]);
                ctx.check("wrong-group", matches!(got, Verdict::Invalid(_) | Verdict::Unreadable), || format!("{name}: evidence moved to group {a} ({only:?}): {got:?}: {w}"));
            }
        }
    }
    Ok(())
}
