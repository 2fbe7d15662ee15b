=== file manul/src/dev/run_sync.rs
=== raw queues of messages @props P20
/// The messages of one sender which are not delivered yet.
pub open spec fn queue_of<SP: SessionParameters>(m: Messages<SP>, from: SP::Verifier) -> Seq<RoundMessage<SP>> {
    match m {
        Messages::Ordered(q) => if q@.contains_key(from) { q@[from]@ } else { Seq::empty() },
        Messages::Unordered(v) => sent_by(v@, from),
    }
}
#[verifier::opaque]
pub open spec fn queues_ok<SP: SessionParameters>(m: Messages<SP>) -> bool {
    m matches Messages::Ordered(q) ==> forall|k: SP::Verifier| #[trigger] q@.contains_key(k) ==> q@[k]@.len() > 0 && forall|i: int| 0 <= i < q@[k]@.len() ==> (#[trigger] q@[k]@[i]).from == k
}
pub open spec fn sent_by<SP: SessionParameters>(q: Seq<RoundMessage<SP>>, from: SP::Verifier) -> Seq<RoundMessage<SP>>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else if q.last().from == from { sent_by(q.drop_last(), from).push(q.last()) } else { sent_by(q.drop_last(), from) }
}
pub proof fn lemma_sent_push<SP: SessionParameters>(q: Seq<RoundMessage<SP>>, m: RoundMessage<SP>)
    ensures forall|v: SP::Verifier| #[trigger] sent_by(q.push(m), v) == if m.from == v { sent_by(q, v).push(m) } else { sent_by(q, v) }
{ assert(q.push(m).drop_last() =~= q); }
pub proof fn lemma_sent_nonempty<SP: SessionParameters>(q: Seq<RoundMessage<SP>>)
    ensures q.len() > 0 ==> sent_by(q, q.last().from).len() > 0, (exists|v: SP::Verifier| #[trigger] sent_by(q, v).len() > 0) ==> q.len() > 0
{}
pub proof fn lemma_queues<SP: SessionParameters>(m: Messages<SP>)
    requires queues_ok(m)
    ensures (forall|v: SP::Verifier| #[trigger] queue_of(m, v).len() == 0) <==> (m matches Messages::Ordered(q) && q@ == Map::<SP::Verifier, Vec<RoundMessage<SP>>>::empty()) || (m matches Messages::Unordered(q) && q@.len() == 0)
{
    reveal(queues_ok);
    match m {
        Messages::Ordered(q) => {
            if forall|v: SP::Verifier| #[trigger] queue_of(m, v).len() == 0 {
                assert forall|v: SP::Verifier| !q@.contains_key(v) by { assert(queue_of(m, v).len() == 0); }
                assert(q@ =~= Map::<SP::Verifier, Vec<RoundMessage<SP>>>::empty());
            }
        }
        Messages::Unordered(q) => {
            lemma_sent_nonempty(q@);
            if q@.len() > 0 { assert(queue_of(m, q@.last().from).len() > 0); }
        }
    }
}
pub proof fn lemma_keys_len<K>(s: Set<K>, q: Seq<&K>)
    requires set_ref_items(s, q), s.finite()
    ensures q.len() == s.len()
{
    let p = q.map_values(|k: &K| *k);
    assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(*q[i] != *q[j]); } }
    p.unique_seq_to_set();
    assert(p.to_set() =~= s) by {
        assert forall|k: K| s.contains(k) implies p.contains(k) by { let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == k; assert(p[i] == k); }
        assert forall|k: K| p.contains(k) implies s.contains(k) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(s.contains(*q[i])); }
    }
}
=== fn Messages::new
@props P20
ensures queues_ok(ret), ret is Ordered <==> ordered, forall|v: SP::Verifier| #[trigger] queue_of(ret, v) == Seq::<RoundMessage<SP>>::empty(),
=== fn Messages::push
@props P20
ensures (*final(self)) is Ordered <==> (*old(self)) is Ordered, queues_ok(*old(self)) ==> queues_ok(*final(self)),
    forall|v: SP::Verifier| #[trigger] queue_of(*final(self), v) == if v == message.from { queue_of(*old(self), v).push(message) } else { queue_of(*old(self), v) },
=== fn Messages::new | proof start
proof { reveal(queues_ok); }
=== fn Messages::push | proof start
proof { reveal(queues_ok); if *self is Unordered { lemma_sent_push((*self)->Unordered_0@, message); } }
=== fn Messages::extend
@props P20
ensures (*final(self)) is Ordered <==> (*old(self)) is Ordered, queues_ok(*old(self)) ==> queues_ok(*final(self)),
    forall|v: SP::Verifier| #[trigger] queue_of(*final(self), v) == queue_of(*old(self), v) + sent_by(messages@, v),
=== fn Messages::extend | loop 0
(*self) is Ordered <==> (*old(self)) is Ordered, queues_ok(*old(self)) ==> queues_ok(*self), messages@ == __seq0,
__o == *old(self), forall|v: SP::Verifier| #[trigger] queue_of(*self, v) == queue_of(__o, v) + sent_by(__seq0.take(__it0.pos()), v),
=== fn Messages::extend | proof start
let ghost __o = *self;
=== fn Messages::extend | proof loop 0 start
let ghost __b = *self;
=== fn Messages::extend | proof loop 0 end
proof {
    lemma_sent_push(__seq0.take(__it0.pos() - 1), __seq0[__it0.pos() - 1]);
    assert(__seq0.take(__it0.pos()) =~= __seq0.take(__it0.pos() - 1).push(__seq0[__it0.pos() - 1]));
    assert forall|v: SP::Verifier| #[trigger] queue_of(*self, v) == queue_of(__o, v) + sent_by(__seq0.take(__it0.pos()), v) by {
        assert(queue_of(__b, v) == queue_of(__o, v) + sent_by(__seq0.take(__it0.pos() - 1), v));
        assert(queue_of(*self, v) =~= queue_of(__o, v) + sent_by(__seq0.take(__it0.pos()), v));
    }
}
=== fn Messages::extend | proof loop 0 after
proof { assert(__seq0.take(__seq0.len() as int) =~= __seq0); }
=== fn Messages::pop
@props P20
requires queues_ok(*old(self)), exists|v: SP::Verifier| #[trigger] queue_of(*old(self), v).len() > 0,
ensures (*final(self)) is Ordered <==> (*old(self)) is Ordered, queues_ok(*final(self)),
    // the first message of some sender, and nothing else is lost
    (*old(self)) is Ordered ==> queue_of(*old(self), ret.from).len() > 0 && ret == queue_of(*old(self), ret.from)[0]
        && forall|v: SP::Verifier| #[trigger] queue_of(*final(self), v) == if v == ret.from { queue_of(*old(self), v).drop_first() } else { queue_of(*old(self), v) },
=== fn Messages::is_empty
@props P20
ensures queues_ok(*self) ==> (ret <==> forall|v: SP::Verifier| #[trigger] queue_of(*self, v).len() == 0),
=== fn Messages::is_empty | proof start
proof { if queues_ok(*self) { lemma_queues(*self); } }
=== fn Messages::pop | proof start
let ghost __o = *self;
proof { reveal(queues_ok); lemma_queues(*self); }
=== fn Messages::pop | proof after len 0
proof { axiom_map_finite(*m); assert forall|q: Seq<&SP::Verifier>| #[trigger] set_ref_items(m@.dom(), q) implies q.len() == m@.len() by { lemma_keys_len(m@.dom(), q); } }
=== raw going on without new messages @props P20
pub open spec fn msg_out<SP: SessionParameters>(id: SessionId, m: RoundMessage<SP>) -> MessageOut<SP> {
    MessageOut { session_id: id, from: m.from, to: m.to, message: m.message }
}
pub open spec fn msgs_out<SP: SessionParameters>(id: SessionId, q: Seq<RoundMessage<SP>>) -> Seq<MessageOut<SP>> {
    q.map_values(|m: RoundMessage<SP>| msg_out(id, m))
}
/// The session and the accumulator after the rounds `q`.
pub open spec fn session_after<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, q: Seq<RoundRun<P, SP>>) -> Session<P, SP> {
    if q.len() == 0 { s } else { q.last().session }
}
pub open spec fn accum_after<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>) -> RoundAccumulator<P, SP> {
    if q.len() == 0 { a } else { q.last().states.last() }
}
/// From the end of a round: the rounds that go by without further messages, and what they send.
#[verifier::opaque]
pub open spec fn goes_on<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, sent: Seq<RoundMessage<SP>>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> run_complete(#[trigger] q[i]) && q[i].received.len() == 0
    &&& forall|i: int| 0 < i < q.len() ==> run_next(q[i - 1], #[trigger] q[i])
    &&& q.len() > 0 ==> readiness(a, s.transcript) is Yes && moved_to(s, a, q[0].session, q[0].kept)
    &&& msgs_out(s.session_id, sent) == all_sent(q)
    &&& forall|i: int| 0 <= i < sent.len() ==> (#[trigger] sent[i]).from == s.signer.vk()
    &&& session_inv(session_after(s, q)) && same_party(s, session_after(s, q)) && echoes_so_far(session_after(s, q), accum_after(a, q))
}
#[verifier::opaque]
pub open spec fn ends_up<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, state: State<P, SP>) -> bool {
    match state {
        State::InProgress { session, accum } => *session == s && accum == a && readiness(a, s.transcript) is NotYet,
        State::Finished(report) => {
            ||| readiness(a, s.transcript) is Yes && moved_on(s, a, RoundOutcome::Finished(report))
            ||| readiness(a, s.transcript) is Never && terminated(s, a, SessionOutcome::NotEnoughMessages, Ok(report))
        }
    }
}
pub open spec fn propagated<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, state: State<P, SP>, sent: Seq<RoundMessage<SP>>) -> bool {
    goes_on(s, a, q, sent) && ends_up(session_after(s, q), accum_after(a, q), state)
}
/// In a round that was entered without further messages.
#[verifier::opaque]
pub open spec fn going_on<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, r: RoundRun<P, SP>, sent: Seq<RoundMessage<SP>>, n: Session<P, SP>, b: RoundAccumulator<P, SP>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> run_complete(#[trigger] q[i]) && q[i].received.len() == 0
    &&& forall|i: int| 0 < i < q.len() ==> run_next(q[i - 1], #[trigger] q[i])
    &&& q.len() > 0 ==> readiness(a, s.transcript) is Yes && moved_to(s, a, q[0].session, q[0].kept)
    &&& q.len() > 0 ==> forall|x: RoundRun<P, SP>| x.session == r.session && x.kept == r.kept ==> #[trigger] run_next(q.last(), x)
    &&& q.len() == 0 ==> readiness(a, s.transcript) is Yes && moved_to(s, a, r.session, r.kept)
    &&& msgs_out(s.session_id, sent) == all_sent(q) + r.sent
    &&& forall|i: int| 0 <= i < sent.len() ==> (#[trigger] sent[i]).from == s.signer.vk()
    &&& run_part(r) && r.received.len() == 0 && r.session == n && r.states.last() == b && session_inv(n) && same_party(s, n) && echoes_so_far(n, b)
}
pub proof fn lemma_on_start<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>)
    requires session_inv(s), echoes_so_far(s, a)
    ensures goes_on(s, a, Seq::empty(), Seq::empty())
{ reveal(goes_on); assert(msgs_out(s.session_id, Seq::<RoundMessage<SP>>::empty()) =~= Seq::empty()); }
pub proof fn lemma_on_round<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, sent: Seq<RoundMessage<SP>>, n: Session<P, SP>, kept: Seq<VerifiedMessage<SP::Verifier>>, b: RoundAccumulator<P, SP>)
    requires goes_on(s, a, q, sent), readiness(accum_after(a, q), session_after(s, q).transcript) is Yes, moved_to(session_after(s, q), accum_after(a, q), n, kept), fresh_accumulator(n, b)
    ensures going_on(s, a, q, run_start(n, kept, b), sent, n, b)
{ reveal(goes_on); reveal(going_on); reveal(run_next); lemma_run_start(n, kept, b); lemma_fresh(n, b);
  assert(all_sent(q) + Seq::<MessageOut<SP>>::empty() =~= all_sent(q)); }
pub proof fn lemma_on_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, r: RoundRun<P, SP>, sent: Seq<RoundMessage<SP>>, n: Session<P, SP>, b: RoundAccumulator<P, SP>, p: ProcessedMessage<SP>, c: RoundAccumulator<P, SP>)
    requires going_on(s, a, q, r, sent, n, b), echoes_come::<P, SP>(), r.kept_results.len() < r.kept.len(),
        processed_as(n, r.kept[r.kept_results.len() as int], p), recorded_result(b, n.format, n.transcript, p, c, Ok(()))
    ensures going_on(s, a, q, run_kept(r, p, c), sent, n, c)
{ reveal(going_on); lemma_run_kept(r, p, c); lemma_echoes_so_far(n, b, p.message, p, c); }
pub proof fn lemma_on_sent<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, r: RoundRun<P, SP>, sent: Seq<RoundMessage<SP>>, n: Session<P, SP>, b: RoundAccumulator<P, SP>, m: RoundMessage<SP>, p: ProcessedArtifact<SP>, c: RoundAccumulator<P, SP>)
    requires going_on(s, a, q, r, sent, n, b), m.from == n.verifier, made_message(n, m.to, m.message, p), artifact_added(b, p, c)
    ensures going_on(s, a, q, run_sent(r, msg_out(n.session_id, m), p, c), sent.push(m), n, c)
{ reveal(going_on); let o = msg_out(n.session_id, m); assert(sent_right(n, o, p)); lemma_run_sent(r, o, p, c); lemma_echoes_kept(n, b, c);
  assert(msgs_out(s.session_id, sent.push(m)) =~= msgs_out(s.session_id, sent).push(o));
  assert(all_sent(q) + r.sent.push(o) =~= (all_sent(q) + r.sent).push(o)); }
pub proof fn lemma_on_end<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, r: RoundRun<P, SP>, sent: Seq<RoundMessage<SP>>, n: Session<P, SP>, b: RoundAccumulator<P, SP>)
    requires going_on(s, a, q, r, sent, n, b), round_begun(r)
    ensures goes_on(s, a, q.push(r), sent), session_after(s, q.push(r)) == n, accum_after(a, q.push(r)) == b
{ reveal(going_on); reveal(goes_on); let w = q.push(r);
  assert(w.drop_last() =~= q); assert(w.last() == r);
  assert forall|i: int| 0 <= i < w.len() implies run_complete(#[trigger] w[i]) && w[i].received.len() == 0 by { if i < q.len() { assert(run_complete(q[i])); } }
  assert forall|i: int| 0 < i < w.len() implies run_next(w[i - 1], #[trigger] w[i]) by { if i < q.len() { assert(run_next(q[i - 1], q[i])); } } }
pub proof fn lemma_on_ready<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, sent: Seq<RoundMessage<SP>>)
    requires goes_on(s, a, q, sent), echoes_come::<P, SP>()
    ensures session_inv(session_after(s, q)), readiness(accum_after(a, q), session_after(s, q).transcript) is Yes ==> echoes_there(session_after(s, q), accum_after(a, q))
{ reveal(goes_on); if readiness(accum_after(a, q), session_after(s, q).transcript) is Yes { lemma_echoes_there(session_after(s, q), accum_after(a, q)); } }
=== fn propagate
@props P20
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::exec_allows_no_decreases_clause]
requires session_inv(session), echoes_so_far(session, accum), echoes_come::<P, SP>(),
ensures ret matches Ok(x) ==> exists|q: Seq<RoundRun<P, SP>>| #[trigger] propagated(session, accum, q, x.0, x.1@),
=== fn propagate | proof start
let ghost __s = session;
let ghost __a = accum;
let ghost mut __q = Seq::<RoundRun<P, SP>>::empty();
let ghost mut __r: RoundRun<P, SP> = arbitrary();
proof { lemma_on_start(session, accum); reveal(ends_up); }
=== fn propagate | loop 0
invariant goes_on(__s, __a, __q, messages@), session == session_after(__s, __q), accum == accum_after(__a, __q),
ensures __brk0 matches Some(state) && propagated(__s, __a, __q, state, messages@),
=== fn propagate | proof loop 0 start
proof { lemma_on_ready(__s, __a, __q, messages@); }
=== fn propagate | proof after make_accumulator 0
proof { __r = run_start(session, cached_messages@, accum); lemma_on_round(__s, __a, __q, messages@, session, cached_messages@, accum); }
=== fn propagate | loop 1
__seq1 == __r.kept, going_on(__s, __a, __q, __r, messages@, session, accum), __r.kept_results.len() == __it1.pos(), __r.session == session, __r.sent.len() == 0,
=== fn propagate | proof before add_processed_message 0
let ghost __p = processed;
let ghost __b = accum;
=== fn propagate | proof after add_processed_message 0
proof { lemma_on_kept(__s, __a, __q, __r, messages@, session, __b, __p, accum); __r = run_kept(__r, __p, accum); }
=== fn propagate | loop 2
set_ref_items(session.communication_info.message_destinations@, __seq2), __r.session == session, __r.kept_results.len() == __r.kept.len(),
going_on(__s, __a, __q, __r, messages@, session, accum),
__r.sent.map_values(|m: MessageOut<SP>| m.to) == __seq2.take(__it2.pos()).map_values(|v: &SP::Verifier| *v),
=== fn propagate | proof before make_message 0
let ghost __sent = messages@;
=== fn propagate | proof before add_artifact 0
let ghost __p = artifact;
let ghost __b = accum;
=== fn propagate | proof after add_artifact 0
proof { let m = messages@.last(); lemma_on_sent(__s, __a, __q, __r, __sent, session, __b, m, __p, accum);
    lemma_sent_to(__r, msg_out(session.session_id, m), __p, accum, __seq2, __it2.pos() - 1);
    __r = run_sent(__r, msg_out(session.session_id, m), __p, accum); }
=== fn propagate | proof loop 2 after
proof { lemma_all_items(session.communication_info.message_destinations@, __seq2, __r.sent.map_values(|m: MessageOut<SP>| m.to));
    lemma_on_end(__s, __a, __q, __r, messages@, session, accum); __q = __q.push(__r); }
=== fn ExecutionResult::results
@props P20
ensures ret matches Ok(m) ==> m@.dom() == self.reports@.dom() && forall|v: SP::Verifier| #[trigger] m@.contains_key(v) ==> self.reports@[v].outcome == SessionOutcome::<SP::Verifier, P>::Result(m@[v]),
    ret is Err ==> exists|v: SP::Verifier| #[trigger] self.reports@.contains_key(v) && !(self.reports@[v].outcome is Result),
=== fn ExecutionResult::results | loop 0
map_items(self.reports@, __seq0),
report_strings@.len() > 0 ==> exists|v: SP::Verifier| #[trigger] self.reports@.contains_key(v) && !(self.reports@[v].outcome is Result),
forall|v: SP::Verifier| #[trigger] results@.contains_key(v) ==> exists|i: int| 0 <= i < __it0.pos() && (#[trigger] __seq0[i]).0 == v,
report_strings@.len() == 0 ==> forall|i: int| 0 <= i < __it0.pos() ==> results@.contains_key((#[trigger] __seq0[i]).0) && __seq0[i].1.outcome == SessionOutcome::<SP::Verifier, P>::Result(results@[__seq0[i].0]),
=== fn propagate | proof tail
proof { assert(propagated(__s, __a, __q, state, messages@)); let ret0 = Ok::<(State<P, SP>, Vec<RoundMessage<SP>>), LocalError>((state, messages)); assert(ret0 matches Ok(x) ==> propagated(__s, __a, __q, x.0, x.1@)); assert(exists|q: Seq<RoundRun<P, SP>>| #[trigger] propagated(__s, __a, q, state, messages@)); }

=== raw a run of several parties @props P20
impl SessionId {
    #[verifier::external_body]
    pub fn random<SP: SessionParameters>(rng: &mut Rng) -> (ret: Self) { unimplemented!() }
}
/// What one of the parties did so far: its session at first, the rounds it is through with, the one it is in, and its messages.
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(SP)]
pub ghost struct PartyRun<P: Protocol<SP::Verifier>, SP: SessionParameters> {
    pub s0: Session<P, SP>,
    pub done: Seq<RoundRun<P, SP>>,
    pub r: RoundRun<P, SP>,
    pub sent: Seq<MessageOut<SP>>,
    pub received: Seq<MessageIn<SP>>,
}
/// The messages for one party, in the order of their delivery.
pub open spec fn ins_of<SP: SessionParameters>(d: Seq<RoundMessage<SP>>, to: SP::Verifier) -> Seq<MessageIn<SP>>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() } else if d.last().to == to { ins_of(d.drop_last(), to).push(MessageIn { from: d.last().from, message: d.last().message }) } else { ins_of(d.drop_last(), to) }
}
pub open spec fn within<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, s: Session<P, SP>, a: RoundAccumulator<P, SP>) -> bool {
    within_round(p.done, p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, s, a, p.r)
}
/// Where a party is that made the messages `out` and was given the messages `ins`.
#[verifier::opaque]
pub open spec fn party_ok<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, id: SessionId, v: SP::Verifier, state: State<P, SP>, out: Seq<RoundMessage<SP>>, ins: Seq<MessageIn<SP>>) -> bool {
    &&& p.s0.session_id == id && p.s0.signer.vk() == v && p.sent == msgs_out(id, out)
    &&& match state {
        State::InProgress { session, accum } => within(p, *session, accum) && round_begun(p.r) && same_party(p.s0, *session) && readiness(accum, session.transcript) is NotYet && p.received == ins,
        // what comes after the end is not used
        State::Finished(report) => driven(p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, false, report) && p.received.is_prefix_of(ins),
    }
}
/// The report of a party when there are no more messages.
#[verifier::opaque]
pub open spec fn party_done<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, id: SessionId, v: SP::Verifier, out: Seq<RoundMessage<SP>>, ins: Seq<MessageIn<SP>>, report: SessionReport<P, SP>) -> bool {
    &&& p.s0.session_id == id && p.s0.signer.vk() == v && p.sent == msgs_out(id, out)
    &&& driven(p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, false, report) && p.received.is_prefix_of(ins)
        || driven(p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, true, report) && p.received == ins
}
pub open spec fn out_of<SP: SessionParameters>(d: Seq<RoundMessage<SP>>, m: Messages<SP>, v: SP::Verifier) -> Seq<RoundMessage<SP>> { sent_by(d, v) + queue_of(m, v) }
/// The parties, the messages delivered so far and those still to be delivered.
#[verifier::opaque]
pub open spec fn sync_state<P: Protocol<SP::Verifier>, SP: SessionParameters>(id: SessionId, runs: Map<SP::Verifier, PartyRun<P, SP>>, states: Map<SP::Verifier, State<P, SP>>, m: Messages<SP>, d: Seq<RoundMessage<SP>>) -> bool {
    &&& states.dom() == runs.dom()
    &&& forall|v: SP::Verifier| #[trigger] runs.contains_key(v) ==> party_ok(runs[v], id, v, states[v], out_of(d, m, v), ins_of(d, v))
    &&& forall|v: SP::Verifier| !runs.contains_key(v) ==> #[trigger] out_of(d, m, v) == Seq::<RoundMessage<SP>>::empty()
    &&& queues_ok(m) && m is Ordered
}
/// The session of the party starts out with the round that the entry point makes for it.
pub open spec fn started_by<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: (SP::Signer, EP), s0: Session<EP::Protocol, SP>) -> bool {
    s0.session_id == id && s0.signer == e.0 && s0.format == format_of::<SP::WireFormat>() && e.1.makes(id.0@, e.0.vk(), Ok(s0.round))
}
/// The first `n` parties have started, and nobody else.
#[verifier::opaque]
pub open spec fn started_some<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, entries: Seq<(SP::Signer, EP)>, n: int, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> runs.contains_key((#[trigger] entries[i]).0.vk()) && started_by(id, entries[i], runs[entries[i].0.vk()].s0)
    &&& forall|v: SP::Verifier| #[trigger] runs.contains_key(v) ==> exists|i: int| 0 <= i < n && (#[trigger] entries[i]).0.vk() == v
}
pub proof fn lemma_started_none<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: Seq<(SP::Signer, EP)>)
    ensures started_some::<EP, SP>(id, e, 0, Map::empty())
{ reveal(started_some); }
pub proof fn lemma_started_new<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: Seq<(SP::Signer, EP)>, n: int, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>)
    requires started_some(id, e, n, runs), distinct_parties::<EP, SP>(e), 0 <= n < e.len()
    ensures !runs.contains_key(e[n].0.vk())
{ reveal(started_some); reveal(distinct_parties); }
pub proof fn lemma_started_more<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: Seq<(SP::Signer, EP)>, n: int, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>, p: PartyRun<EP::Protocol, SP>)
    requires started_some(id, e, n, runs), distinct_parties::<EP, SP>(e), 0 <= n < e.len(), started_by(id, e[n], p.s0)
    ensures started_some(id, e, n + 1, runs.insert(e[n].0.vk(), p))
{
    reveal(started_some); reveal(distinct_parties);
    let r = runs.insert(e[n].0.vk(), p);
    assert forall|i: int| 0 <= i < n + 1 implies r.contains_key((#[trigger] e[i]).0.vk()) && started_by(id, e[i], r[e[i].0.vk()].s0) by { if i < n { assert(runs.contains_key(e[i].0.vk())); } }
    assert forall|v: SP::Verifier| #[trigger] r.contains_key(v) implies exists|i: int| 0 <= i < n + 1 && (#[trigger] e[i]).0.vk() == v by {
        if v == e[n].0.vk() { assert(e[n].0.vk() == v); } else { assert(runs.contains_key(v)); let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0.vk() == v; assert(e[i].0.vk() == v); }
    }
}
pub proof fn lemma_started_all<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: Seq<(SP::Signer, EP)>, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>)
    requires started_some(id, e, e.len() as int, runs)
    ensures sync_started(id, e, runs)
{ reveal(started_some); reveal(sync_started); }
/// What a party gets later changes nothing about how it started.
pub proof fn lemma_started_kept<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, e: Seq<(SP::Signer, EP)>, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>, v: SP::Verifier, p: PartyRun<EP::Protocol, SP>)
    requires sync_started(id, e, runs), runs.contains_key(v), p.s0 == runs[v].s0
    ensures sync_started(id, e, runs.insert(v, p))
{
    reveal(sync_started);
    let r = runs.insert(v, p);
    assert forall|u: SP::Verifier| #[trigger] r.contains_key(u) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vk() == u by { assert(runs.contains_key(u)); }
}
#[verifier::opaque]
pub open spec fn sync_started<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(id: SessionId, entries: Seq<(SP::Signer, EP)>, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>) -> bool {
    &&& forall|i: int| 0 <= i < entries.len() ==> runs.contains_key((#[trigger] entries[i]).0.vk()) && started_by(id, entries[i], runs[entries[i].0.vk()].s0)
    &&& forall|v: SP::Verifier| #[trigger] runs.contains_key(v) ==> exists|i: int| 0 <= i < entries.len() && (#[trigger] entries[i]).0.vk() == v
}
/// The parties of the run make the sessions of the entry points; every message made is delivered to the party it is for, once;
/// and each report is what the party's session gives with what was delivered to it.
pub open spec fn sync_run<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(entries: Seq<(SP::Signer, EP)>, id: SessionId, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>, d: Seq<RoundMessage<SP>>, reports: Map<SP::Verifier, SessionReport<EP::Protocol, SP>>) -> bool {
    &&& sync_started(id, entries, runs)
    &&& reports.dom() == runs.dom()
    &&& forall|v: SP::Verifier| #[trigger] reports.contains_key(v) ==> party_done(runs[v], id, v, sent_by(d, v), ins_of(d, v), reports[v])
    &&& forall|v: SP::Verifier| #[trigger] sent_by(d, v).len() > 0 ==> reports.contains_key(v)
}
#[verifier::opaque]
pub open spec fn sync_ran<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(entries: Seq<(SP::Signer, EP)>, reports: Map<SP::Verifier, SessionReport<EP::Protocol, SP>>) -> bool {
    exists|id: SessionId, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>, d: Seq<RoundMessage<SP>>| #[trigger] sync_run(entries, id, runs, d, reports)
}
#[verifier::opaque]
pub open spec fn distinct_parties<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(entries: Seq<(SP::Signer, EP)>) -> bool {
    forall|i: int, j: int| 0 <= i < entries.len() && 0 <= j < entries.len() && i != j ==> (#[trigger] entries[i]).0.vk() != (#[trigger] entries[j]).0.vk()
}
pub proof fn lemma_all_joined<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: Seq<RoundRun<P, SP>>, b: Seq<RoundRun<P, SP>>)
    ensures all_sent(a + b) == all_sent(a) + all_sent(b), all_received(a + b) == all_received(a) + all_received(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(all_sent(a) + all_sent(b) =~= all_sent(a)); assert(all_received(a) + all_received(b) =~= all_received(a)); }
    else {
        lemma_all_joined(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        assert(all_sent(a + b) =~= all_sent(a) + all_sent(b)); assert(all_received(a + b) =~= all_received(a) + all_received(b));
    }
}
pub proof fn lemma_none_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).received.len() == 0
    ensures all_received(q) == Seq::<MessageIn<SP>>::empty()
    decreases q.len()
{ if q.len() > 0 { assert forall|i: int| 0 <= i < q.drop_last().len() implies (#[trigger] q.drop_last()[i]).received.len() == 0 by { assert(q[i].received.len() == 0); } lemma_none_received(q.drop_last()); assert(q.last().received.len() == 0); assert(all_received(q) =~= Seq::empty()); } }
/// A party after the rounds that went by without further messages.
pub open spec fn party_on<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, q: Seq<RoundRun<P, SP>>) -> PartyRun<P, SP> {
    if q.len() == 0 { p } else { PartyRun { done: p.done.push(p.r) + q.drop_last(), r: q.last(), sent: p.sent + all_sent(q), ..p } }
}
pub proof fn lemma_party_on<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, msgs: Seq<RoundMessage<SP>>)
    requires within(p, s, a), round_begun(p.r), same_party(p.s0, s), goes_on(s, a, q, msgs)
    ensures within(party_on(p, q), session_after(s, q), accum_after(a, q)), round_begun(party_on(p, q).r), same_party(p.s0, session_after(s, q)),
        party_on(p, q).sent == p.sent + msgs_out(s.session_id, msgs), party_on(p, q).received == p.received,
        forall|i: int| 0 <= i < msgs.len() ==> (#[trigger] msgs[i]).from == p.s0.signer.vk(),
{
    reveal(within_round); reveal(goes_on);
    if q.len() == 0 { assert(p.sent + all_sent(q) =~= p.sent); }
    else {
        let b = party_on(p, q);
        let w = q.drop_last();
        let (e, f) = (p.done.push(p.r), p.done.push(p.r) + w);
        assert(run_complete(p.r));
        lemma_rounds_push(p.done, p.r, p.s0);
        lemma_all_joined(e, w);
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).received.len() == 0 by { assert(run_complete(q[i])); }
        lemma_none_received(w);
        assert(all_sent(q) == all_sent(w) + q.last().sent);
        assert(run_complete(q.last()) && q.last().received.len() == 0) by { assert(q[q.len() - 1] == q.last()); }
        assert(run_next(p.r, q[0])) by { reveal(run_next); }
        assert(rounds_run(f, p.s0)) by {
            reveal(rounds_run);
            assert(f[0] == e[0]);
            assert forall|i: int| 0 <= i < f.len() implies run_complete(#[trigger] f[i]) by { if i < e.len() { assert(f[i] == e[i]); } else { assert(f[i] == q[i - e.len()]); } }
            assert forall|i: int| 0 < i < f.len() implies run_next(f[i - 1], #[trigger] f[i]) by {
                if i < e.len() { assert(f[i] == e[i]); assert(f[i - 1] == e[i - 1]); }
                else if i == e.len() { assert(f[i] == q[0]); assert(f[i - 1] == p.r); }
                else { assert(f[i] == q[i - e.len()]); assert(f[i - 1] == q[i - e.len() - 1]); }
            }
        }
        let l = f.last();
        assert(run_next(l, b.r)) by { if w.len() == 0 { assert(l == p.r); } else { assert(l == q[q.len() - 2]); assert(b.r == q[q.len() - 1]); } }
        assert forall|x: RoundRun<P, SP>| x.session == b.r.session && x.kept == b.r.kept implies #[trigger] run_next(l, x) by { reveal(run_next); }
        let (xs, ys) = (Seq::<MessageOut<SP>>::empty(), Seq::<MessageIn<SP>>::empty());
        assert(b.sent =~= xs + all_sent(f) + b.r.sent);
        assert(b.received =~= ys + all_received(f) + b.r.received);
        assert(run_part(b.r));
        assert(b.r.session == session_after(s, q) && b.r.states.last() == accum_after(a, q));
    }
}
pub proof fn lemma_party_ok<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, q: Seq<RoundRun<P, SP>>, state: State<P, SP>, msgs: Seq<RoundMessage<SP>>, id: SessionId, v: SP::Verifier, out: Seq<RoundMessage<SP>>)
    requires within(p, s, a), round_begun(p.r), same_party(p.s0, s), propagated(s, a, q, state, msgs), echoes_come::<P, SP>(),
        p.s0.session_id == id, p.s0.signer.vk() == v, p.sent == msgs_out(id, out)
    ensures party_ok(party_on(p, q), id, v, state, out + msgs, p.received), forall|i: int| 0 <= i < msgs.len() ==> (#[trigger] msgs[i]).from == v
{
    reveal(party_ok); reveal(ends_up);
    lemma_party_on(p, s, a, q, msgs);
    let (b, n, c) = (party_on(p, q), session_after(s, q), accum_after(a, q));
    assert(msgs_out(id, out + msgs) =~= msgs_out(id, out) + msgs_out(id, msgs));
    lemma_round_ends(b.done, b.s0, Seq::empty(), Seq::empty(), b.sent, b.received, n, c, b.r, false);
}
/// A message that is not processed any further.
pub proof fn lemma_party_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, m: MessageIn<SP>, b: RoundAccumulator<P, SP>) -> (n: PartyRun<P, SP>)
    requires within(p, s, a), readiness(a, s.transcript) is NotYet, round_begun(p.r), exists|o: PreprocessOutcome<SP::Verifier>| !(o is ToProcess) && #[trigger] preprocessed(s, a, m.from, m.message, b, Ok(o))
    ensures within(n, s, b), round_begun(n.r), n.s0 == p.s0, n.sent == p.sent, n.received == p.received.push(m)
{
    let o = choose|o: PreprocessOutcome<SP::Verifier>| !(o is ToProcess) && #[trigger] preprocessed(s, a, m.from, m.message, b, Ok(o));
    lemma_round_received(p.done, p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, s, a, p.r, m, o, b);
    PartyRun { r: run_received(p.r, m, o, b), received: p.received.push(m), ..p }
}
pub proof fn lemma_sent_by_one<SP: SessionParameters>(q: Seq<RoundMessage<SP>>, v: SP::Verifier)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).from == v
    ensures sent_by(q, v) == q, forall|u: SP::Verifier| u != v ==> #[trigger] sent_by(q, u) == Seq::<RoundMessage<SP>>::empty()
    decreases q.len()
{
    if q.len() > 0 {
        let w = q.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).from == v by { assert(q[i].from == v); }
        lemma_sent_by_one(w, v);
        assert(q.last().from == v);
        assert(w.push(q.last()) =~= q);
        assert(sent_by(q, v) == sent_by(w, v).push(q.last()));
        assert forall|u: SP::Verifier| u != v implies #[trigger] sent_by(q, u) == Seq::<RoundMessage<SP>>::empty() by { assert(sent_by(w, u) == Seq::<RoundMessage<SP>>::empty()); assert(sent_by(q, u) == sent_by(w, u)); }
    } else { assert(q =~= Seq::empty()); }
}
pub proof fn lemma_ins_push<SP: SessionParameters>(d: Seq<RoundMessage<SP>>, m: RoundMessage<SP>)
    ensures forall|v: SP::Verifier| #[trigger] ins_of(d.push(m), v) == if m.to == v { ins_of(d, v).push(MessageIn { from: m.from, message: m.message }) } else { ins_of(d, v) }
{ assert(d.push(m).drop_last() =~= d); }
/// One more party, which made the messages `msgs`.
pub proof fn lemma_sync_party<P: Protocol<SP::Verifier>, SP: SessionParameters>(id: SessionId, runs: Map<SP::Verifier, PartyRun<P, SP>>, states: Map<SP::Verifier, State<P, SP>>, m: Messages<SP>, v: SP::Verifier, p: PartyRun<P, SP>, state: State<P, SP>, msgs: Seq<RoundMessage<SP>>, n: Messages<SP>)
    requires sync_state(id, runs, states, m, Seq::empty()), !runs.contains_key(v), party_ok(p, id, v, state, msgs, Seq::empty()), queues_ok(n), n is Ordered,
        forall|u: SP::Verifier| #[trigger] queue_of(n, u) == if u == v { queue_of(m, u) + msgs } else { queue_of(m, u) },
    ensures sync_state(id, runs.insert(v, p), states.insert(v, state), n, Seq::empty())
{
    reveal(sync_state);
    let d = Seq::<RoundMessage<SP>>::empty();
    assert(out_of(d, m, v) == Seq::<RoundMessage<SP>>::empty());
    assert(queue_of(m, v) =~= Seq::<RoundMessage<SP>>::empty()) by { assert(out_of(d, m, v).len() == queue_of(m, v).len()); }
    assert(out_of(d, n, v) =~= msgs);
    assert forall|u: SP::Verifier| u != v implies #[trigger] out_of(d, n, u) == out_of(d, m, u) by { assert(queue_of(n, u) == queue_of(m, u)); }
    assert(states.insert(v, state).dom() =~= runs.insert(v, p).dom());
    assert forall|u: SP::Verifier| #[trigger] runs.insert(v, p).contains_key(u) implies party_ok(runs.insert(v, p)[u], id, u, states.insert(v, state)[u], out_of(d, n, u), ins_of(d, u)) by {
        if u != v { assert(runs.contains_key(u)); assert(out_of(d, n, u) == out_of(d, m, u)); }
    }
    assert forall|u: SP::Verifier| !runs.insert(v, p).contains_key(u) implies #[trigger] out_of(d, n, u) == Seq::<RoundMessage<SP>>::empty() by { assert(!runs.contains_key(u)); assert(out_of(d, n, u) == out_of(d, m, u)); }
}
/// The message `x` is delivered, and the party it is for makes the messages `msgs`.
pub proof fn lemma_sync_delivered<P: Protocol<SP::Verifier>, SP: SessionParameters>(id: SessionId, runs: Map<SP::Verifier, PartyRun<P, SP>>, states: Map<SP::Verifier, State<P, SP>>, m: Messages<SP>, d: Seq<RoundMessage<SP>>, x: RoundMessage<SP>, l: Messages<SP>, p: PartyRun<P, SP>, state: State<P, SP>, msgs: Seq<RoundMessage<SP>>, n: Messages<SP>)
    requires sync_state(id, runs, states, m, d), runs.contains_key(x.to), queues_ok(n), n is Ordered,
        queue_of(m, x.from).len() > 0, x == queue_of(m, x.from)[0],
        forall|u: SP::Verifier| #[trigger] queue_of(l, u) == if u == x.from { queue_of(m, u).drop_first() } else { queue_of(m, u) },
        forall|u: SP::Verifier| #[trigger] queue_of(n, u) == if u == x.to { queue_of(l, u) + msgs } else { queue_of(l, u) },
        party_ok(p, id, x.to, state, out_of(d, m, x.to) + msgs, ins_of(d, x.to).push(MessageIn { from: x.from, message: x.message })),
        p.s0 == runs[x.to].s0,
    ensures sync_state(id, runs.insert(x.to, p), states.remove(x.to).insert(x.to, state), n, d.push(x))
{
    reveal(sync_state);
    let (v, e) = (x.to, d.push(x));
    lemma_ins_push(d, x); lemma_sent_push(d, x);
    assert forall|u: SP::Verifier| #[trigger] out_of(e, l, u) == out_of(d, m, u) by {
        assert(sent_by(e, u) == if x.from == u { sent_by(d, u).push(x) } else { sent_by(d, u) });
        assert(queue_of(l, u) == if u == x.from { queue_of(m, u).drop_first() } else { queue_of(m, u) });
        assert(out_of(e, l, u) =~= out_of(d, m, u));
    }
    assert forall|u: SP::Verifier| #[trigger] out_of(e, n, u) == if u == v { out_of(d, m, u) + msgs } else { out_of(d, m, u) } by {
        assert(out_of(e, l, u) == out_of(d, m, u));
        assert(queue_of(n, u) == if u == x.to { queue_of(l, u) + msgs } else { queue_of(l, u) });
        assert(out_of(e, n, u) =~= if u == v { out_of(e, l, u) + msgs } else { out_of(e, l, u) });
    }
    let (rs, ss) = (runs.insert(v, p), states.remove(v).insert(v, state));
    assert(ss.dom() =~= rs.dom());
    assert forall|u: SP::Verifier| #[trigger] rs.contains_key(u) implies party_ok(rs[u], id, u, ss[u], out_of(e, n, u), ins_of(e, u)) by {
        if u != v { assert(runs.contains_key(u)); assert(out_of(e, n, u) == out_of(d, m, u)); assert(ins_of(e, u) == ins_of(d, u)); }
        else { assert(out_of(e, n, v) == out_of(d, m, v) + msgs); assert(ins_of(e, v) == ins_of(d, v).push(MessageIn { from: x.from, message: x.message })); }
    }
    assert forall|u: SP::Verifier| !rs.contains_key(u) implies #[trigger] out_of(e, n, u) == Seq::<RoundMessage<SP>>::empty() by { assert(!runs.contains_key(u)); assert(out_of(e, n, u) == out_of(d, m, u)); }
}
=== raw steps of a run of several parties @props P20
pub proof fn lemma_sync_none<P: Protocol<SP::Verifier>, SP: SessionParameters>(id: SessionId, states: Map<SP::Verifier, State<P, SP>>, m: Messages<SP>)
    requires queues_ok(m), m is Ordered, forall|v: SP::Verifier| #[trigger] queue_of(m, v) == Seq::<RoundMessage<SP>>::empty(), states == Map::<SP::Verifier, State<P, SP>>::empty()
    ensures sync_state(id, Map::<SP::Verifier, PartyRun<P, SP>>::empty(), states, m, Seq::empty())
{
    reveal(sync_state);
    let d = Seq::<RoundMessage<SP>>::empty();
    assert(states.dom() =~= Map::<SP::Verifier, PartyRun<P, SP>>::empty().dom());
    assert forall|v: SP::Verifier| #[trigger] out_of(d, m, v) == Seq::<RoundMessage<SP>>::empty() by { assert(queue_of(m, v) == Seq::<RoundMessage<SP>>::empty()); assert(out_of(d, m, v) =~= Seq::<RoundMessage<SP>>::empty()); }
}
pub proof fn lemma_sync_at<P: Protocol<SP::Verifier>, SP: SessionParameters>(id: SessionId, runs: Map<SP::Verifier, PartyRun<P, SP>>, states: Map<SP::Verifier, State<P, SP>>, m: Messages<SP>, d: Seq<RoundMessage<SP>>, v: SP::Verifier)
    requires sync_state(id, runs, states, m, d)
    ensures runs.contains_key(v) <==> states.contains_key(v), runs.contains_key(v) ==> party_ok(runs[v], id, v, states[v], out_of(d, m, v), ins_of(d, v))
{ reveal(sync_state); assert(runs.dom().contains(v) == states.dom().contains(v)); }
pub proof fn lemma_party_on_way<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, id: SessionId, v: SP::Verifier, state: State<P, SP>, out: Seq<RoundMessage<SP>>, ins: Seq<MessageIn<SP>>)
    requires party_ok(p, id, v, state, out, ins)
    ensures p.s0.session_id == id && p.s0.signer.vk() == v && p.sent == msgs_out(id, out),
        match state {
            State::InProgress { session, accum } => within(p, *session, accum) && round_begun(p.r) && same_party(p.s0, *session) && readiness(accum, session.transcript) is NotYet && p.received == ins && session_inv(*session),
            State::Finished(report) => forall|x: MessageIn<SP>| #[trigger] party_ok(p, id, v, state, out, ins.push(x)),
        }
{
    reveal(party_ok); reveal(within_round);
    if state is Finished { assert forall|x: MessageIn<SP>| #[trigger] party_ok(p, id, v, state, out, ins.push(x)) by { assert(p.received.is_prefix_of(ins.push(x))); } }
}
pub proof fn lemma_within<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, s: Session<P, SP>, a: RoundAccumulator<P, SP>)
    requires within(p, s, a)
    ensures session_inv(s), echoes_so_far(s, a), p.r.session == s
{ reveal(within_round); }
pub proof fn lemma_party_report<P: Protocol<SP::Verifier>, SP: SessionParameters>(p: PartyRun<P, SP>, id: SessionId, v: SP::Verifier, state: State<P, SP>, out: Seq<RoundMessage<SP>>, ins: Seq<MessageIn<SP>>)
    requires party_ok(p, id, v, state, out, ins), echoes_come::<P, SP>()
    ensures match state {
        State::InProgress { session, accum } => forall|x: SessionReport<P, SP>| #[trigger] terminated(*session, accum, SessionOutcome::Terminated, Ok(x)) ==> party_done(p, id, v, out, ins, x),
        State::Finished(report) => party_done(p, id, v, out, ins, report),
    }
{
    reveal(party_ok); reveal(party_done);
    match state {
        State::InProgress { session, accum } => { lemma_round_ends(p.done, p.s0, Seq::empty(), Seq::empty(), p.sent, p.received, *session, accum, p.r, true); }
        State::Finished(_) => {}
    }
}
pub proof fn lemma_sync_done<EP: EntryPoint<SP::Verifier>, SP: SessionParameters>(e: Seq<(SP::Signer, EP)>, id: SessionId, runs: Map<SP::Verifier, PartyRun<EP::Protocol, SP>>, states: Map<SP::Verifier, State<EP::Protocol, SP>>, m: Messages<SP>, d: Seq<RoundMessage<SP>>, reports: Map<SP::Verifier, SessionReport<EP::Protocol, SP>>)
    requires sync_started(id, e, runs), sync_state(id, runs, states, m, d), forall|v: SP::Verifier| #[trigger] queue_of(m, v).len() == 0,
        reports.dom() == states.dom(), forall|v: SP::Verifier| #[trigger] reports.contains_key(v) ==> party_done(runs[v], id, v, sent_by(d, v), ins_of(d, v), reports[v])
    ensures sync_ran(e, reports)
{
    reveal(sync_state); reveal(sync_ran);
    assert forall|v: SP::Verifier| #[trigger] sent_by(d, v).len() > 0 implies reports.contains_key(v) by {
        if !runs.contains_key(v) { assert(out_of(d, m, v).len() == 0); }
        assert(runs.dom().contains(v));
    }
    assert(sync_run(e, id, runs, d, reports));
}
=== fn run_sync
@props P20
@attr #[verifier::exec_allows_no_decreases_clause]
@panics !__runs.contains_key(message.to)
requires distinct_parties::<EP, SP>(entry_points@), echoes_come::<EP::Protocol, SP>(),
ensures ret matches Ok(x) ==> sync_ran(entry_points@, x.reports@),
=== fn run_sync | proof start
let ghost __e = entry_points@;
let ghost mut __runs = Map::<SP::Verifier, PartyRun<EP::Protocol, SP>>::empty();
let ghost mut __d = Seq::<RoundMessage<SP>>::empty();
=== fn run_sync | loop 0
echoes_come::<EP::Protocol, SP>(), distinct_parties::<EP, SP>(__e),
__seq0 == __e, queues_ok(messages), messages is Ordered, sync_state(session_id, __runs, states@, messages, __d), __d.len() == 0,
started_some(session_id, __e, __it0.pos(), __runs),
=== fn run_sync | proof after new 1
proof { lemma_sync_none::<EP::Protocol, SP>(session_id, states@, messages); lemma_started_none::<EP, SP>(session_id, __e); }
=== fn run_sync | proof after make_accumulator 0
let ghost __k = session.signer.vk();
let ghost __m0 = messages;
let ghost mut __new = Seq::<RoundMessage<SP>>::empty();
let ghost mut __p = PartyRun { s0: session, done: Seq::empty(), r: run_start(session, Seq::empty(), accum), sent: Seq::empty(), received: Seq::empty() };
proof {
    let (x, y) = (Seq::<MessageOut<SP>>::empty(), Seq::<MessageIn<SP>>::empty());
    lemma_begin(session, x, y); lemma_round_start(Seq::empty(), session, x, y, x, y, session, Seq::empty(), accum);
    assert(msgs_out(session_id, __new) =~= x);
    assert(__p.r.sent.map_values(|m: MessageOut<SP>| m.to) =~= Seq::<SP::Verifier>::empty());
    assert(__d =~= Seq::empty());
    assert(__k == __e[__it0.pos() - 1].0.vk());
    assert forall|u: SP::Verifier| #[trigger] queue_of(messages, u) == if u == __k { queue_of(__m0, u) + __new } else { queue_of(__m0, u) } by { assert(queue_of(__m0, u) + __new =~= queue_of(__m0, u)); }
}
=== fn run_sync | loop 1
echoes_come::<EP::Protocol, SP>(), distinct_parties::<EP, SP>(__e), session_inv(session), __k == session.signer.vk(), session.session_id == session_id,
set_ref_items(session.communication_info.message_destinations@, __seq1),
within(__p, session, accum), __p.r.session == session, __p.r.kept_results.len() == __p.r.kept.len(), __p.s0 == session, __p.received.len() == 0,
__p.r.sent.map_values(|m: MessageOut<SP>| m.to) == __seq1.take(__it1.pos()).map_values(|v: &SP::Verifier| *v),
__p.sent == msgs_out(session_id, __new), queues_ok(messages), messages is Ordered,
forall|u: SP::Verifier| #[trigger] queue_of(messages, u) == if u == __k { queue_of(__m0, u) + __new } else { queue_of(__m0, u) },
=== fn run_sync | proof before make_message 0
let ghost __mb = messages;
=== fn run_sync | proof before add_artifact 0
let ghost (__art, __ab) = (artifact, accum);
=== fn run_sync | proof after add_artifact 0
proof {
    let m = queue_of(messages, __k).last();
    let o = msg_out(session_id, m);
    assert(queue_of(messages, __k) == queue_of(__mb, __k).push(m));
    assert(sent_right(session, o, __art));
    lemma_round_sent(__p.done, __p.s0, Seq::empty(), Seq::empty(), __p.sent, __p.received, session, __ab, __p.r, o, __art, accum);
    lemma_sent_to(__p.r, o, __art, accum, __seq1, __it1.pos() - 1);
    assert(msgs_out(session_id, __new.push(m)) =~= __p.sent.push(o));
    assert forall|u: SP::Verifier| #[trigger] queue_of(messages, u) == if u == __k { queue_of(__m0, u) + __new.push(m) } else { queue_of(__m0, u) } by {
        assert(queue_of(__mb, u) == if u == __k { queue_of(__m0, u) + __new } else { queue_of(__m0, u) });
        if u == __k { assert(queue_of(messages, u) =~= queue_of(__m0, u) + __new.push(m)); }
    }
    __p = PartyRun { r: run_sent(__p.r, o, __art, accum), sent: __p.sent.push(o), ..__p };
    __new = __new.push(m);
}
=== fn run_sync | proof loop 1 after
proof { lemma_all_items(session.communication_info.message_destinations@, __seq1, __p.r.sent.map_values(|m: MessageOut<SP>| m.to)); }
=== fn run_sync | proof before propagate 0
let ghost (__s1, __a1) = (session, accum);
let ghost __m1 = messages;
proof { lemma_within(__p, session, accum); }
=== fn run_sync | proof before insert 0
proof {
    let q = choose|q: Seq<RoundRun<EP::Protocol, SP>>| #[trigger] propagated(__s1, __a1, q, state, new_messages@);
    lemma_party_ok(__p, __s1, __a1, q, state, new_messages@, session_id, __k, __new);
    assert(__p.received =~= Seq::empty());
    lemma_sent_by_one(new_messages@, __k);
    let all = __new + new_messages@;
    assert forall|u: SP::Verifier| #[trigger] queue_of(messages, u) == if u == __k { queue_of(__m0, u) + all } else { queue_of(__m0, u) } by {
        assert(queue_of(messages, u) == queue_of(__m1, u) + sent_by(new_messages@, u));
        assert(queue_of(__m1, u) == if u == __k { queue_of(__m0, u) + __new } else { queue_of(__m0, u) });
        assert(queue_of(messages, u) =~= if u == __k { queue_of(__m0, u) + all } else { queue_of(__m0, u) });
    }
    lemma_started_new(session_id, __e, __it0.pos() - 1, __runs);
    lemma_sync_party(session_id, __runs, states@, __m0, __k, party_on(__p, q), state, all, messages);
    lemma_started_more(session_id, __e, __it0.pos() - 1, __runs, party_on(__p, q));
    __runs = __runs.insert(__k, party_on(__p, q));
}
=== fn run_sync | proof loop 0 after
proof { lemma_started_all(session_id, __e, __runs); }
=== fn run_sync | loop 2
invariant echoes_come::<EP::Protocol, SP>(), distinct_parties::<EP, SP>(__e),
sync_state(session_id, __runs, states@, messages, __d), sync_started(session_id, __e, __runs), queues_ok(messages), messages is Ordered,
=== fn run_sync | proof loop 2 start
let ghost __m0 = messages;
let ghost __st0 = states@;
=== fn run_sync | proof after pop 0
let ghost __x = message;
let ghost __m1 = messages;
let ghost __o0 = out_of(__d, __m0, __x.to);
let ghost __i0 = ins_of(__d, __x.to);
let ghost __in = MessageIn::<SP> { from: __x.from, message: __x.message };
let ghost mut __p = __runs[__x.to];
proof { lemma_sync_at(session_id, __runs, states@, __m0, __d, __x.to); if __runs.contains_key(__x.to) { lemma_party_on_way(__p, session_id, __x.to, __st0[__x.to], __o0, __i0); } }
let ghost mut __new = Seq::<RoundMessage<SP>>::empty();
=== fn run_sync | proof before preprocess_message 0
let ghost (__s, __a, __p0) = (*session, accum, __p);
let ghost mut __handled = false;
=== fn run_sync | proof after preprocess_message 0
let ghost __out = preprocessed;
=== fn run_sync | proof before process_message 0
let ghost (__b, __v) = (accum, verified);
=== fn run_sync | proof before add_processed_message 0
let ghost __pm = processed;
=== fn run_sync | proof after add_processed_message 0
proof {
    lemma_round_handled(__p.done, __p.s0, Seq::empty(), Seq::empty(), __p.sent, __p.received, __s, __a, __p.r, __in, __v, __b, __pm, accum);
    __p = PartyRun { r: run_handled(__p.r, __in, PreprocessOutcome::ToProcess(Box::new(__v)), __b, __pm, accum), received: __p.received.push(__in), ..__p };
    __handled = true;
}
=== fn run_sync | proof before propagate 1
proof {
    if !__handled {
        assert(self::preprocessed(__s, __a, __in.from, __in.message, accum, Ok(__out)));
        __p = lemma_party_received(__p, __s, __a, __in, accum);
    }
    lemma_within(__p, __s, accum);
}
let ghost __a1 = accum;
=== fn run_sync | proof after propagate 1
proof {
    let q = choose|q: Seq<RoundRun<EP::Protocol, SP>>| #[trigger] propagated(__s, __a1, q, new_state, new_messages@);
    lemma_party_ok(__p, __s, __a1, q, new_state, new_messages@, session_id, __x.to, __o0);
    lemma_sent_by_one(new_messages@, __x.to);
    __p = party_on(__p, q);
    __new = new_messages@;
}
=== fn run_sync | proof before insert 1
proof {
    if __st0[__x.to] is Finished {
        assert(party_ok(__p, session_id, __x.to, __st0[__x.to], __o0, __i0.push(__in)));
        assert(__o0 + __new =~= __o0);
    }
    assert forall|u: SP::Verifier| #[trigger] queue_of(messages, u) == if u == __x.to { queue_of(__m1, u) + __new } else { queue_of(__m1, u) } by {
        assert(queue_of(messages, u) =~= if u == __x.to { queue_of(__m1, u) + __new } else { queue_of(__m1, u) });
    }
    lemma_sync_delivered(session_id, __runs, __st0, __m0, __d, __x, __m1, __p, new_state, __new, messages);
    lemma_started_kept(session_id, __e, __runs, __x.to, __p);
    __runs = __runs.insert(__x.to, __p);
    __d = __d.push(__x);
}
=== fn run_sync | loop 3
echoes_come::<EP::Protocol, SP>(), distinct_parties::<EP, SP>(__e),
map_items(states@, __seq3), sync_state(session_id, __runs, states@, messages, __d), forall|v: SP::Verifier| #[trigger] queue_of(messages, v).len() == 0,
forall|v: SP::Verifier| #[trigger] reports@.contains_key(v) ==> exists|i: int| 0 <= i < __it3.pos() && (#[trigger] __seq3[i]).0 == v,
forall|i: int| 0 <= i < __it3.pos() ==> reports@.contains_key((#[trigger] __seq3[i]).0) && ({ let v = __seq3[i].0; party_done(__runs[v], session_id, v, sent_by(__d, v), ins_of(__d, v), reports@[v]) }),
=== fn run_sync | proof loop 3 start
let ghost (__k, __st) = (verifier, state);
proof {
    lemma_sync_at(session_id, __runs, states@, messages, __d, __k);
    assert(out_of(__d, messages, __k) =~= sent_by(__d, __k)) by { assert(queue_of(messages, __k).len() == 0); }
    lemma_party_report(__runs[__k], session_id, __k, __st, sent_by(__d, __k), ins_of(__d, __k));
}
=== fn run_sync | proof loop 3 after
proof {
    assert forall|v: SP::Verifier| #[trigger] reports@.contains_key(v) implies states@.contains_key(v) && party_done(__runs[v], session_id, v, sent_by(__d, v), ins_of(__d, v), reports@[v]) by {
        let i = choose|i: int| 0 <= i < __seq3.len() && (#[trigger] __seq3[i]).0 == v; assert(reports@.contains_key(__seq3[i].0));
    }
    assert(reports@.dom() =~= states@.dom()) by {
        assert forall|v: SP::Verifier| states@.contains_key(v) implies reports@.contains_key(v) by { let i = choose|i: int| 0 <= i < __seq3.len() && (#[trigger] __seq3[i]).0 == v; assert(reports@.contains_key(__seq3[i].0)); }
    }
    lemma_sync_done(__e, session_id, __runs, states@, messages, __d, reports@);
}
=== fn run_sync | proof tail
proof {
    assert(sync_ran(__e, reports@));
}
