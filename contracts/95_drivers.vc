=== file manul/src/session/tokio.rs
=== skip -
LoopOutcome
par_run_session
=== raw channels @props P20
/// One task's end of a channel for sending, with what this task has sent.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { p: PhantomData<T> }
pub struct SendError;
impl<T> Sender<T> {
    pub uninterp spec fn sent(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn send(&mut self, value: T) -> (ret: Result<(), SendError>)
        ensures final(self).sent() == if ret is Ok { old(self).sent().push(value) } else { old(self).sent() } { unimplemented!() }
}
/// The other end, with what was received so far.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { p: PhantomData<T> }
impl<T> Receiver<T> {
    pub uninterp spec fn received(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn recv(&mut self) -> (ret: Option<T>)
        ensures final(self).received() == match ret { Some(x) => old(self).received().push(x), None => old(self).received() } { unimplemented!() }
}
#[verifier::external_body]
pub struct CancellationToken { p: u8 }
impl CancellationToken {
    /// It is cancelled at some time.
    pub uninterp spec fn is_cancelled(&self) -> bool;
    #[verifier::external_body]
    pub fn cancelled(&self) ensures self.is_cancelled() { unimplemented!() }
}
/// Which of the branches of a `select!` goes first.
#[verifier::external_body]
pub fn vchoose(k: u64, n: u64) -> bool { unimplemented!() }
=== raw driver runs @props P20
/// What the messages of a round consist of and how they came about.
pub enum Event { Artifact(int), Kept(int), Received(int), Handled(int) }
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(SP)]
pub ghost struct RoundRun<P: Protocol<SP::Verifier>, SP: SessionParameters> {
    pub session: Session<P, SP>,
    /// the messages kept for this round
    pub kept: Seq<VerifiedMessage<SP::Verifier>>,
    pub kept_results: Seq<ProcessedMessage<SP>>,
    pub sent: Seq<MessageOut<SP>>,
    pub artifacts: Seq<ProcessedArtifact<SP>>,
    pub received: Seq<MessageIn<SP>>,
    pub outcomes: Seq<PreprocessOutcome<SP::Verifier>>,
    pub results: Seq<Option<ProcessedMessage<SP>>>,
    /// the states of the accumulator, and what led from each to the next one
    pub states: Seq<RoundAccumulator<P, SP>>,
    pub log: Seq<Event>,
}
pub open spec fn artifact_added<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, p: ProcessedArtifact<SP>, b: RoundAccumulator<P, SP>) -> bool {
    !a.artifacts@.contains_key(p.destination) && b == (RoundAccumulator { artifacts: b.artifacts, ..a }) && b.artifacts@ == a.artifacts@.insert(p.destination, p.artifact)
}
pub open spec fn event_of<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, e: Event) -> bool {
    match e {
        Event::Artifact(i) => 0 <= i < r.artifacts.len(),
        Event::Kept(i) => 0 <= i < r.kept_results.len(),
        Event::Received(i) => 0 <= i < r.received.len(),
        Event::Handled(i) => 0 <= i < r.received.len() && r.results[i] is Some,
    }
}
pub open spec fn event_step<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, a: RoundAccumulator<P, SP>, e: Event, b: RoundAccumulator<P, SP>) -> bool {
    let s = r.session;
    event_of(r, e) && match e {
        Event::Artifact(i) => artifact_added(a, r.artifacts[i], b),
        Event::Kept(i) => recorded_result(a, s.format, s.transcript, r.kept_results[i], b, Ok(())),
        // a message is only waited for if the round is not ready and can become so
        Event::Received(i) => readiness(a, s.transcript) is NotYet
            && preprocessed(s, a, r.received[i].from, r.received[i].message, b, Ok(r.outcomes[i])),
        Event::Handled(i) => recorded_result(a, s.format, s.transcript, r.results[i]->0, b, Ok(())),
    }
}
/// The message is the one that the session makes for that destination.
pub open spec fn sent_right<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, m: MessageOut<SP>, a: ProcessedArtifact<SP>) -> bool {
    m.session_id == s.session_id && m.from == s.verifier && made_message(s, m.to, m.message, a)
}
/// A part of a run of a round.
#[verifier::opaque]
pub open spec fn run_part<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>) -> bool {
    &&& r.sent.len() == r.artifacts.len() && forall|i: int| 0 <= i < r.sent.len() ==> sent_right(r.session, #[trigger] r.sent[i], r.artifacts[i])
    &&& r.kept_results.len() <= r.kept.len() && forall|i: int| 0 <= i < r.kept_results.len() ==> processed_as(r.session, r.kept[i], #[trigger] r.kept_results[i])
    &&& r.received.len() == r.outcomes.len() == r.results.len()
    &&& forall|i: int| 0 <= i < r.received.len() ==> match #[trigger] r.outcomes[i] {
            PreprocessOutcome::ToProcess(v) => r.results[i] matches Some(p) && processed_as(r.session, *v, p),
            _ => r.results[i] is None,
        }
    // everything was added exactly once
    &&& r.log.no_duplicates() && forall|e: Event| #[trigger] r.log.contains(e) <==> event_of(r, e)
    &&& r.states.len() == r.log.len() + 1 && fresh_accumulator(r.session, r.states[0])
    &&& forall|i: int| 0 <= i < r.log.len() ==> #[trigger] event_step(r, r.states[i], r.log[i], r.states[i + 1])
}
/// All the messages were sent, one to each of the destinations, and all the kept ones were used.
pub open spec fn run_complete<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>) -> bool {
    &&& run_part(r)
    &&& set_items(r.session.communication_info.message_destinations@, r.sent.map_values(|m: MessageOut<SP>| m.to))
    &&& r.kept_results.len() == r.kept.len()
}
pub open spec fn run_start<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, kept: Seq<VerifiedMessage<SP::Verifier>>, a: RoundAccumulator<P, SP>) -> RoundRun<P, SP> {
    RoundRun { session: s, kept, kept_results: Seq::empty(), sent: Seq::empty(), artifacts: Seq::empty(), received: Seq::empty(), outcomes: Seq::empty(),
        results: Seq::empty(), states: Seq::empty().push(a), log: Seq::empty() }
}
pub open spec fn run_sent<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageOut<SP>, p: ProcessedArtifact<SP>, b: RoundAccumulator<P, SP>) -> RoundRun<P, SP> {
    RoundRun { sent: r.sent.push(m), artifacts: r.artifacts.push(p), states: r.states.push(b), log: r.log.push(Event::Artifact(r.artifacts.len() as int)), ..r }
}
pub open spec fn run_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, p: ProcessedMessage<SP>, b: RoundAccumulator<P, SP>) -> RoundRun<P, SP> {
    RoundRun { kept_results: r.kept_results.push(p), states: r.states.push(b), log: r.log.push(Event::Kept(r.kept_results.len() as int)), ..r }
}
pub open spec fn run_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageIn<SP>, o: PreprocessOutcome<SP::Verifier>, b: RoundAccumulator<P, SP>) -> RoundRun<P, SP> {
    RoundRun { received: r.received.push(m), outcomes: r.outcomes.push(o), results: r.results.push(None), states: r.states.push(b), log: r.log.push(Event::Received(r.received.len() as int)), ..r }
}
pub open spec fn run_handled<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageIn<SP>, o: PreprocessOutcome<SP::Verifier>, b: RoundAccumulator<P, SP>, p: ProcessedMessage<SP>, c: RoundAccumulator<P, SP>) -> RoundRun<P, SP> {
    RoundRun { received: r.received.push(m), outcomes: r.outcomes.push(o), results: r.results.push(Some(p)), states: r.states.push(b).push(c),
        log: r.log.push(Event::Received(r.received.len() as int)).push(Event::Handled(r.received.len() as int)), ..r }
}
pub proof fn lemma_log_push<E>(q: Seq<E>, e: E)
    requires q.no_duplicates(), !q.contains(e)
    ensures q.push(e).no_duplicates(), forall|x: E| #[trigger] q.push(e).contains(x) <==> q.contains(x) || x == e
{
    let p = q.push(e);
    assert forall|x: E| #[trigger] p.contains(x) <==> q.contains(x) || x == e by {
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i] == x); }
        if x == e { assert(p[q.len() as int] == x); }
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < q.len() { assert(q[i] == x); } }
    }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
        if i < q.len() { assert(q.contains(q[i])); }
        if j < q.len() { assert(q.contains(q[j])); }
    }
}
/// The steps of a run remain so when it goes on.
pub open spec fn run_extends<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, n: RoundRun<P, SP>) -> bool {
    &&& n.session == r.session && n.kept == r.kept
    &&& n.artifacts.len() >= r.artifacts.len() && forall|i: int| 0 <= i < r.artifacts.len() ==> n.artifacts[i] == r.artifacts[i]
    &&& n.kept_results.len() >= r.kept_results.len() && forall|i: int| 0 <= i < r.kept_results.len() ==> n.kept_results[i] == r.kept_results[i]
    &&& n.received.len() >= r.received.len() && forall|i: int| 0 <= i < r.received.len() ==> n.received[i] == r.received[i] && n.outcomes[i] == r.outcomes[i] && n.results[i] == r.results[i]
}
pub proof fn lemma_steps_extend<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, n: RoundRun<P, SP>)
    requires run_extends(r, n)
    ensures forall|a: RoundAccumulator<P, SP>, e: Event, b: RoundAccumulator<P, SP>| #[trigger] event_step(r, a, e, b) ==> event_step(n, a, e, b)
{}
pub proof fn lemma_run_start<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, kept: Seq<VerifiedMessage<SP::Verifier>>, a: RoundAccumulator<P, SP>)
    requires fresh_accumulator(s, a)
    ensures run_part(run_start(s, kept, a))
{ reveal(run_part);}
pub proof fn lemma_run_sent<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageOut<SP>, p: ProcessedArtifact<SP>, b: RoundAccumulator<P, SP>)
    requires run_part(r), sent_right(r.session, m, p), artifact_added(r.states.last(), p, b)
    ensures run_part(run_sent(r, m, p, b))
{ reveal(run_part);
    let n = run_sent(r, m, p, b);
    lemma_log_push(r.log, Event::Artifact(r.artifacts.len() as int));
    lemma_steps_extend(r, n);
    assert forall|i: int| 0 <= i < n.log.len() implies #[trigger] event_step(n, n.states[i], n.log[i], n.states[i + 1]) by {
        if i < r.log.len() { assert(event_step(r, r.states[i], r.log[i], r.states[i + 1])); }
    }
    assert forall|i: int| 0 <= i < n.sent.len() implies sent_right(n.session, #[trigger] n.sent[i], n.artifacts[i]) by {
        if i < r.sent.len() { assert(sent_right(r.session, r.sent[i], r.artifacts[i])); }
    }
}
pub proof fn lemma_run_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, p: ProcessedMessage<SP>, b: RoundAccumulator<P, SP>)
    requires run_part(r), r.kept_results.len() < r.kept.len(), processed_as(r.session, r.kept[r.kept_results.len() as int], p),
        recorded_result(r.states.last(), r.session.format, r.session.transcript, p, b, Ok(()))
    ensures run_part(run_kept(r, p, b))
{ reveal(run_part);
    let n = run_kept(r, p, b);
    lemma_log_push(r.log, Event::Kept(r.kept_results.len() as int));
    lemma_steps_extend(r, n);
    assert forall|i: int| 0 <= i < n.log.len() implies #[trigger] event_step(n, n.states[i], n.log[i], n.states[i + 1]) by {
        if i < r.log.len() { assert(event_step(r, r.states[i], r.log[i], r.states[i + 1])); }
    }
    assert forall|i: int| 0 <= i < n.kept_results.len() implies processed_as(n.session, n.kept[i], #[trigger] n.kept_results[i]) by {
        if i < r.kept_results.len() { assert(processed_as(r.session, r.kept[i], r.kept_results[i])); }
    }
}
pub proof fn lemma_run_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageIn<SP>, o: PreprocessOutcome<SP::Verifier>, b: RoundAccumulator<P, SP>)
    requires run_part(r), !(o is ToProcess), readiness(r.states.last(), r.session.transcript) is NotYet, preprocessed(r.session, r.states.last(), m.from, m.message, b, Ok(o))
    ensures run_part(run_received(r, m, o, b))
{ reveal(run_part);
    let n = run_received(r, m, o, b);
    lemma_log_push(r.log, Event::Received(r.received.len() as int));
    lemma_steps_extend(r, n);
    assert forall|i: int| 0 <= i < n.log.len() implies #[trigger] event_step(n, n.states[i], n.log[i], n.states[i + 1]) by {
        if i < r.log.len() { assert(event_step(r, r.states[i], r.log[i], r.states[i + 1])); }
    }
    assert forall|i: int| 0 <= i < n.received.len() implies match #[trigger] n.outcomes[i] {
            PreprocessOutcome::ToProcess(v) => n.results[i] matches Some(p) && processed_as(n.session, *v, p),
            _ => n.results[i] is None,
        } by { if i < r.received.len() { assert(r.outcomes[i] == n.outcomes[i]); } }
}
pub proof fn lemma_run_handled<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageIn<SP>, o: PreprocessOutcome<SP::Verifier>, b: RoundAccumulator<P, SP>, p: ProcessedMessage<SP>, c: RoundAccumulator<P, SP>)
    requires run_part(r), o matches PreprocessOutcome::ToProcess(v) && processed_as(r.session, *v, p), readiness(r.states.last(), r.session.transcript) is NotYet,
        preprocessed(r.session, r.states.last(), m.from, m.message, b, Ok(o)), recorded_result(b, r.session.format, r.session.transcript, p, c, Ok(()))
    ensures run_part(run_handled(r, m, o, b, p, c))
{ reveal(run_part);
    let n = run_handled(r, m, o, b, p, c);
    let e = Event::Received(r.received.len() as int);
    lemma_log_push(r.log, e);
    lemma_log_push(r.log.push(e), Event::Handled(r.received.len() as int));
    lemma_steps_extend(r, n);
    assert forall|i: int| 0 <= i < n.log.len() implies #[trigger] event_step(n, n.states[i], n.log[i], n.states[i + 1]) by {
        if i < r.log.len() { assert(event_step(r, r.states[i], r.log[i], r.states[i + 1])); }
    }
    assert forall|i: int| 0 <= i < n.received.len() implies match #[trigger] n.outcomes[i] {
            PreprocessOutcome::ToProcess(v) => n.results[i] matches Some(p) && processed_as(n.session, *v, p),
            _ => n.results[i] is None,
        } by { if i < r.received.len() { assert(r.outcomes[i] == n.outcomes[i]); } }
}
/// The round of `n` follows the one of `r`.
#[verifier::opaque]
pub open spec fn run_next<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, n: RoundRun<P, SP>) -> bool {
    readiness(r.states.last(), r.session.transcript) is Yes && moved_to(r.session, r.states.last(), n.session, n.kept)
}
/// The report is what the last round gives.
pub open spec fn run_ends<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, cancelled: bool, report: SessionReport<P, SP>) -> bool {
    let (s, a) = (r.session, r.states.last());
    ||| readiness(a, s.transcript) is Yes && moved_on(s, a, RoundOutcome::Finished(report))
    ||| readiness(a, s.transcript) is Never && terminated(s, a, SessionOutcome::NotEnoughMessages, Ok(report))
    ||| readiness(a, s.transcript) is NotYet && cancelled && terminated(s, a, SessionOutcome::Terminated, Ok(report))
}
pub open spec fn all_sent<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>) -> Seq<MessageOut<SP>>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { all_sent(q.drop_last()) + q.last().sent }
}
pub open spec fn all_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>) -> Seq<MessageIn<SP>>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { all_received(q.drop_last()) + q.last().received }
}
/// Complete rounds, each following the one before.
#[verifier::opaque]
pub open spec fn rounds_run<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>, s: Session<P, SP>) -> bool {
    &&& q.len() > 0 ==> q[0].session == s && q[0].kept.len() == 0
    &&& forall|i: int| 0 <= i < q.len() ==> run_complete(#[trigger] q[i])
    &&& forall|i: int| 0 < i < q.len() ==> run_next(q[i - 1], #[trigger] q[i])
}
#[verifier::opaque]
pub open spec fn session_run<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>, s: Session<P, SP>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, cancelled: bool, report: SessionReport<P, SP>) -> bool {
    q.len() > 0 && rounds_run(q, s) && run_ends(q.last(), cancelled, report) && sent == all_sent(q) && received == all_received(q)
}
/// Assumed of the rounds of the protocol: messages are only accepted with the echo broadcasts that the echo round needs,
/// and it does not use the identifiers of echo rounds.
#[verifier::opaque]
pub open spec fn echoes_come<P: Protocol<SP::Verifier>, SP: SessionParameters>() -> bool {
    &&& forall|s: Session<P, SP>| #[trigger] session_inv(s) && s.echo_round_info is Some ==> !s.transition_info.id.is_echo
    &&& forall|s: Session<P, SP>, from: SP::Verifier, m: DynProtocolMessage, p: Payload| session_inv(s) && #[trigger] boxed(s.round).receives(s.format, from, m, Ok(p))
        ==> (s.echo_round_info matches Some(e) ==> e.expected_echos@.contains(from) ==> m.echo_broadcast.0 is Some)
}
/// The echo broadcasts of those whose message was accepted are there.
#[verifier::opaque]
pub open spec fn echoes_so_far<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>) -> bool {
    &&& a.expecting_messages_from == s.communication_info.expecting_messages_from
    &&& s.echo_round_info matches Some(e) ==> forall|v: SP::Verifier| a.payloads@.contains_key(v) && e.expected_echos@.contains(v) ==> #[trigger] a.echo_broadcasts@.contains_key(v)
}
pub proof fn lemma_echoes_so_far<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, m: VerifiedMessage<SP::Verifier>, p: ProcessedMessage<SP>, b: RoundAccumulator<P, SP>)
    requires session_inv(s), echoes_come::<P, SP>(), echoes_so_far(s, a), processed_as(s, m, p), recorded_result(a, s.format, s.transcript, p, b, Ok(()))
    ensures echoes_so_far(s, b)
{ reveal(echoes_come); reveal(echoes_so_far);
}
pub proof fn lemma_echoes_there<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>)
    requires session_inv(s), echoes_come::<P, SP>(), echoes_so_far(s, a), readiness(a, s.transcript) is Yes
    ensures echoes_there(s, a)
{ reveal(echoes_come); reveal(echoes_so_far);
    assert(echo_info_right(s));
}
/// The round starts out with nothing missing from it.
pub proof fn lemma_fresh<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>)
    requires fresh_accumulator(s, a)
    ensures echoes_so_far(s, a)
{ reveal(echoes_so_far); }
pub proof fn lemma_echoes_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, b: RoundAccumulator<P, SP>)
    requires echoes_so_far(s, a), b.payloads == a.payloads, b.echo_broadcasts == a.echo_broadcasts, b.expecting_messages_from == a.expecting_messages_from
    ensures echoes_so_far(s, b)
{ reveal(echoes_so_far); }
pub proof fn lemma_preprocessed_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, from: SP::Verifier, m: Message<SP::Verifier>, b: RoundAccumulator<P, SP>, o: PreprocessOutcome<SP::Verifier>)
    requires echoes_so_far(s, a), preprocessed(s, a, from, m, b, Ok(o))
    ensures echoes_so_far(s, b)
{ reveal(echoes_so_far); }
pub proof fn lemma_all_items<V>(s: Set<V>, q: Seq<&V>, p: Seq<V>)
    requires set_ref_items(s, q), p == q.take(q.len() as int).map_values(|v: &V| *v)
    ensures set_items(s, p)
{
    assert(q.take(q.len() as int) =~= q);
    assert forall|x: V| s.contains(x) implies exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == x by {
        let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == x;
        assert(p[i] == x);
    }
    assert forall|i: int| 0 <= i < p.len() implies s.contains(#[trigger] p[i]) by { assert(s.contains(*q[i])); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(*q[i] != *q[j]); }
}
pub proof fn lemma_rounds_push<P: Protocol<SP::Verifier>, SP: SessionParameters>(q: Seq<RoundRun<P, SP>>, r: RoundRun<P, SP>, s: Session<P, SP>)
    requires rounds_run(q, s), run_complete(r), q.len() == 0 ==> r.session == s && r.kept.len() == 0, q.len() > 0 ==> run_next(q.last(), r)
    ensures rounds_run(q.push(r), s), all_sent(q.push(r)) == all_sent(q) + r.sent, all_received(q.push(r)) == all_received(q) + r.received
{ reveal(rounds_run);
    let n = q.push(r);
    assert(n.drop_last() =~= q);
    assert forall|i: int| 0 <= i < n.len() implies run_complete(#[trigger] n[i]) by { if i < q.len() { assert(run_complete(q[i])); } }
    assert forall|i: int| 0 < i < n.len() implies run_next(n[i - 1], #[trigger] n[i]) by { if i < q.len() { assert(run_next(q[i - 1], q[i])); } }
}
/// Where the driver is between two rounds.
#[verifier::opaque]
pub open spec fn at_round<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, kept: Seq<VerifiedMessage<SP::Verifier>>) -> bool {
    &&& rounds_run(done, s0)
    &&& done.len() == 0 ==> s == s0 && kept.len() == 0
    &&& done.len() > 0 ==> forall|x: RoundRun<P, SP>| x.session == s && x.kept == kept ==> #[trigger] run_next(done.last(), x)
    &&& sent == tx0 + all_sent(done) && received == rx0 + all_received(done)
    &&& session_inv(s)
}
/// Where the driver is in a round.
#[verifier::opaque]
pub open spec fn within_round<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>) -> bool {
    &&& rounds_run(done, s0)
    &&& done.len() == 0 ==> r.session == s0 && r.kept.len() == 0
    &&& done.len() > 0 ==> forall|x: RoundRun<P, SP>| x.session == r.session && x.kept == r.kept ==> #[trigger] run_next(done.last(), x)
    &&& sent == tx0 + all_sent(done) + r.sent && received == rx0 + all_received(done) + r.received
    &&& run_part(r) && r.session == s && r.states.last() == a && session_inv(s) && echoes_so_far(s, a)
}
/// Everything there was to send and to use at first, was.
pub open spec fn round_begun<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>) -> bool {
    set_items(r.session.communication_info.message_destinations@, r.sent.map_values(|m: MessageOut<SP>| m.to)) && r.kept_results.len() == r.kept.len()
}
pub proof fn lemma_begin<P: Protocol<SP::Verifier>, SP: SessionParameters>(s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>)
    requires session_inv(s0)
    ensures forall|kept: Seq<VerifiedMessage<SP::Verifier>>| kept.len() == 0 ==> #[trigger] at_round(Seq::empty(), s0, tx0, rx0, tx0, rx0, s0, kept)
{ reveal(at_round); reveal(rounds_run); let done = Seq::<RoundRun<P, SP>>::empty();
   assert(tx0 + all_sent(done) =~= tx0); assert(rx0 + all_received(done) =~= rx0); }
pub proof fn lemma_round_start<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, kept: Seq<VerifiedMessage<SP::Verifier>>, a: RoundAccumulator<P, SP>)
    requires at_round(done, s0, tx0, rx0, sent, received, s, kept), fresh_accumulator(s, a)
    ensures within_round(done, s0, tx0, rx0, sent, received, s, a, run_start(s, kept, a)), session_inv(s)
{ reveal(at_round); reveal(within_round); lemma_run_start(s, kept, a); lemma_fresh(s, a);
   assert(sent + Seq::<MessageOut<SP>>::empty() =~= sent); assert(received + Seq::<MessageIn<SP>>::empty() =~= received); }
pub proof fn lemma_round_sent<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, m: MessageOut<SP>, p: ProcessedArtifact<SP>, b: RoundAccumulator<P, SP>)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), sent_right(s, m, p), artifact_added(a, p, b)
    ensures within_round(done, s0, tx0, rx0, sent.push(m), received, s, b, run_sent(r, m, p, b))
{ reveal(within_round); lemma_run_sent(r, m, p, b); lemma_echoes_kept(s, a, b);
   assert(sent.push(m) =~= tx0 + all_sent(done) + r.sent.push(m)); }
pub proof fn lemma_round_kept<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, p: ProcessedMessage<SP>, b: RoundAccumulator<P, SP>)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), echoes_come::<P, SP>(), r.kept_results.len() < r.kept.len(),
        processed_as(s, r.kept[r.kept_results.len() as int], p), recorded_result(a, s.format, s.transcript, p, b, Ok(()))
    ensures within_round(done, s0, tx0, rx0, sent, received, s, b, run_kept(r, p, b))
{ reveal(within_round); lemma_run_kept(r, p, b); lemma_echoes_so_far(s, a, p.message, p, b); }
pub proof fn lemma_round_received<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, m: MessageIn<SP>, o: PreprocessOutcome<SP::Verifier>, b: RoundAccumulator<P, SP>)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), !(o is ToProcess), readiness(a, s.transcript) is NotYet, preprocessed(s, a, m.from, m.message, b, Ok(o))
    ensures within_round(done, s0, tx0, rx0, sent, received.push(m), s, b, run_received(r, m, o, b))
{ reveal(within_round); lemma_run_received(r, m, o, b); lemma_preprocessed_kept(s, a, m.from, m.message, b, o);
   assert(received.push(m) =~= rx0 + all_received(done) + r.received.push(m)); }
pub proof fn lemma_round_handled<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, m: MessageIn<SP>, v: VerifiedMessage<SP::Verifier>, b: RoundAccumulator<P, SP>, p: ProcessedMessage<SP>, c: RoundAccumulator<P, SP>)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), echoes_come::<P, SP>(), processed_as(s, v, p), readiness(a, s.transcript) is NotYet,
        preprocessed(s, a, m.from, m.message, b, Ok(PreprocessOutcome::ToProcess(Box::new(v)))), recorded_result(b, s.format, s.transcript, p, c, Ok(()))
    ensures within_round(done, s0, tx0, rx0, sent, received.push(m), s, c, run_handled(r, m, PreprocessOutcome::ToProcess(Box::new(v)), b, p, c))
{ reveal(within_round); let o = PreprocessOutcome::ToProcess(Box::new(v)); lemma_preprocessed_kept(s, a, m.from, m.message, b, o); lemma_run_handled(r, m, o, b, p, c);
   lemma_echoes_so_far(s, b, p.message, p, c);
   assert(received.push(m) =~= rx0 + all_received(done) + r.received.push(m)); }
/// What the driver says about the whole run when it returns.
#[verifier::opaque]
pub open spec fn driven<P: Protocol<SP::Verifier>, SP: SessionParameters>(s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, cancelled: bool, report: SessionReport<P, SP>) -> bool {
    exists|q: Seq<RoundRun<P, SP>>, x: Seq<MessageOut<SP>>, y: Seq<MessageIn<SP>>|
        #[trigger] session_run(q, s0, x, y, cancelled, report) && sent == tx0 + x && received == rx0 + y
}
/// What ends the run after the last round.
pub proof fn lemma_round_ends<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, cancelled: bool)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), round_begun(r), echoes_come::<P, SP>()
    ensures
        readiness(a, s.transcript) is Never ==> forall|x: SessionReport<P, SP>| #[trigger] terminated(s, a, SessionOutcome::NotEnoughMessages, Ok(x)) ==> driven(s0, tx0, rx0, sent, received, cancelled, x),
        readiness(a, s.transcript) is NotYet && cancelled ==> forall|x: SessionReport<P, SP>| #[trigger] terminated(s, a, SessionOutcome::Terminated, Ok(x)) ==> driven(s0, tx0, rx0, sent, received, cancelled, x),
        readiness(a, s.transcript) is Yes ==> forall|x: SessionReport<P, SP>| #[trigger] moved_on(s, a, RoundOutcome::Finished(x)) ==> driven(s0, tx0, rx0, sent, received, cancelled, x),
        readiness(a, s.transcript) is Yes ==> echoes_there(s, a),
{
    reveal(within_round); reveal(session_run); reveal(driven);
    lemma_rounds_push(done, r, s0);
    let q = done.push(r);
    assert(sent =~= tx0 + all_sent(q)); assert(received =~= rx0 + all_received(q));
    if readiness(a, s.transcript) is Yes { lemma_echoes_there(s, a); }
    assert forall|x: SessionReport<P, SP>| #[trigger] run_ends(r, cancelled, x) implies driven(s0, tx0, rx0, sent, received, cancelled, x) by {
        assert(session_run(q, s0, all_sent(q), all_received(q), cancelled, x));
    }
    assert forall|x: SessionReport<P, SP>| readiness(a, s.transcript) is Never && #[trigger] terminated(s, a, SessionOutcome::NotEnoughMessages, Ok(x)) implies driven(s0, tx0, rx0, sent, received, cancelled, x) by { assert(run_ends(r, cancelled, x)); }
    assert forall|x: SessionReport<P, SP>| readiness(a, s.transcript) is NotYet && cancelled && #[trigger] terminated(s, a, SessionOutcome::Terminated, Ok(x)) implies driven(s0, tx0, rx0, sent, received, cancelled, x) by { assert(run_ends(r, cancelled, x)); }
    assert forall|x: SessionReport<P, SP>| readiness(a, s.transcript) is Yes && #[trigger] moved_on(s, a, RoundOutcome::Finished(x)) implies driven(s0, tx0, rx0, sent, received, cancelled, x) by { assert(run_ends(r, cancelled, x)); }
}
pub proof fn lemma_round_moved<P: Protocol<SP::Verifier>, SP: SessionParameters>(done: Seq<RoundRun<P, SP>>, s0: Session<P, SP>, tx0: Seq<MessageOut<SP>>, rx0: Seq<MessageIn<SP>>, sent: Seq<MessageOut<SP>>, received: Seq<MessageIn<SP>>, s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundRun<P, SP>, n: Session<P, SP>, m: Seq<VerifiedMessage<SP::Verifier>>)
    requires within_round(done, s0, tx0, rx0, sent, received, s, a, r), round_begun(r), readiness(a, s.transcript) is Yes, moved_to(s, a, n, m)
    ensures at_round(done.push(r), s0, tx0, rx0, sent, received, n, m)
{ reveal(within_round); reveal(at_round); reveal(run_next); lemma_rounds_push(done, r, s0);
   let q = done.push(r); assert(sent =~= tx0 + all_sent(q)); assert(received =~= rx0 + all_received(q)); }
/// The same destinations, one message further.
pub proof fn lemma_sent_to<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: RoundRun<P, SP>, m: MessageOut<SP>, p: ProcessedArtifact<SP>, b: RoundAccumulator<P, SP>, q: Seq<&SP::Verifier>, k: int)
    requires 0 <= k < q.len(), r.sent.map_values(|m: MessageOut<SP>| m.to) == q.take(k).map_values(|v: &SP::Verifier| *v), m.to == *q[k]
    ensures run_sent(r, m, p, b).sent.map_values(|m: MessageOut<SP>| m.to) == q.take(k + 1).map_values(|v: &SP::Verifier| *v)
{
    let n = run_sent(r, m, p, b);
    let (x, y) = (r.sent.map_values(|m: MessageOut<SP>| m.to), q.take(k).map_values(|v: &SP::Verifier| *v));
    let (u, w) = (n.sent.map_values(|m: MessageOut<SP>| m.to), q.take(k + 1).map_values(|v: &SP::Verifier| *v));
    assert(x == y && x.len() == k);
    assert forall|i: int| 0 <= i < u.len() implies u[i] == w[i] by { if i < k { assert(x[i] == y[i]); } }
    assert(u =~= w);
}
=== fn run_session
@props P20
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::exec_allows_no_decreases_clause]
requires session_inv(session), session.cached@ == Map::<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>::empty(), echoes_come::<P, SP>(),
ensures ret matches Ok(report) ==> driven(session, old(tx).sent(), old(rx).received(), final(tx).sent(), final(rx).received(), cancellation.is_cancelled(), report),
=== fn run_session | proof start
let ghost __s0 = session;
let ghost __tx0 = tx.sent();
let ghost __rx0 = rx.received();
let ghost mut __done = Seq::<RoundRun<P, SP>>::empty();
proof { lemma_begin(session, tx.sent(), rx.received()); }
=== fn run_session | loop 0
invariant at_round(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, cached_messages@),
=== fn run_session | proof after make_accumulator 0
let ghost mut __r = run_start(session, cached_messages@, accum);
proof { lemma_round_start(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, cached_messages@, accum); }
=== fn run_session | loop 1
set_ref_items(session.communication_info.message_destinations@, __seq1),
within_round(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, accum, __r), __r.kept == cached_messages@, __r.kept_results.len() == 0, __r.session == session,
__r.sent.map_values(|m: MessageOut<SP>| m.to) == __seq1.take(__it1.pos()).map_values(|v: &SP::Verifier| *v),
=== fn run_session | proof before make_message 0
let ghost __sent = tx.sent();
=== fn run_session | proof before add_artifact 0
let ghost __p = artifact;
let ghost __a = accum;
=== fn run_session | proof after add_artifact 0
proof { let m = tx.sent().last(); lemma_round_sent(__done, __s0, __tx0, __rx0, __sent, rx.received(), session, __a, __r, m, __p, accum);
    lemma_sent_to(__r, m, __p, accum, __seq1, __it1.pos() - 1);
    __r = run_sent(__r, m, __p, accum); }
=== fn run_session | proof loop 1 after
proof { lemma_all_items(session.communication_info.message_destinations@, __seq1, __r.sent.map_values(|m: MessageOut<SP>| m.to)); }
=== fn run_session | loop 2
__seq2 == __r.kept, within_round(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, accum, __r), __r.kept_results.len() == __it2.pos(), __r.session == session,
set_items(session.communication_info.message_destinations@, __r.sent.map_values(|m: MessageOut<SP>| m.to)),
=== fn run_session | proof before add_processed_message 0
let ghost __p = processed;
let ghost __a = accum;
=== fn run_session | proof after add_processed_message 0
proof { lemma_round_kept(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, __a, __r, __p, accum); __r = run_kept(__r, __p, accum); }
=== fn run_session | loop 3
invariant within_round(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, accum, __r), round_begun(__r), __r.session == session,
ensures readiness(accum, session.transcript) is Yes,
=== fn run_session | proof loop 3 start
let ghost __a = accum;
let ghost __received = rx.received();
let ghost mut __handled = false;
proof { lemma_round_ends(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, accum, __r, cancellation.is_cancelled()); }
=== fn run_session | proof before process_message 1
let ghost __b = accum;
let ghost __v = preprocessed;
=== fn run_session | proof before add_processed_message 1
let ghost __p = processed;
=== fn run_session | proof after add_processed_message 1
proof {
    lemma_round_handled(__done, __s0, __tx0, __rx0, tx.sent(), __received, session, __a, __r, rx.received().last(), __v, __b, __p, accum);
    __r = run_handled(__r, rx.received().last(), PreprocessOutcome::ToProcess(Box::new(__v)), __b, __p, accum);
    __handled = true;
}
=== fn run_session | proof loop 3 end
proof {
    let m = rx.received().last();
    if !__handled {
        let o = choose|o: PreprocessOutcome<SP::Verifier>| !(o is ToProcess) && #[trigger] preprocessed(session, __a, m.from, m.message, accum, Ok(o));
        lemma_round_received(__done, __s0, __tx0, __rx0, tx.sent(), __received, session, __a, __r, m, o, accum);
        __r = run_received(__r, m, o, accum);
    }
}
=== fn run_session | proof before finalize_round 0
let ghost (__s, __a) = (session, accum);
proof { lemma_round_ends(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), session, accum, __r, cancellation.is_cancelled()); }
=== fn run_session | proof loop 0 end
proof { lemma_round_moved(__done, __s0, __tx0, __rx0, tx.sent(), rx.received(), __s, __a, __r, session, cached_messages@); __done = __done.push(__r); }
