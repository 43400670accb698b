//! Random numbers, reporting and a recording backend.
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::Stream;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Job, Query};
use rexecutor::executor::ExecutorIdentifier;
use rexecutor::job::{ErrorType, JobError, JobId, JobStatus};
use rexecutor::pruner::PruneSpec;
use serde_json::{Value, json};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

pub struct Out { pub n: usize, pub fails: Vec<Value> }
impl Out {
    pub fn new() -> Self { Out { n: 0, fails: vec![] } }
    pub fn case(&mut self) { self.n += 1; }
    pub fn fail(&mut self, tag: &str, what: &str, input: impl std::fmt::Debug) {
        if self.fails.len() < 20 {
            let mut s = format!("{input:?}");
            s.truncate(s.char_indices().nth(6000).map(|x| x.0).unwrap_or(s.len()));
            self.fails.push(json!({"tags": [tag], "what": what, "input": s}));
        }
    }
    pub fn check(&mut self, ok: bool, tag: &str, what: &str, input: impl std::fmt::Debug) { if !ok { self.fail(tag, what, input); } }
    pub fn enough(&self) -> bool { self.fails.len() >= 5 }
}

pub fn statuses(rng: &mut Rng) -> Vec<JobStatus> {
    let m = rng.below(64);
    JobStatus::ALL.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect()
}
pub fn value(rng: &mut Rng) -> Value {
    match rng.below(9) {
        0 => Value::Null, 1 => json!(1), 2 => json!("a"), 3 => json!("b"), 4 => json!({"x": 1}), 5 => json!([]), 6 => json!({}), 7 => json!(""), _ => json!([1, "a"]),
    }
}
pub const TAGS: [&str; 4] = ["t", "u", "", "T"];
pub const EXECS: [&str; 4] = ["a", "b", "ab", "A"];
pub fn tags(rng: &mut Rng) -> Vec<String> { (0..rng.below(4)).map(|_| rng.pick(&TAGS).to_string()).collect() }
pub fn leak<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }
/// errors recorded by a job
pub fn error_type(rng: &mut Rng) -> ErrorType {
    match rng.below(5) { 0 => ErrorType::Panic, 1 => ErrorType::Timeout, 2 => ErrorType::Cancelled, 3 => ErrorType::Other("io".into()), _ => ErrorType::Other(String::new()) }
}
/// a time relative to t0: never within 4 seconds of a multiple of a minute plus half a minute
pub fn time(rng: &mut Rng, t0: DateTime<Utc>) -> DateTime<Utc> {
    match rng.below(12) {
        0 => DateTime::<Utc>::MAX_UTC,
        1 => DateTime::<Utc>::MIN_UTC,
        k => t0 + TimeDelta::seconds([-86400, -300, -60, -60, -60, 60, 60, 120, 300, 86400][k - 2]) + TimeDelta::milliseconds(rng.below(3) as i64),
    }
}
pub fn stored(rng: &mut Rng, id: i32, t0: DateTime<Utc>) -> Job {
    let o = |rng: &mut Rng| if rng.coin() { Some(time(rng, t0)) } else { None };
    Job {
        id, status: *rng.pick(&JobStatus::ALL), executor: rng.pick(&EXECS).to_string(), data: value(rng), metadata: value(rng),
        attempt: rng.below(6) as i32, max_attempts: 1 + rng.below(6) as i32, priority: rng.below(4) as i32, tags: tags(rng),
        errors: (0..rng.below(3)).map(|i| JobError { attempt: i as u16, error_type: error_type(rng), details: format!("d{i}"), recorded_at: time(rng, t0) }).collect(),
        inserted_at: time(rng, t0), scheduled_at: time(rng, t0), attempted_at: o(rng), completed_at: o(rng), cancelled_at: o(rng), discarded_at: o(rng),
    }
}

/// the value of a query at a job, read as a boolean formula
pub fn holds(q: &Query, j: &Job) -> bool {
    match q {
        Query::Not(q) => !holds(q, j),
        Query::And(qs) => qs.iter().all(|q| holds(q, j)),
        Query::Or(qs) => qs.iter().any(|q| holds(q, j)),
        Query::ExecutorEqual(e) => j.executor == *e,
        Query::DataEquals(d) => j.data == *d,
        Query::MetadataEquals(d) => j.metadata == *d,
        Query::IdEquals(i) => i32::from(*i) == j.id,
        Query::IdIn(is) => is.iter().any(|i| i32::from(*i) == j.id),
        Query::StatusEqual(s) => j.status == *s,
        Query::TagsAllOf(ts) => ts.iter().all(|t| j.tags.iter().any(|x| x == t)),
        Query::TagsOneOf(ts) => ts.iter().any(|t| j.tags.iter().any(|x| x == t)),
        Query::ScheduledAtBefore(t) => j.scheduled_at < *t,
        Query::ScheduledAtAfter(t) => j.scheduled_at > *t,
        Query::ScheduledAtEqual(t) => j.scheduled_at == *t,
    }
}

pub fn query(rng: &mut Rng, depth: usize, t0: DateTime<Utc>) -> Query<'static> {
    if depth > 0 && !rng.one_in(4) {
        match rng.below(3) {
            0 => return Query::Not(Box::new(query(rng, depth - 1, t0))),
            1 => return Query::And((0..rng.below(4)).map(|_| query(rng, depth - 1, t0)).collect()),
            _ => return Query::Or((0..rng.below(4)).map(|_| query(rng, depth - 1, t0)).collect()),
        }
    }
    match rng.below(11) {
        0 => Query::ExecutorEqual(rng.pick(&EXECS)), 1 => Query::DataEquals(value(rng)), 2 => Query::MetadataEquals(value(rng)),
        3 => Query::IdEquals((rng.below(8) as i32).into()), 4 => Query::IdIn(leak((0..rng.below(4)).map(|_| JobId::from(rng.below(8) as i32)).collect())),
        5 => Query::StatusEqual(*rng.pick(&JobStatus::ALL)), 6 => Query::TagsAllOf(leak((0..rng.below(4)).map(|_| *rng.pick(&TAGS)).collect())),
        7 => Query::TagsOneOf(leak((0..rng.below(4)).map(|_| *rng.pick(&TAGS)).collect())), 8 => Query::ScheduledAtBefore(time(rng, t0)),
        9 => Query::ScheduledAtAfter(time(rng, t0)), _ => Query::ScheduledAtEqual(time(rng, t0)),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Call {
    Subscribe(String),
    Enqueue(String, Value, Value, u16, DateTime<Utc>, Vec<String>, u16, String),
    Complete(i32), Retryable(i32, DateTime<Utc>, ExecutionError), Discarded(i32, ExecutionError), Cancelled(i32, ExecutionError),
    Snoozed(i32, DateTime<Utc>), Prune(String), Rerun(i32), Update(Job), Query(String),
}
impl Call {
    pub fn id(&self) -> Option<i32> {
        match self { Call::Complete(i) | Call::Retryable(i, ..) | Call::Discarded(i, _) | Call::Cancelled(i, _) | Call::Snoozed(i, _) | Call::Rerun(i) => Some(*i), Call::Update(j) => Some(j.id), _ => None }
    }
}
/// a backend that records what it is asked and answers as told
#[derive(Clone)]
pub struct Rec(pub Arc<Inner>);
pub struct Inner {
    pub calls: Mutex<Vec<(DateTime<Utc>, Call)>>,
    pub fail: Mutex<Box<dyn FnMut(&Call) -> bool + Send>>,
    pub offers: Mutex<VecDeque<Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>>>>,
    pub answer: Mutex<Vec<Job>>,
    pub delay: Mutex<std::time::Duration>,
    pub running: Mutex<(usize, usize)>,
    pub seen: Mutex<Box<dyn FnMut(&Query) + Send>>,
    pub enqueued: Mutex<Box<dyn FnMut(&EnqueuableJob) + Send>>,
}
impl Rec {
    pub fn new() -> Self {
        Rec(Arc::new(Inner { calls: Default::default(), fail: Mutex::new(Box::new(|_| false)), offers: Default::default(), answer: Default::default(),
            delay: Default::default(), running: Default::default(), seen: Mutex::new(Box::new(|_| ())), enqueued: Mutex::new(Box::new(|_| ())) }))
    }
    pub fn failing(self, f: impl FnMut(&Call) -> bool + Send + 'static) -> Self { *self.0.fail.lock().unwrap() = Box::new(f); self }
    pub fn calls(&self) -> Vec<(DateTime<Utc>, Call)> { self.0.calls.lock().unwrap().clone() }
    pub fn offer(&self, s: impl Stream<Item = Result<Job, BackendError>> + Send + 'static) { self.0.offers.lock().unwrap().push_back(Box::pin(s)); }
    fn note(&self, c: Call) -> Result<(), BackendError> {
        let bad = (self.0.fail.lock().unwrap())(&c);
        self.0.calls.lock().unwrap().push((Utc::now(), c));
        if bad { Err(BackendError::BadState) } else { Ok(()) }
    }
}
#[async_trait]
impl Backend for Rec {
    async fn subscribe_ready_jobs(&self, e: ExecutorIdentifier) -> Pin<Box<dyn Stream<Item = Result<Job, BackendError>> + Send>> {
        let _ = self.note(Call::Subscribe(e.as_str().to_string()));
        let s = self.0.offers.lock().unwrap().pop_front();
        s.unwrap_or_else(|| Box::pin(futures::stream::pending()))
    }
    async fn enqueue<'a>(&self, j: EnqueuableJob<'a>) -> Result<JobId, BackendError> {
        (self.0.enqueued.lock().unwrap())(&j);
        self.note(Call::Enqueue(j.executor.clone(), j.data.clone(), j.metadata.clone(), j.max_attempts, j.scheduled_at, j.tags.clone(), j.priority, format!("{:?}", j.uniqueness_criteria)))?;
        Ok(4711.into())
    }
    async fn mark_job_complete(&self, id: JobId) -> Result<(), BackendError> { self.note(Call::Complete(id.into())) }
    async fn mark_job_retryable(&self, id: JobId, t: DateTime<Utc>, e: ExecutionError) -> Result<(), BackendError> { self.note(Call::Retryable(id.into(), t, e)) }
    async fn mark_job_discarded(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> { self.note(Call::Discarded(id.into(), e)) }
    async fn mark_job_cancelled(&self, id: JobId, e: ExecutionError) -> Result<(), BackendError> { self.note(Call::Cancelled(id.into(), e)) }
    async fn mark_job_snoozed(&self, id: JobId, t: DateTime<Utc>) -> Result<(), BackendError> { self.note(Call::Snoozed(id.into(), t)) }
    async fn prune_jobs(&self, s: &PruneSpec) -> Result<(), BackendError> {
        { let mut r = self.0.running.lock().unwrap(); r.0 += 1; r.1 = r.1.max(r.0); }
        let d = *self.0.delay.lock().unwrap();
        if !d.is_zero() { tokio::time::sleep(d).await; }
        self.0.running.lock().unwrap().0 -= 1;
        self.note(Call::Prune(format!("{s:?}")))
    }
    async fn rerun_job(&self, id: JobId) -> Result<(), BackendError> { self.note(Call::Rerun(id.into())) }
    async fn update_job(&self, j: Job) -> Result<(), BackendError> { self.note(Call::Update(j)) }
    async fn query<'a>(&self, q: Query<'a>) -> Result<Vec<Job>, BackendError> {
        (self.0.seen.lock().unwrap())(&q);
        self.note(Call::Query(format!("{q:?}")))?;
        Ok(self.0.answer.lock().unwrap().clone())
    }
}
