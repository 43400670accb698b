//! Builders, conversions, typed queries, management calls, pointers and backoff.
use crate::mem::criteria;
use crate::util::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::StreamExt;
use rexecutor::RexecutorError;
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError as BErr, Job as Stored, Query};
use rexecutor::global_backend::GlobalBackend;
use rexecutor::job::builder::JobBuilder;
use rexecutor::job::uniqueness_criteria::{Replace, Resolution, UniquenessCriteria};
use rexecutor::job::{JobId, JobStatus};
use rexecutor::prelude::*;
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde_json::{Value, json};
use std::sync::{Arc, Mutex};

struct Ex;
#[async_trait]
impl Executor for Ex {
    type Data = Value; type Metadata = Value;
    const NAME: &'static str = "a"; const MAX_ATTEMPTS: u16 = 9;
    const UNIQUENESS_CRITERIA: Option<UniquenessCriteria<'static>> = Some(UniquenessCriteria::by_executor());
    async fn execute(_: Job<Value, Value>) -> ExecutionResult { ExecutionResult::Done }
}
struct Bare;
#[async_trait]
impl Executor for Bare {
    type Data = Option<u8>; type Metadata = NotText;
    const NAME: &'static str = "bare";
    async fn execute(_: Job<Option<u8>, NotText>) -> ExecutionResult { ExecutionResult::Done }
}
/// encoding fails
#[derive(Clone, Debug)]
struct NotText;
impl serde::Serialize for NotText { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) } }
impl<'de> serde::Deserialize<'de> for NotText { fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("no")) } }

/// C16
pub async fn builder(seed: u64, n: usize, out: &mut Out) {
    for c in 0..n {
        let mut rng = Rng::new(seed * 31 + c as u64);
        out.case();
        let t0 = Utc::now();
        let mut log: Vec<String> = vec![];
        let fails = rng.one_in(6);
        let rec = Rec::new().failing(move |_| fails);
        let mut b = JobBuilder::<Ex>::default().with_data(json!("first"));
        if rng.coin() { b = Ex::builder().with_data(json!("first")); }
        let made = Utc::now();
        let (mut data, mut meta, mut max, mut tags_, mut prio) = (json!("first"), Value::Null, 9u16, Vec::<String>::new(), 0u16);
        let mut uc = Ex::UNIQUENESS_CRITERIA;
        let mut at = (t0, made);
        for _ in 0..rng.below(8) {
            match rng.below(9) {
                0 => { data = value(&mut rng); log.push(format!("with_data {data}")); b = b.with_data(data.clone()); }
                1 => { meta = value(&mut rng); log.push(format!("with_metadata {meta}")); b = b.with_metadata(meta.clone()); }
                2 => { max = *rng.pick(&[0, 1, 2, 65535]); log.push(format!("with_max_attempts {max}")); b = b.with_max_attempts(max); }
                3 => { let t = time(&mut rng, t0); at = (t, t); log.push(format!("schedule_at {t}")); b = b.schedule_at(t); }
                4 => { let d = *rng.pick(&[TimeDelta::zero(), TimeDelta::milliseconds(1500), TimeDelta::seconds(1 << 33), TimeDelta::seconds(-9)]); let lo = Utc::now() + d; b = b.schedule_in(d); at = (lo, Utc::now() + d); log.push(format!("schedule_in {d:?}")); }
                5 => { let t = *rng.pick(&TAGS); tags_.push(t.into()); log.push(format!("add_tag {t:?}")); b = b.add_tag(t); }
                6 => { let ts = tags(&mut rng); tags_ = ts.clone(); log.push(format!("with_tags {ts:?}")); b = b.with_tags(ts); }
                7 => { let u = criteria(&mut rng); uc = Some(u.clone()); log.push(format!("unique {u:?}")); b = b.unique(u); }
                _ => { prio = *rng.pick(&[0, 3, 65535]); log.push(format!("with_priority {prio}")); b = b.with_priority(prio); }
            }
        }
        let r = b.enqueue_to_backend(&rec).await;
        let calls = rec.calls();
        let inp = (&log, format!("{r:?}"), &calls);
        out.check(calls.len() == 1, "builder", "not exactly one request was made", &inp);
        if let Some((_, Call::Enqueue(e, d, m, x, s, t, p, u))) = calls.first() {
            out.check(e == "a" && *d == data && *m == meta && *x == max && *t == tags_ && *p == prio && *u == format!("{uc:?}"), "builder", "the request is not what was configured", (&inp, &data, &meta, max, &tags_, prio, &uc));
            out.check(*s >= at.0 && *s <= at.1, "builder", "the scheduled time is not the one configured", (&inp, at));
        } else { out.fail("builder", "another call was made", &inp); }
        out.check(if fails { matches!(r, Err(RexecutorError::BackendError(BackendError::BadState))) } else { matches!(r, Ok(id) if id == 4711) }, "builder", "the backend's result was not passed on", &inp);
        if out.enough() { return; }
    }
    // defaults without data, encoding errors
    out.case();
    let rec = Rec::new();
    let r = Bare::builder().enqueue_to_backend(&rec).await;
    out.check(r.is_ok() && matches!(&rec.calls()[..], [(_, Call::Enqueue(e, Value::Null, Value::Null, 5, _, t, 0, u))] if e == "bare" && t.is_empty() && u == "None"), "builder", "defaults are not as documented", rec.calls());
    let rec = Rec::new();
    let r = Bare::builder().with_metadata(NotText).enqueue_to_backend(&rec).await;
    out.check(matches!(r, Err(RexecutorError::EncodeError(_))) && rec.calls().is_empty(), "builder", "an encoding error is not passed on", (format!("{r:?}"), rec.calls()));
}

/// C17
pub fn conversions(seed: u64, n: usize, out: &mut Out) {
    for c in 0..n {
        let mut rng = Rng::new(seed * 57 + c as u64);
        out.case();
        let mut j = stored(&mut rng, rng_id(c), Utc::now());
        j.attempt = *rng.pick(&[0, 1, 2, 65535]); j.max_attempts = *rng.pick(&[0, 1, 7, 65535]); j.priority = *rng.pick(&[0, 5, 65535]);
        let t = Job::<Value, Value>::try_from(j.clone());
        match t {
            Ok(t) => {
                let ok = t.id == j.id && t.status == j.status && t.executor == j.executor && t.data == j.data && t.metadata.clone().unwrap_or(Value::Null) == j.metadata && i32::from(t.attempt) == j.attempt
                    && i32::from(t.max_attempts) == j.max_attempts && i32::from(t.priority) == j.priority && t.tags == j.tags && t.errors == j.errors && t.inserted_at == j.inserted_at && t.scheduled_at == j.scheduled_at
                    && t.attempted_at == j.attempted_at && t.completed_at == j.completed_at && t.cancelled_at == j.cancelled_at && t.discarded_at == j.discarded_at;
                out.check(ok, "typed", "a field is lost when converting a stored job", (&j, &t));
                let back = Stored::try_from(t);
                out.check(matches!(&back, Ok(b) if *b == j), "typed", "converting there and back is not the identity", (&j, back));
            }
            Err(e) => out.fail("typed", "a decodable job is refused", (&j, e.to_string())),
        }
        let mut k = j.clone(); k.data = json!("text");
        out.check(Job::<u8, Value>::try_from(k).is_err(), "typed", "undecodable data is accepted", &j);
        let mut k = j.clone(); k.data = json!(3); k.metadata = json!([1]);
        out.check(Job::<u8, u8>::try_from(k).is_err(), "typed", "undecodable metadata is accepted", &j);
        if out.enough() { return; }
    }
}
fn rng_id(c: usize) -> i32 { [0, 1, -1, i32::MAX, i32::MIN][c % 5] }

/// C18
pub fn criteria_builders(seed: u64, n: usize, out: &mut Out) {
    let d = UniquenessCriteria { key: None, executor: false, duration: None, statuses: &[JobStatus::Scheduled], on_conflict: Resolution::DoNothing };
    const S: &[JobStatus] = &[JobStatus::Complete, JobStatus::Retryable];
    let t = TimeDelta::seconds(5);
    let mut chk = |what: &str, got: UniquenessCriteria<'static>, want: UniquenessCriteria<'static>| { out.case(); out.check(got == want, "criteria", what, (&got, &want)); };
    chk("by_executor", UniquenessCriteria::by_executor(), UniquenessCriteria { executor: true, ..d.clone() });
    chk("within", UniquenessCriteria::within(t), UniquenessCriteria { duration: Some(t), ..d.clone() });
    chk("by_statuses", UniquenessCriteria::by_statuses(S), UniquenessCriteria { statuses: S, ..d.clone() });
    let k = UniquenessCriteria::by_key(&("x", 1)).key;
    chk("by_key", UniquenessCriteria::by_key(&("x", 1)), UniquenessCriteria { key: k, ..d.clone() });
    out.check(k.is_some(), "criteria", "by_key sets no key", k);
    let r0 = Replace { scheduled_at: false, data: false, metadata: false, priority: false, max_attempts: false, for_statuses: &[JobStatus::Scheduled] };
    let mut chk = |what: &str, got: Replace<'static>, want: Replace<'static>| { out.case(); out.check(got == want, "criteria", what, (&got, &want)); };
    chk("scheduled_at", Replace::scheduled_at(), Replace { scheduled_at: true, ..r0.clone() });
    chk("data", Replace::data(), Replace { data: true, ..r0.clone() });
    chk("metadata", Replace::metadata(), Replace { metadata: true, ..r0.clone() });
    chk("priority", Replace::priority(), Replace { priority: true, ..r0.clone() });
    chk("max_attempts", Replace::max_attempts(), Replace { max_attempts: true, ..r0.clone() });
    for c in 0..n {
        let mut rng = Rng::new(seed * 91 + c as u64);
        let u = criteria(&mut rng);
        let key = UniquenessCriteria::by_key(&c).key;
        let r = match criteria(&mut rng).on_conflict { Resolution::Replace(r) => r, _ => r0.clone() };
        out.case();
        let pairs: Vec<(&str, UniquenessCriteria<'static>, UniquenessCriteria<'static>)> = vec![
            ("and_executor", u.clone().and_executor(), UniquenessCriteria { executor: true, ..u.clone() }), ("and_within", u.clone().and_within(t), UniquenessCriteria { duration: Some(t), ..u.clone() }),
            ("and_statuses", u.clone().and_statuses(S), UniquenessCriteria { statuses: S, ..u.clone() }), ("and_key", u.clone().and_key(&c), UniquenessCriteria { key, ..u.clone() }),
            ("on_conflict", u.clone().on_conflict(r.clone()), UniquenessCriteria { on_conflict: Resolution::Replace(r.clone()), ..u.clone() }), ("on_conflict_do_nothing", u.clone().on_conflict_do_nothing(), UniquenessCriteria { on_conflict: Resolution::DoNothing, ..u.clone() })];
        for (w, g, x) in pairs { out.check(g == x, "criteria", w, (&u, &g, &x)); }
        let pairs: Vec<(&str, Replace<'static>, Replace<'static>)> = vec![("and_scheduled_at", r.clone().and_scheduled_at(), Replace { scheduled_at: true, ..r.clone() }), ("and_data", r.clone().and_data(), Replace { data: true, ..r.clone() }),
            ("and_metadata", r.clone().and_metadata(), Replace { metadata: true, ..r.clone() }), ("and_priority", r.clone().and_priority(), Replace { priority: true, ..r.clone() }), ("and_max_attempts", r.clone().and_max_attempts(), Replace { max_attempts: true, ..r.clone() }),
            ("for_statuses", r.clone().for_statuses(S), Replace { for_statuses: S, ..r.clone() })];
        for (w, g, x) in pairs { out.check(g == x, "criteria", w, (&r, &g, &x)); }
        let s = format!("k{}", c % 7);
        out.check(UniquenessCriteria::by_key(&s).key == u.clone().and_key(&format!("k{}", c % 7)).key && u.clone().and_key(&s).key == u.clone().and_executor().and_key(&s).key, "criteria", "equal key values give different keys", &s);
        if out.enough() { return; }
    }
    out.check(UniquenessCriteria::by_key(&"a").key != UniquenessCriteria::by_key(&"b").key, "criteria", "the key does not depend on the value", ());
}

/// C10
pub async fn typed_queries(seed: u64, n: usize, out: &mut Out) {
    type W = Where<'static, Value, Value>;
    fn gen_(rng: &mut Rng, depth: usize, t0: DateTime<Utc>) -> (W, Query<'static>) {
        if depth > 0 && !rng.one_in(4) {
            let (a, x) = gen_(rng, depth - 1, t0);
            match rng.below(3) {
                0 => return (!a, Query::Not(Box::new(x))),
                k => { let (b, y) = gen_(rng, depth - 1, t0); return if k == 1 { (a.and(b), Query::And(vec![x, y])) } else { (a.or(b), Query::Or(vec![x, y])) }; }
            }
        }
        let q = loop { let q = query(rng, 0, t0); if !matches!(q, Query::ExecutorEqual(_)) { break q; } };
        let lk = |v: &Value| -> &'static Value { Box::leak(Box::new(v.clone())) };
        let w = match &q {
            Query::DataEquals(d) => W::data_equals(lk(d)), Query::MetadataEquals(d) => W::metadata_equals(lk(d)), Query::IdEquals(i) => W::id_equals(*i), Query::IdIn(i) => W::id_in(i), Query::StatusEqual(s) => W::status_equals(*s),
            Query::TagsAllOf(t) => W::tagged_by_all_of(t), Query::TagsOneOf(t) => W::tagged_by_one_of(t), Query::ScheduledAtBefore(t) => W::scheduled_at_before(*t), Query::ScheduledAtAfter(t) => W::scheduled_at_after(*t),
            Query::ScheduledAtEqual(t) => W::scheduled_at_equals(*t), _ => unreachable!(),
        };
        (w, q)
    }
    let t0 = Utc::now();
    for c in 0..n {
        let mut rng = Rng::new(seed * 131 + c as u64);
        out.case();
        let (w, q) = if c % 20 == 18 { (W::scheduled_at_older_than(TimeDelta::seconds(200)), Query::ScheduledAtBefore(t0 - TimeDelta::seconds(200))) }
            else if c % 20 == 19 { (W::scheduled_at_within_the_last(TimeDelta::seconds(200)), Query::ScheduledAtAfter(t0 - TimeDelta::seconds(200))) }
            else { gen_(&mut rng, 4, t0) };
        let jobs: Vec<Stored> = (0..40).map(|i| stored(&mut rng, i % 8, t0)).collect();
        let fails = rng.one_in(8);
        let rec = Rec::new().failing(move |_| fails);
        let mut ans: Vec<Stored> = (0..rng.below(4)).map(|i| stored(&mut rng, 9 - i as i32, t0)).collect();
        for a in &mut ans { a.executor = "a".into(); }
        *rec.0.answer.lock().unwrap() = ans.clone();
        let seen: Arc<Mutex<Vec<Vec<bool>>>> = Default::default();
        { let (seen, jobs) = (seen.clone(), jobs.clone()); *rec.0.seen.lock().unwrap() = Box::new(move |q: &Query| seen.lock().unwrap().push(jobs.iter().map(|j| holds(q, j)).collect())); }
        let text = format!("{q:?}");
        let r = Ex::query_jobs_on_backend(w, &rec).await;
        let want: Vec<bool> = jobs.iter().map(|j| j.executor == "a" && holds(&q, j)).collect();
        let seen = seen.lock().unwrap().clone();
        out.check(rec.calls().len() == 1 && seen.len() == 1, "scope", "the backend is not asked exactly once", (&text, rec.calls()));
        if let Some(s) = seen.first() { if *s != want { let i = (0..40).find(|i| s[*i] != want[*i]).unwrap(); out.fail("scope", "the backend is asked for another formula", (&text, rec.calls(), "differs at", &jobs[i])); } }
        match r {
            Ok(js) => out.check(!fails && js.len() == ans.len() && js.into_iter().zip(&ans).all(|(j, a)| Stored::try_from(j).is_ok_and(|x| x == *a)), "scope", "the jobs are not returned as the backend gave them", (&text, &ans)),
            Err(e) => out.check(fails && matches!(e, RexecutorError::BackendError(BackendError::BadState)), "scope", "the query fails", (&text, e.to_string())),
        }
        if out.enough() { return; }
    }
    out.case();
    let rec = Rec::new();
    let mut a = stored(&mut Rng::new(3), 1, t0); a.data = json!("not a number");
    let mut b = a.clone(); b.data = json!(3); b.metadata = Value::Null;
    *rec.0.answer.lock().unwrap() = vec![b, a];
    struct Num;
    #[async_trait]
    impl Executor for Num { type Data = u8; type Metadata = u8; const NAME: &'static str = "num"; async fn execute(_: Job<u8, u8>) -> ExecutionResult { ExecutionResult::Done } }
    let r = Num::query_jobs_on_backend(Where::id_equals(1.into()), &rec).await;
    out.check(r.is_err(), "scope", "an undecodable job does not make the query fail", r.map(|v| v.len()).unwrap_or(0));
}

/// C22
pub async fn management(seed: u64, out: &mut Out) {
    let t0 = Utc::now();
    let typed = |rng: &mut Rng| Job::<Value, Value>::try_from(stored(rng, 5, t0)).unwrap();
    let mut rng = Rng::new(seed);
    out.case();
    let no = |r: &Result<(), RexecutorError>| matches!(r, Err(RexecutorError::GlobalBackend));
    out.check(GlobalBackend::as_ref().is_err() && no(&Ex::cancel_job(1.into(), Box::new("r")).await) && no(&Ex::rerun_job(1.into()).await) && no(&Ex::update_job(typed(&mut rng)).await)
        && no(&Ex::query_jobs(Where::id_equals(1.into())).await.map(|_| ())) && no(&Ex::builder().with_data(json!(1)).enqueue().await.map(|_| ())), "global", "using the global backend before it is set does not fail with the global backend error", ());
    let first = Rec::new();
    let rx = Rexecutor::new(first.clone()).set_global_backend();
    out.check(rx.is_ok(), "global", "setting the global backend fails", ());
    let second = Rec::new();
    let again = Rexecutor::new(second.clone()).set_global_backend();
    out.check(matches!(again, Err(RexecutorError::GlobalBackend)), "global", "the global backend can be set twice", ());
    for c in 0..300 {
        out.case();
        let fails = rng.one_in(4);
        *first.0.fail.lock().unwrap() = Box::new(move |_| fails);
        let other = Rec::new().failing(move |_| fails);
        let ans = vec![stored(&mut rng, 3, t0)];
        *first.0.answer.lock().unwrap() = ans.clone(); *other.0.answer.lock().unwrap() = ans.clone();
        first.0.calls.lock().unwrap().clear();
        let id = *rng.pick(&[0, 1, -1, i32::MAX]);
        let k = c % 5;
        let (g, e, want) = match k {
            0 => { let m = format!("reason {c}"); (Ex::cancel_job(id.into(), Box::new(m.clone())).await, Ex::cancel_job_on_backend(id.into(), Box::new(m.clone()), &other).await, Some(Call::Cancelled(id, BErr { error_type: rexecutor::job::ErrorType::Cancelled, message: m }))) }
            1 => (Ex::rerun_job(id.into()).await, Ex::rerun_job_on_backend(id.into(), &other).await, Some(Call::Rerun(id))),
            2 => { let s = stored(&mut rng, id, t0); let t = || Job::<Value, Value>::try_from(s.clone()).unwrap(); (Ex::update_job(t()).await, Ex::update_job_on_backend(t(), &other).await, Some(Call::Update(s.clone()))) }
            3 => { let q = || Where::id_equals(id.into()); (Ex::query_jobs(q()).await.map(|_| ()), Ex::query_jobs_on_backend(q(), &other).await.map(|_| ()), None) }
            _ => { let (d, p) = (value(&mut rng), rng.below(9) as u16); let b = || Ex::builder().with_data(d.clone()).schedule_at(t0).with_priority(p).add_tag("x"); (b().enqueue().await.map(|_| ()), b().enqueue_to_backend(&other).await.map(|_| ()), None) }
        };
        let (gc, ec): (Vec<Call>, Vec<Call>) = (first.calls().into_iter().map(|c| c.1).collect(), other.calls().into_iter().map(|c| c.1).collect());
        out.check(gc.len() == 1 && gc == ec, "global", "the call through the global backend differs from the explicit one", (&gc, &ec));
        out.check(g.is_err() == fails && e.is_err() == fails && (!fails || matches!((&g, &e), (Err(RexecutorError::BackendError(BackendError::BadState)), Err(RexecutorError::BackendError(BackendError::BadState))))), "global", "the backend's result is not passed on", (k, fails, format!("{g:?} {e:?}")));
        if let Some(w) = want { out.check(ec.first() == Some(&w), "global", "the backend is not called with what was given", (&ec, w)); }
        if out.enough() { return; }
    }
    out.check(second.calls().is_empty(), "global", "the second backend was used", second.calls());
    let _ = rx;
}

/// C24
pub async fn pointers(seed: u64, out: &mut Out) {
    async fn ops<B: Backend + Sync>(b: B, seed: u64) -> Vec<String> {
        let t0 = DateTime::<Utc>::UNIX_EPOCH;
        let mut rng = Rng::new(seed);
        let e = || BErr { error_type: rexecutor::job::ErrorType::Other("k".into()), message: "m".into() };
        let mut r = vec![];
        r.push(format!("{:?}", b.enqueue(crate::mem::request(&mut rng, t0)).await));
        r.push(format!("{:?}", b.mark_job_complete(1.into()).await));
        r.push(format!("{:?}", b.mark_job_retryable(2.into(), t0, e()).await));
        r.push(format!("{:?}", b.mark_job_discarded(3.into(), e()).await));
        r.push(format!("{:?}", b.mark_job_cancelled(4.into(), e()).await));
        r.push(format!("{:?}", b.mark_job_snoozed(5.into(), t0).await));
        r.push(format!("{:?}", b.prune_jobs(&PruneSpec { status: JobStatus::Complete, prune_by: PruneBy::MaxLength(3), executors: Spec::Only(vec!["a"]) }).await));
        r.push(format!("{:?}", b.rerun_job(6.into()).await));
        r.push(format!("{:?}", b.update_job(stored(&mut rng, 7, t0)).await));
        r.push(format!("{:?}", b.query(query(&mut rng, 2, t0)).await));
        let mut s = b.subscribe_ready_jobs("a".into()).await;
        r.push(format!("{:?}", s.next().await));
        r
    }
    for c in 0..60u64 {
        out.case();
        let seed = seed * 17 + c / 4;
        let mk = || {
            let r = Rec::new().failing(move |k| c % 3 == 0 && k.id().is_none_or(|i| i % 2 == 0));
            *r.0.answer.lock().unwrap() = vec![stored(&mut Rng::new(seed), 2, DateTime::<Utc>::UNIX_EPOCH)];
            r.offer(futures::stream::iter(vec![Ok(stored(&mut Rng::new(seed + 1), 8, DateTime::<Utc>::UNIX_EPOCH))]));
            r
        };
        let (a, b) = (mk(), mk());
        let want = ops(a.clone(), seed).await;
        let got = match c % 4 { 0 => ops(&b, seed).await, 1 => ops(Box::new(b.clone()), seed).await, 2 => ops(Arc::new(b.clone()), seed).await, _ => ops(Box::new(Arc::new(b.clone())), seed).await };
        let cs = |r: &Rec| r.calls().into_iter().map(|x| x.1).collect::<Vec<_>>();
        out.check(want == got && cs(&a) == cs(&b), "pointer", "the pointer does not behave like the backend", (c % 4, want, got, cs(&a), cs(&b)));
        if out.enough() { return; }
    }
}

/// C15, in exact arithmetic (nanoseconds)
pub fn backoff(seed: u64, n: usize, out: &mut Out) {
    const MAX: i128 = i64::MAX as i128 * 1_000_000;
    const SEC: i128 = 1_000_000_000;
    let ns = |d: TimeDelta| d.num_seconds() as i128 * SEC + d.subsec_nanos() as i128;
    let pow = |b: i128, e: u32| { let mut r: i128 = 1; for _ in 0..e { if r == 0 || b <= 1 && r == b { break; } r = r.saturating_mul(b); if r >= i64::MAX as i128 * 2 { return i64::MAX as i128 * 2; } } if e > 0 && b == 0 { 0 } else { r } };
    let deltas = [TimeDelta::zero(), TimeDelta::nanoseconds(1), TimeDelta::milliseconds(1500), TimeDelta::seconds(1), TimeDelta::seconds(2), TimeDelta::seconds(20), TimeDelta::days(7), TimeDelta::days(1 << 36), TimeDelta::MAX];
    let attempts = [0u16, 1, 2, 3, 5, 16, 31, 62, 63, 64, 255, 1000, 46341, 65535];
    for c in 0..n {
        let mut rng = Rng::new(seed * 71 + c as u64);
        out.case();
        let (d, mx, mn) = (*rng.pick(&deltas), if rng.coin() { Some(*rng.pick(&deltas)) } else { None }, if rng.coin() { Some(*rng.pick(&deltas)) } else { None });
        let power = *rng.pick(&[0u32, 1, 2, 3, 7, 40]);
        let jit = match rng.below(3) { 0 => None, 1 => Some(Jitter::Absolute(*rng.pick(&[TimeDelta::zero(), TimeDelta::seconds(3), TimeDelta::days(9)]))), _ => Some(Jitter::Relative(*rng.pick(&[0.0, 0.1, 0.5, 1.0, 3.0]))) };
        let kind = rng.below(4);
        let attempt = if rng.coin() { *rng.pick(&attempts) } else { rng.below(65536) as u16 };
        let rev = rng.coin();
        macro_rules! go { ($s:expr, $max:expr) => {{ let s = $s; let s = if $max { s } else { s };
            let s = if rev { if let Some(j) = jit { s.with_jitter(j) } else { s } } else { if let Some(m) = mn { s.with_min(m) } else { s } };
            let s = if !rev { if let Some(j) = jit { s.with_jitter(j) } else { s } } else { if let Some(m) = mn { s.with_min(m) } else { s } };
            s.backoff(attempt) }} }
        let inp = (["constant", "linear", "polynomial", "exponential"][kind], d, "max", mx, "min", mn, "power", power, jit, "attempt", attempt);
        let got = std::panic::catch_unwind(|| match kind {
            0 => go!(BackoffStrategy::constant(d), false),
            1 => { let s = BackoffStrategy::linear(d); let s = if let Some(m) = mx { s.with_max(m) } else { s }; go!(s, true) }
            2 => { let s = BackoffStrategy::polynomial(d, power); let s = if let Some(m) = mx { s.with_max(m) } else { s }; go!(s, true) }
            _ => { let s = BackoffStrategy::exponential(d); let s = if let Some(m) = mx { s.with_max(m) } else { s }; go!(s, true) }
        });
        let Ok(got) = got else { out.fail("backoff", "computing a delay panics", inp); if out.enough() { return; } continue };
        let g = ns(got);
        // range of the delay before jitter (exact where the specification is)
        let cap = |x: i128| { let x = x.min(MAX); mx.map_or(x, |m| x.min(ns(m))) };
        let (lo, hi) = match kind {
            0 => (ns(d), ns(d)),
            1 => { let x = cap(ns(d) * attempt as i128); (x, x) }
            2 => { let p = pow(attempt as i128, power); (cap(ns(d) * p.min(i32::MAX as i128)), cap((ns(d)).saturating_mul(p))) }
            _ => { let p = pow((ns(d) / SEC) as i128, attempt as u32).saturating_mul(SEC); match mx { Some(m) if p > ns(m) => (ns(m) - SEC + 1, ns(m)), None if p > MAX - SEC => (MAX - SEC, MAX), _ => (p, p) } }
        };
        let j = match jit { None => 0, Some(Jitter::Absolute(x)) => ns(x), Some(Jitter::Relative(r)) => (hi as f64 * r) as i128 + 2_000_000 + (hi as f64 * r * 1e-9) as i128 };
        let m = mn.map_or(0, ns);
        out.check(g >= m && g >= 0, "backoff", "the delay is below the minimum", (&inp, got));
        out.check(g >= (lo - j).min(MAX) && g <= (hi + j).max(m), "backoff", "the delay is not that of the strategy", (&inp, got, lo, hi, j));
        if jit.is_none() { out.check(g >= lo && g <= hi.max(m) && (g <= hi || g == m), "backoff", "the delay is not that of the strategy", (&inp, got, lo, hi)); }
        if out.enough() { return; }
    }
    // jitter is applied at all, and to both sides
    let s = BackoffStrategy::constant(TimeDelta::seconds(100)).with_jitter(Jitter::Absolute(TimeDelta::seconds(10)));
    let v: Vec<i64> = (0..400).map(|_| s.backoff(1).num_milliseconds()).collect();
    out.check(v.iter().any(|x| *x > 100_000) && v.iter().any(|x| *x < 100_000), "backoff", "jitter is not applied", ());
    for a in [0u16, 1, 2, 5, 9, 10, 30, 65535] {
        out.case();
        let mut j = stored(&mut Rng::new(1), 1, Utc::now()); j.attempt = a.into();
        let d = ns(Ex::backoff(&Job::try_from(j).unwrap()));
        let w = pow(4, a.into()).min(7 * 86400) * SEC;
        out.check(10 * d <= 11 * w + 20_000_000 && 10 * d >= 9 * w - 20_000_000, "backoff", "the default backoff is not as documented", (a, d, w));
    }
}
#[allow(dead_code)] fn unused(_: EnqueuableJob, _: JobId) {}
