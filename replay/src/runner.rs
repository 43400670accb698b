//! Runners (jobs, cron, pruner) against a recording backend.
use crate::util::*;
use async_trait::async_trait;
use chrono::{DateTime, FixedOffset, TimeDelta, Timelike, Utc};
use futures::StreamExt;
use rexecutor::backend::{BackendError, ExecutionError as BErr, Job as Stored, memory::InMemoryBackend, Backend};
use rexecutor::job::{ErrorType, JobStatus};
use rexecutor::prelude::*;
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub enum Act { Done, Cancel(String), Snooze(i64), SnoozeMax, SnoozeMin, Error(bool, String), PanicStr, PanicString(String), PanicAny, PanicLate, Hang }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Script { pub act: Act, pub backoff_ms: i64, pub timeout_ms: Option<u64> }

#[derive(Debug)]
struct Failed(bool, String);
impl std::fmt::Display for Failed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "failed: {}", self.1) } }
impl std::error::Error for Failed {}
impl ExecutionError for Failed { fn error_type(&self) -> &'static str { if self.0 { "kind one" } else { "panic?" } } }

fn delay(ms: i64) -> TimeDelta { if ms == i64::MAX { TimeDelta::MAX } else if ms == i64::MIN { TimeDelta::MIN } else { TimeDelta::milliseconds(ms) } }
async fn act(s: Script) -> ExecutionResult {
    match s.act {
        Act::Done => ExecutionResult::Done,
        Act::Cancel(r) => ExecutionResult::Cancel { reason: Box::new(r) },
        Act::Snooze(ms) => ExecutionResult::Snooze { delay: TimeDelta::milliseconds(ms) },
        Act::SnoozeMax => ExecutionResult::Snooze { delay: TimeDelta::MAX },
        Act::SnoozeMin => ExecutionResult::Snooze { delay: TimeDelta::MIN },
        Act::Error(k, m) => Failed(k, m).into(),
        Act::PanicStr => panic!("plain"),
        Act::PanicString(m) => panic!("{m}!"),
        Act::PanicAny => std::panic::panic_any(7usize),
        Act::PanicLate => { tokio::task::yield_now().await; panic!("late") }
        Act::Hang => { futures::future::pending::<()>().await; ExecutionResult::Done }
    }
}
macro_rules! scripted { ($n:ident, $name:expr, $conc:expr, $block:expr) => {
    struct $n;
    #[async_trait]
    impl Executor for $n {
        type Data = Script; type Metadata = String;
        const NAME: &'static str = $name; const MAX_CONCURRENCY: Option<usize> = $conc; const BLOCKING: bool = $block;
        async fn execute(job: Job<Script, String>) -> ExecutionResult { act(job.data).await }
        fn backoff(job: &Job<Script, String>) -> TimeDelta { delay(job.data.backoff_ms) }
        fn timeout(job: &Job<Script, String>) -> Option<Duration> { job.data.timeout_ms.map(Duration::from_millis) }
    }
} }
scripted!(Free, "free", None, false);
scripted!(One, "one", Some(1), false);
scripted!(Block, "block", None, true);

pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| ())); }

fn job(id: i32, executor: &str, data: serde_json::Value, attempt: i32, max_attempts: i32) -> Stored {
    let t = Utc::now();
    Stored { id, status: JobStatus::Executing, executor: executor.into(), data, metadata: serde_json::Value::Null, attempt, max_attempts, priority: 0, tags: vec![], errors: vec![],
        inserted_at: t, scheduled_at: t, attempted_at: Some(t), completed_at: None, cancelled_at: None, discarded_at: None }
}

/// C01, C02: every outcome is recorded once, with the matching transition
pub async fn outcomes(prop: &str, seed: u64, rounds: usize, out: &mut Out) {
    quiet_panics();
    for r in 0..rounds {
        let mut rng = Rng::new(seed * 7919 + r as u64);
        for which in 0..3 {
            let rec = Rec::new();
            let bad = r % 2 == 1;
            let rec = rec.failing(move |c| bad && !matches!(c, Call::Subscribe(_)) && c.id().is_some_and(|i| i % 3 == 0));
            let mut items: Vec<Result<Stored, BackendError>> = vec![];
            let mut scripts = vec![];
            let name = ["free", "one", "block"][which];
            let mut acts = vec![Act::Done, Act::Cancel("stop".into()), Act::Cancel(String::new()), Act::Snooze(90_000), Act::Snooze(0), Act::Snooze(-5000), Act::SnoozeMax, Act::SnoozeMin,
                Act::Error(true, "x".into()), Act::Error(false, String::new()), Act::PanicStr, Act::PanicString("owned".into()), Act::PanicAny, Act::PanicLate, Act::Error(true, "y".into()), Act::Error(true, "z".into())];
            if which != 2 { acts.push(Act::Hang); acts.push(Act::Hang); acts.push(Act::Hang); }
            for k in (1..acts.len()).rev() { let j = rng.below(k + 1); acts.swap(k, j); }
            for (i, a) in acts.into_iter().enumerate() {
                let hang = a == Act::Hang;
                let s = Script { act: a, backoff_ms: *rng.pick(&[0, 1500, 3_600_000, -1000, i64::MAX, i64::MIN]), timeout_ms: if hang { Some(1 + rng.below(20) as u64) } else if rng.coin() { Some(60_000) } else { None } };
                let s = if which == 2 { Script { timeout_ms: None, ..s } } else { s };
                let max = 1 + rng.below(4) as i32;
                let attempt = (max + rng.below(4) as i32 - 2).max(1);
                let id = 100 + i as i32;
                let mut j = job(id, name, serde_json::to_value(&s).unwrap(), attempt, max);
                j.tags = tags(&mut rng);
                if rng.one_in(5) { items.push(Err(BackendError::BadState)); }
                if rng.one_in(6) { items.push(Ok(job(9000 + i as i32, name, serde_json::json!("undecodable"), 1, 3))); }
                items.push(Ok(j)); scripts.push((id, s, attempt, max));
            }
            rec.offer(futures::stream::iter(items).chain(futures::stream::pending()));
            let lo = Utc::now();
            let rx = Rexecutor::new(rec.clone());
            let rx = match which { 0 => rx.with_executor::<Free>(), 1 => rx.with_executor::<One>(), _ => rx.with_executor::<Block>() };
            let end = std::time::Instant::now() + Duration::from_secs(10);
            while rec.calls().iter().filter(|c| c.1.id().is_some()).count() < scripts.len() && std::time::Instant::now() < end { tokio::time::sleep(Duration::from_millis(5)).await; }
            tokio::time::sleep(Duration::from_millis(40)).await;
            let calls = rec.calls();
            rx.graceful_shutdown();
            for (id, s, attempt, max) in &scripts {
                out.case();
                let mine: Vec<&(DateTime<Utc>, Call)> = calls.iter().filter(|c| c.1.id() == Some(*id)).collect();
                let inp = (name, s, "attempt", attempt, "of", max, "calls", &mine);
                if mine.len() != 1 { out.fail("outcome", "the outcome of a job was not recorded exactly once", inp); continue; }
                let (at, c) = mine[0];
                let in_time = |t: &DateTime<Utc>, d: TimeDelta| {
                    let f = |x: DateTime<Utc>| x.checked_add_signed(d).unwrap_or(if d < TimeDelta::zero() { DateTime::<Utc>::MIN_UTC } else { DateTime::<Utc>::MAX_UTC });
                    *t >= f(lo) && *t <= f(*at)
                };
                let snoozed = |d: TimeDelta| matches!(c, Call::Snoozed(_, t) if in_time(t, d));
                let failed = |e: BErr| if attempt < max { matches!(c, Call::Retryable(_, t, x) if *x == e && in_time(t, delay(s.backoff_ms))) } else { matches!(c, Call::Discarded(_, x) if *x == e) };
                let p = |m: &str| BErr { error_type: ErrorType::Panic, message: m.into() };
                let o = |k: &str, m: &str| BErr { error_type: ErrorType::Other(k.into()), message: format!("failed: {m}") };
                let ok = match &s.act {
                    Act::Done => matches!(c, Call::Complete(_)),
                    Act::Cancel(r) => *c == Call::Cancelled(*id, BErr { error_type: ErrorType::Cancelled, message: r.clone() }),
                    Act::Snooze(ms) => snoozed(TimeDelta::milliseconds(*ms)),
                    Act::SnoozeMax => snoozed(TimeDelta::MAX), Act::SnoozeMin => snoozed(TimeDelta::MIN),
                    Act::Error(true, m) => failed(o("kind one", m)), Act::Error(false, m) => failed(o("panic?", m)),
                    Act::PanicStr => failed(p("plain")), Act::PanicString(m) => failed(p(&format!("{m}!"))), Act::PanicLate => failed(p("late")),
                    Act::PanicAny => match c { Call::Retryable(_, t, x) => attempt < max && x.error_type == ErrorType::Panic && in_time(t, delay(s.backoff_ms)), Call::Discarded(_, x) => attempt >= max && x.error_type == ErrorType::Panic, _ => false },
                    Act::Hang => match c { Call::Retryable(_, t, x) => attempt < max && x.error_type == ErrorType::Timeout && in_time(t, delay(s.backoff_ms)), Call::Discarded(_, x) => attempt >= max && x.error_type == ErrorType::Timeout, _ => false },
                };
                let limits = matches!((c, attempt < max), (Call::Retryable(..), false) | (Call::Discarded(..), true));
                if !ok && (prop == "C01" || limits) { out.fail("outcome", "the recorded transition does not match the outcome", inp); }
            }
            let extra: Vec<_> = calls.iter().filter(|c| c.1.id().is_some_and(|i| scripts.iter().all(|s| s.0 != i))).collect();
            if prop == "C01" { out.check(extra.is_empty(), "outcome", "a transition was recorded for a job that was not executed", extra); }
            if out.enough() { return; }
        }
    }
}

static RUNS: Mutex<Vec<i32>> = Mutex::new(vec![]);
#[derive(Serialize, Deserialize, Clone)]
struct Plan { snooze_at: Vec<usize> }
struct Fails;
#[async_trait]
impl Executor for Fails {
    type Data = Plan; type Metadata = ();
    const NAME: &'static str = "fails";
    async fn execute(job: Job<Plan, ()>) -> ExecutionResult {
        let id = i32::from(job.id);
        let k = { let mut r = RUNS.lock().unwrap(); r.push(id); r.iter().filter(|x| **x == id).count() };
        if job.data.snooze_at.contains(&k) { return ExecutionResult::Snooze { delay: TimeDelta::zero() }; }
        if k % 2 == 0 { panic!("fails") }
        Failed(true, "f".into()).into()
    }
    fn backoff(_: &Job<Plan, ()>) -> TimeDelta { TimeDelta::zero() }
}
/// C02: a failing job runs exactly as often as permitted, snoozes and reruns included
pub async fn attempts(out: &mut Out) {
    quiet_panics();
    let b = InMemoryBackend::new();
    let rx = Rexecutor::new(b.clone()).with_executor::<Fails>();
    let mut want = vec![];
    for max in 1..5u16 { for snoozes in [vec![], vec![1], vec![1, 2], vec![2, 3]] {
        let runs = |max: usize| { let mut runs = 0; let mut used = 0; while used < max { runs += 1; if !snoozes.contains(&runs) { used += 1; } } runs };
        let runs = (runs(max as usize), runs(max as usize + 1));
        let id = Fails::builder().with_data(Plan { snooze_at: snoozes.clone() }).with_max_attempts(max).enqueue_to_backend(&b).await.unwrap();
        want.push((i32::from(id), runs, max, snoozes));
    } }
    let settle = |b: InMemoryBackend, n: usize| async move {
        let end = std::time::Instant::now() + Duration::from_secs(15);
        loop {
            let js = crate::mem::all(&b).await;
            if (js.iter().all(|j| j.status == JobStatus::Discarded) && js.len() == n) || std::time::Instant::now() > end { return js; }
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
    };
    let js = settle(b.clone(), want.len()).await;
    tokio::time::sleep(Duration::from_millis(150)).await;
    for (id, runs, max, sn) in &want {
        out.case();
        let got = RUNS.lock().unwrap().iter().filter(|x| **x == *id).count();
        out.check(got == runs.0, "attempts", "a failing job was not run exactly as often as permitted", ("runs", got, "expected", runs.0, "limit", max, "snoozed at", sn, js.iter().find(|j| j.id == *id)));
    }
    for (id, ..) in &want { let _ = Fails::rerun_job_on_backend((*id).into(), &b).await; }
    let _ = settle(b.clone(), want.len()).await;
    tokio::time::sleep(Duration::from_millis(150)).await;
    for (id, runs, max, sn) in &want {
        out.case();
        let got = RUNS.lock().unwrap().iter().filter(|x| **x == *id).count();
        out.check(got == runs.1, "attempts", "a rerun did not permit exactly one attempt more", ("runs", got, "expected", runs.1, "limit", max, "snoozed at", sn));
    }
    rx.graceful_shutdown();
}

/// the execution has ended: it returned or its future was dropped
struct Slot(usize);
impl Drop for Slot { fn drop(&mut self) { NOW[self.0].fetch_sub(1, Ordering::SeqCst); } }
static NOW: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
static TOP: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];
static SEEN: Mutex<Vec<(usize, i32)>> = Mutex::new(vec![]);
macro_rules! counted { ($n:ident, $i:expr, $name:expr, $conc:expr, $timeout:expr) => {
    struct $n;
    #[async_trait]
    impl Executor for $n {
        type Data = u64; type Metadata = ();
        const NAME: &'static str = $name; const MAX_CONCURRENCY: Option<usize> = $conc;
        async fn execute(job: Job<u64, ()>) -> ExecutionResult {
            let k = NOW[$i].fetch_add(1, Ordering::SeqCst) + 1; TOP[$i].fetch_max(k, Ordering::SeqCst);
            SEEN.lock().unwrap().push(($i, job.id.into()));
            let slot = Slot($i);
            tokio::time::sleep(Duration::from_millis(job.data)).await;
            drop(slot);
            if job.data % 5 == 1 { return Failed(true, String::new()).into(); }
            ExecutionResult::Done
        }
        fn timeout(_: &Job<u64, ()>) -> Option<Duration> { $timeout }
    }
} }
counted!(C1, 0, "c1", Some(1), None);
counted!(C2, 1, "c2", Some(2), Some(Duration::from_millis(120)));
counted!(C3, 2, "c3", Some(3), None);
counted!(CN, 3, "cn", None, None);

/// C25: never more at once than the limit; every offered job once
pub async fn limits(seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed);
    let mut rx = Rexecutor::new(Rec::new());
    let mut keep = vec![];
    for k in 0..4 {
        let rec = Rec::new();
        let items: Vec<_> = (0..30).map(|i| {
            if rng.one_in(8) { Ok(job(5000 + i, "x", serde_json::json!("bad"), 1, 3)) } else { Ok(job(i, ["c1", "c2", "c3", "cn"][k], serde_json::json!(if k == 1 && rng.one_in(3) { 4000 } else { 3 + rng.below(12) }), 1, 3)) }
        }).collect();
        let ids: Vec<i32> = items.iter().filter_map(|x: &Result<Stored, BackendError>| x.as_ref().ok().map(|j| j.id)).filter(|i| *i < 5000).collect();
        rec.offer(futures::stream::iter(items).chain(futures::stream::pending()));
        let r = Rexecutor::new(rec.clone());
        let r = match k { 0 => r.with_executor::<C1>(), 1 => r.with_executor::<C2>(), 2 => r.with_executor::<C3>(), _ => r.with_executor::<CN>() };
        keep.push((k, rec, ids, r));
    }
    let total: usize = keep.iter().map(|x| x.2.len()).sum();
    let end = std::time::Instant::now() + Duration::from_secs(15);
    while keep.iter().map(|x| x.1.calls().iter().filter(|c| c.1.id().is_some()).count()).sum::<usize>() < total && std::time::Instant::now() < end { tokio::time::sleep(Duration::from_millis(10)).await; }
    tokio::time::sleep(Duration::from_millis(60)).await;
    let seen = SEEN.lock().unwrap().clone();
    for (k, _, ids, r) in keep {
        out.case();
        let top = TOP[k].load(Ordering::SeqCst);
        if k < 3 { out.check(top <= k + 1, "concurrency", "more jobs were executed at once than the limit allows", ("limit", k + 1, "at once", top)); }
        else { out.check(top > 3, "concurrency", "jobs of an executor without limit were not executed concurrently", top); }
        for id in ids { let n = seen.iter().filter(|x| **x == (k, id)).count(); out.check(n == 1, "concurrency", "an offered job was not executed exactly once", ("executor", k, "job", id, "times", n)); }
        rx = rx; r.graceful_shutdown();
    }
    rx.graceful_shutdown();
}

struct Tick;
#[async_trait]
impl Executor for Tick {
    type Data = String; type Metadata = ();
    const NAME: &'static str = "tick"; const MAX_ATTEMPTS: u16 = 7;
    async fn execute(job: Job<String, ()>) -> ExecutionResult {
        STARTED.lock().unwrap().push(job.id.into());
        if job.data == "slow" { tokio::time::sleep(Duration::from_millis(400)).await; }
        ExecutionResult::Done
    }
}
static STARTED: Mutex<Vec<i32>> = Mutex::new(vec![]);
fn every_second() -> cron::Schedule { "* * * * * *".parse().unwrap() }

/// C21: each tick requests exactly one job
pub async fn cron_ticks(out: &mut Out) {
    let mut runs = vec![];
    for k in 0..4usize {
        let rec = Rec::new().failing(move |c| k == 1 && matches!(c, Call::Enqueue(..)));
        let data = ["same", "same", "other", "same"][k].to_string();
        let r = Rexecutor::new(rec.clone());
        let r = if k == 3 {
            let tz = FixedOffset::east_opt(5 * 3600).unwrap();
            let h = Utc::now().with_timezone(&tz).hour();
            r.with_cron_executor_for_timezone::<Tick, _>(format!("* * {},{} * * *", h, (h + 1) % 24).parse().unwrap(), data.clone(), tz)
        } else { r.with_cron_executor::<Tick>(every_second(), data.clone()) };
        runs.push((k, rec, data, r));
    }
    let from = Utc::now();
    tokio::time::sleep(Duration::from_millis(4300)).await;
    let mut texts = vec![];
    for (k, rec, data, r) in runs {
        let to = Utc::now();
        r.graceful_shutdown();
        let calls: Vec<_> = rec.calls().into_iter().filter(|c| !matches!(c.1, Call::Subscribe(_))).collect();
        let mut ticks: Vec<DateTime<Utc>> = vec![];
        for (_, c) in &calls {
            out.case();
            match c {
                Call::Enqueue(e, d, _, max, at, tags, prio, uc) => {
                    out.check(e == "tick" && *d == serde_json::json!(data) && tags.is_empty() && *prio == 0 && *max == 7, "tick", "the request is not that of the registered job", c);
                    out.check(at.nanosecond() == 0, "tick", "the request is not scheduled at the tick", c);
                    out.check(uc.contains("executor: true") && uc.contains(&format!("duration: Some({:?})", TimeDelta::zero())) && uc.contains("key: Some("), "tick", "the criteria are not executor, data and a zero-width window", uc);
                    ticks.push(*at); texts.push((k, uc.clone()));
                }
                c => out.fail("tick", "another call was made", c),
            }
        }
        let n = ticks.len();
        out.check(ticks.windows(2).all(|w| w[1] - w[0] == TimeDelta::seconds(1)), "tick", "a tick was requested twice or left out", (k, &ticks));
        out.check(n >= 3 && ticks.first().is_some_and(|t| *t - from <= TimeDelta::seconds(2)) && ticks.last().is_some_and(|t| to - *t <= TimeDelta::milliseconds(2500)), "tick", "ticks were left out", (k, &ticks, from, to));
    }
    let of = |k: usize| texts.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
    let first = of(0).first().cloned();
    out.check(of(0).iter().chain(of(1).iter()).chain(of(3).iter()).all(|t| Some(t) == first.as_ref()), "tick", "equal data does not give equal criteria", &texts);
    out.check(of(2).first() != first.as_ref(), "tick", "different data gives equal criteria", &texts);
}

/// C14: configured pruners and their runs
pub async fn pruner_runs(out: &mut Out) {
    let mut runs = vec![];
    for (k, conc) in [None, Some(1), Some(2), Some(10)].into_iter().enumerate() {
        let rec = Rec::new().failing(move |c| k == 0 && matches!(c, Call::Prune(s) if s.contains("Cancelled")));
        *rec.0.delay.lock().unwrap() = Duration::from_millis(30);
        let age = |d, s| Pruner::max_age(TimeDelta::seconds(d), s);
        let list = vec![age(1, JobStatus::Complete), age(2, JobStatus::Cancelled)];
        let cfg = PrunerConfig::new(every_second()).with_max_concurrency(conc)
            .with_pruner(age(3, JobStatus::Discarded))
            .with_pruners(list)
            .with_pruner(Pruner::max_length(4, JobStatus::Complete).only::<Free>().and::<One>())
            .with_pruner(Pruner::max_length(5, JobStatus::Scheduled).except::<Block>().and::<Tick>().and::<Free>())
            .with_pruners(vec![age(6, JobStatus::Retryable).except::<One>(), age(7, JobStatus::Executing).except::<Free>()])
            .with_pruner(age(1, JobStatus::Complete));
        let spec = |status, prune_by, executors| format!("{:?}", PruneSpec { status, prune_by, executors });
        let a = |d| PruneBy::MaxAge(TimeDelta::seconds(d));
        let want = vec![spec(JobStatus::Discarded, a(3), Spec::Except(vec![])), spec(JobStatus::Complete, a(1), Spec::Except(vec![])), spec(JobStatus::Cancelled, a(2), Spec::Except(vec![])),
            spec(JobStatus::Complete, PruneBy::MaxLength(4), Spec::Only(vec!["free", "one"])), spec(JobStatus::Scheduled, PruneBy::MaxLength(5), Spec::Except(vec!["block", "tick", "free"])),
            spec(JobStatus::Retryable, a(6), Spec::Except(vec!["one"])), spec(JobStatus::Executing, a(7), Spec::Except(vec!["free"])), spec(JobStatus::Complete, a(1), Spec::Except(vec![]))];
        runs.push((conc, rec.clone(), want, Rexecutor::new(rec).with_job_pruner(cfg)));
    }
    // observe in the middle of a second
    let now = Utc::now();
    let wait = 3 * 1000 + (1700 - now.timestamp_subsec_millis() as i64 % 1000) % 1000;
    tokio::time::sleep(Duration::from_millis(wait as u64)).await;
    for (conc, rec, want, r) in runs {
        out.case();
        let calls = rec.calls();
        let took = Utc::now() - now;
        r.graceful_shutdown();
        out.check(calls.len() % want.len() == 0, "runs", "a run does not make one call per pruner", (conc, calls.len(), want.len()));
        let runs = calls.len() / want.len();
        out.check(runs as i64 >= took.num_seconds() - 1 && runs as i64 <= took.num_seconds() + 2, "runs", "scheduled runs were left out or repeated", (conc, runs, took));
        for (i, part) in calls.chunks(want.len()).enumerate() {
            let mut got: Vec<String> = part.iter().map(|c| match &c.1 { Call::Prune(s) => s.clone(), c => format!("{c:?}") }).collect();
            let mut w = want.clone();
            got.sort(); w.sort();
            if got != w { out.fail("runs", "a run does not prune as configured", (conc, i, got, w)); break; }
            if conc == Some(1) { let seq: Vec<String> = part.iter().map(|c| match &c.1 { Call::Prune(s) => s.clone(), c => format!("{c:?}") }).collect(); out.check(seq == want, "runs", "the pruners are not run in the order they were added", seq); }
        }
        let top = rec.0.running.lock().unwrap().1;
        if let Some(l) = conc { out.check(top <= l, "runs", "more prune calls at once than configured", (l, top)); }
    }
}

/// C26: after shutdown nothing is started. Real threads: each trial has a runtime of its own that is blocked over the tick.
pub fn shutdown(seed: u64, out: &mut Out) {
    let mut rng = Rng::new(seed);
    // job runners: jobs are ready when shutdown is requested
    for t in 0..60 {
        out.case();
        let guard = rng.coin();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let before = STARTED.lock().unwrap().len();
        let (rec, started) = rt.block_on(async {
            let rec = Rec::new();
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<Stored>();
            let s = futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|j| (Ok(j), rx)) });
            rec.offer(s);
            let r = Rexecutor::new(rec.clone()).with_executor::<Tick>();
            let slow = t % 10 == 0;
            if slow { tx.send(job(1, "tick", serde_json::json!("slow"), 1, 3)).unwrap(); tokio::time::sleep(Duration::from_millis(30)).await; }
            else { tokio::task::yield_now().await; tokio::task::yield_now().await; }
            let running = STARTED.lock().unwrap().len();
            for i in 2..8 { tx.send(job(i, "tick", serde_json::json!("fast"), 1, 3)).unwrap(); }
            if guard { drop(r.drop_guard()); } else { r.graceful_shutdown(); }
            tokio::time::sleep(Duration::from_millis(if slow { 900 } else { 20 })).await;
            (rec, (running - before, STARTED.lock().unwrap().len() - running))
        });
        out.check(started.1 == 0, "shutdown", "a job was started after shutdown", (guard, started));
        let done = rec.calls().iter().filter(|c| c.1 == Call::Complete(1)).count();
        out.check(done == started.0, "shutdown", "a job executing at shutdown was not recorded", (guard, started, rec.calls()));
        if out.enough() { return; }
    }
    // cron and pruner: the tick has come when shutdown is requested
    let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || {
        let mut bad = vec![]; let mut n = 0;
        for _ in 0..4 {
            n += 1;
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async {
                let rec = Rec::new();
                let r = Rexecutor::new(rec.clone());
                let r = if k % 2 == 0 { r.with_cron_executor::<Tick>(every_second(), "d".into()) } else { r.with_job_pruner(PrunerConfig::new(every_second()).with_pruner(Pruner::max_length(1, JobStatus::Complete))) };
                for _ in 0..5 { tokio::task::yield_now().await; }
                let count = |rec: &Rec| rec.calls().iter().filter(|c| !matches!(c.1, Call::Subscribe(_))).count();
                // block the runtime over the tick, then request shutdown
                std::thread::sleep(Duration::from_millis(1040));
                let c = count(&rec);
                if k % 4 < 2 { r.graceful_shutdown(); } else { drop(r.drop_guard()); }
                tokio::time::sleep(Duration::from_millis(30)).await;
                if count(&rec) != c { bad.push((k, rec.calls().len())); }
            });
        }
        // and nothing later
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            n += 1;
            let rec = Rec::new();
            let r = Rexecutor::new(rec.clone());
            let r = if k % 2 == 0 { r.with_cron_executor::<Tick>(every_second(), "d".into()) } else { r.with_job_pruner(PrunerConfig::new(every_second()).with_pruner(Pruner::max_length(1, JobStatus::Complete))) };
            tokio::time::sleep(Duration::from_millis(1100 + 100 * k as u64)).await;
            if k % 4 < 2 { r.graceful_shutdown(); } else { drop(r.drop_guard()); }
            let c = rec.calls().len();
            tokio::time::sleep(Duration::from_millis(2300)).await;
            if rec.calls().len() > c { bad.push((100 + k, rec.calls().len())); }
        });
        (n, bad)
    })).collect();
    for h in hs { let (n, bad) = h.join().unwrap(); out.n += n; for b in bad { out.fail("shutdown", "a cron or pruner run took place after shutdown", b); } }
}

/// for C05: the in-memory backend is checked in mem.rs
#[allow(dead_code)]
pub fn unused(_: &dyn Backend) {}
