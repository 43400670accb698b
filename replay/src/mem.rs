//! The in-memory backend against the specification, history by history.
use crate::util::*;
use chrono::{DateTime, TimeDelta, Utc};
use futures::{FutureExt, StreamExt};
use rexecutor::backend::{Backend, BackendError, EnqueuableJob, ExecutionError, Job, Query, memory::InMemoryBackend};
use rexecutor::job::uniqueness_criteria::{Replace, Resolution, UniquenessCriteria};
use rexecutor::job::{JobError, JobId, JobStatus};
use rexecutor::pruner::{PruneBy, PruneSpec, Spec};

pub async fn all(b: &InMemoryBackend) -> Vec<Job> { b.query(Query::And(vec![])).await.unwrap() }

fn between(t: DateTime<Utc>, lo: DateTime<Utc>, hi: DateTime<Utc>) -> bool { t >= lo && t <= hi }
/// the time a step took place: real times in [lo, hi] count as the model's lo
fn settle(got: &mut DateTime<Utc>, want: DateTime<Utc>, lo: DateTime<Utc>, hi: DateTime<Utc>) { if want == lo && between(*got, lo, hi) { *got = lo; } }
fn settle_o(got: &mut Option<DateTime<Utc>>, want: Option<DateTime<Utc>>, lo: DateTime<Utc>, hi: DateTime<Utc>) {
    if let (Some(g), Some(w)) = (got.as_mut(), want) { settle(g, w, lo, hi) }
}
pub fn same(got: &[Job], want: &[Job], lo: DateTime<Utc>, hi: DateTime<Utc>) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| {
        let mut g = g.clone();
        settle(&mut g.inserted_at, w.inserted_at, lo, hi);
        settle(&mut g.scheduled_at, w.scheduled_at, lo, hi);
        settle_o(&mut g.attempted_at, w.attempted_at, lo, hi);
        settle_o(&mut g.completed_at, w.completed_at, lo, hi);
        settle_o(&mut g.cancelled_at, w.cancelled_at, lo, hi);
        settle_o(&mut g.discarded_at, w.discarded_at, lo, hi);
        for (x, y) in g.errors.iter_mut().zip(&w.errors) { settle(&mut x.recorded_at, y.recorded_at, lo, hi); }
        g == *w
    })
}

pub fn request(rng: &mut Rng, t0: DateTime<Utc>) -> EnqueuableJob<'static> {
    EnqueuableJob { executor: rng.pick(&EXECS).to_string(), data: value(rng), metadata: value(rng), max_attempts: *rng.pick(&[1, 3, 65535, 0]),
        scheduled_at: time(rng, t0), tags: tags(rng), priority: *rng.pick(&[0, 1, 2, 65535]), uniqueness_criteria: None }
}
pub fn criteria(rng: &mut Rng) -> UniquenessCriteria<'static> {
    UniquenessCriteria {
        key: if rng.coin() { Some(rng.below(3) as i64 - 1) } else { None },
        executor: rng.coin(),
        duration: if rng.coin() { None } else { Some(*rng.pick(&[TimeDelta::zero(), TimeDelta::seconds(30), TimeDelta::seconds(90), TimeDelta::seconds(-30), TimeDelta::seconds(90), TimeDelta::days(200), TimeDelta::MAX])) },
        statuses: if rng.coin() { &JobStatus::ALL } else { leak(statuses(rng)) },
        on_conflict: if rng.coin() { Resolution::DoNothing } else {
            Resolution::Replace(Replace { scheduled_at: rng.coin(), data: rng.coin(), metadata: rng.coin(), priority: rng.coin(), max_attempts: rng.coin(),
                for_statuses: if rng.coin() { &JobStatus::ALL } else { leak(statuses(rng)) } })
        },
    }
}

#[derive(Debug, Clone)]
enum Op { Enqueue(EnqueuableJob<'static>), Complete(i32), Retry(i32, DateTime<Utc>, ExecutionError), Discard(i32, ExecutionError), Cancel(i32, ExecutionError), Snooze(i32, DateTime<Utc>), Rerun(i32), Update(Job), Claim(&'static str), Query(Query<'static>), Prune(PruneSpec) }

fn finished(s: JobStatus) -> bool { matches!(s, JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded) }

/// runs histories and reports what goes wrong in the operations that `prop` is about
pub async fn histories(prop: &str, seed: u64, n: usize, out: &mut Out) {
    for h in 0..n {
        let mut rng = Rng::new(seed * 1_000_003 + h as u64);
        let b = InMemoryBackend::new().paused();
        let t0 = Utc::now();
        let mut jobs: Vec<Job> = vec![];
        let mut keys: Vec<(i32, Option<i64>)> = vec![];
        let mut log: Vec<String> = vec![];
        let len = 6 + rng.below(24);
        for step in 0..len {
            let id = if jobs.is_empty() || rng.one_in(6) { rng.below(40) as i32 } else { rng.pick(&jobs).id };
            let err = ExecutionError { error_type: error_type(&mut rng), message: format!("m{step}") };
            let k = if step < 4 { rng.below(3) } else { rng.below(15) };
            let op = match k {
                0 => Op::Enqueue(request(&mut rng, t0)),
                1 | 2 => { let mut r = request(&mut rng, t0); r.uniqueness_criteria = Some(criteria(&mut rng)); Op::Enqueue(r) }
                3 => Op::Complete(id), 4 => Op::Retry(id, time(&mut rng, t0), err), 5 => Op::Discard(id, err), 6 => Op::Cancel(id, err), 7 => Op::Snooze(id, time(&mut rng, t0)), 8 => Op::Rerun(id),
                9 | 10 => Op::Update(stored(&mut rng, id, t0)),
                11 | 12 => Op::Claim(rng.pick(&EXECS)),
                13 => Op::Query(query(&mut rng, 3, t0)),
                _ => Op::Prune(PruneSpec { status: *rng.pick(&JobStatus::ALL),
                    prune_by: if rng.coin() { PruneBy::MaxLength(rng.below(4) as u32) } else { PruneBy::MaxAge(*rng.pick(&[TimeDelta::zero(), TimeDelta::seconds(30), TimeDelta::seconds(90), TimeDelta::days(30), TimeDelta::seconds(-30)])) },
                    executors: { let l = (0..rng.below(4)).map(|_| *rng.pick(&EXECS)).collect(); if rng.coin() { Spec::Only(l) } else { Spec::Except(l) } } }),
            };
            log.push(format!("{op:?}"));
            let lo = Utc::now();
            let mut want = jobs.clone();
            let pos = |id: i32| jobs.iter().position(|j| j.id == id);
            let unit = |r: Result<(), BackendError>| r.map_err(|e| match e { BackendError::JobNotFound(i) => Some(i32::from(i)), _ => None });
            // what the specification prescribes, what happened, and which property it belongs to
            let mut about: &[&str] = &["C03"];
            let mut ok = true;
            let mut told = String::new();
            match op.clone() {
                Op::Enqueue(r) => {
                    let u = r.uniqueness_criteria.clone();
                    let hit = u.as_ref().and_then(|u| jobs.iter().position(|j| {
                        let key = keys.iter().find(|x| x.0 == j.id).and_then(|x| x.1);
                        u.key.is_none_or(|k| key == Some(k)) && (!u.executor || j.executor == r.executor) && u.statuses.contains(&j.status)
                            && u.duration.is_none_or(|d| (j.scheduled_at - lo).abs() < d)
                    }));
                    let got = b.enqueue(r.clone()).await;
                    about = match (&u, hit) { (None, _) => &["C06"], (_, None) => &["C07"], _ => &["C07", "C08"] };
                    match hit {
                        None => {
                            match got {
                                Ok(id) => {
                                    let id = i32::from(id);
                                    ok = jobs.iter().all(|j| j.id != id);
                                    keys.push((id, u.as_ref().and_then(|u| u.key)));
                                    want.push(Job { id, status: JobStatus::Scheduled, executor: r.executor, data: r.data, metadata: r.metadata, attempt: 0, max_attempts: r.max_attempts.into(), priority: r.priority.into(),
                                        tags: r.tags, errors: vec![], inserted_at: lo, scheduled_at: r.scheduled_at, attempted_at: None, completed_at: None, cancelled_at: None, discarded_at: None });
                                }
                                Err(e) => { ok = false; told = format!("{e:?}"); }
                            }
                        }
                        Some(i) => {
                            ok = matches!(&got, Ok(id) if i32::from(*id) == jobs[i].id);
                            told = format!("{got:?}, expected {}", jobs[i].id);
                            if let Some(Resolution::Replace(p)) = u.map(|u| u.on_conflict) {
                                about = &["C08"];
                                let w = &mut want[i];
                                if p.for_statuses.contains(&w.status) {
                                    if p.scheduled_at { w.scheduled_at = r.scheduled_at }
                                    if p.data { w.data = r.data }
                                    if p.metadata { w.metadata = r.metadata }
                                    if p.priority { w.priority = r.priority.into() }
                                    if p.max_attempts { w.max_attempts = r.max_attempts.into() }
                                }
                            } else { about = &["C07", "C08"]; }
                            if !ok { about = &["C07"]; }
                        }
                    }
                }
                Op::Complete(id) => {
                    let got = unit(b.mark_job_complete(id.into()).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = JobStatus::Complete; w.completed_at = Some(lo); }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Retry(id, t, e) => {
                    let got = unit(b.mark_job_retryable(id.into(), t, e.clone()).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = JobStatus::Retryable; w.scheduled_at = t; w.errors.push(JobError { attempt: w.attempt as u16, error_type: e.error_type, details: e.message, recorded_at: lo }); }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Discard(id, e) => {
                    let got = unit(b.mark_job_discarded(id.into(), e.clone()).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = JobStatus::Discarded; w.discarded_at = Some(lo); w.errors.push(JobError { attempt: w.attempt as u16, error_type: e.error_type, details: e.message, recorded_at: lo }); }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Cancel(id, e) => {
                    let got = unit(b.mark_job_cancelled(id.into(), e.clone()).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = JobStatus::Cancelled; w.cancelled_at = Some(lo); w.errors.push(JobError { attempt: w.attempt as u16, error_type: e.error_type, details: e.message, recorded_at: lo }); }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Snooze(id, t) => {
                    about = &["C03", "C02"];
                    let got = unit(b.mark_job_snoozed(id.into(), t).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = if w.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable }; w.scheduled_at = t; w.attempt -= 1; }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Rerun(id) => {
                    about = &["C03", "C02"];
                    let got = unit(b.rerun_job(id.into()).await);
                    if let Some(i) = pos(id) { let w = &mut want[i]; w.status = if w.attempt == 1 { JobStatus::Scheduled } else { JobStatus::Retryable }; w.max_attempts += 1; w.scheduled_at = lo; w.completed_at = None; w.cancelled_at = None; w.discarded_at = None; }
                    ok = got == pos(id).map(|_| ()).ok_or(Some(id)); told = format!("{got:?}");
                }
                Op::Update(j) => {
                    let got = unit(b.update_job(j.clone()).await);
                    if let Some(i) = pos(j.id) { want[i] = j.clone(); }
                    ok = got == pos(j.id).map(|_| ()).ok_or(Some(j.id)); told = format!("{got:?}");
                }
                Op::Claim(e) => {
                    about = &["C04"];
                    let mut s = b.subscribe_ready_jobs(e.into()).await;
                    let got = s.next().now_or_never().flatten();
                    let due = |j: &&Job| j.executor == e && matches!(j.status, JobStatus::Scheduled | JobStatus::Retryable) && j.scheduled_at <= lo;
                    let best = jobs.iter().filter(due).map(|j| (j.scheduled_at, j.priority)).min();
                    told = format!("{got:?}");
                    match got {
                        None => ok = best.is_none(),
                        Some(Err(_)) => ok = false,
                        Some(Ok(g)) => {
                            let i = pos(g.id).filter(|i| due(&&jobs[*i]) && Some((jobs[*i].scheduled_at, jobs[*i].priority)) == best);
                            match i {
                                None => ok = false,
                                Some(i) => {
                                    let w = &mut want[i];
                                    w.status = JobStatus::Executing; w.attempt += 1; w.attempted_at = Some(lo);
                                    ok = same(&[g], std::slice::from_ref(w), lo, Utc::now());
                                    about = &["C04", "C02"];
                                }
                            }
                        }
                    }
                }
                Op::Query(q) => {
                    about = &["C09"];
                    let got = b.query(q.clone()).await;
                    let w: Vec<i32> = jobs.iter().filter(|j| holds(&q, j)).map(|j| j.id).collect();
                    match got { Ok(g) => { let g: Vec<i32> = g.iter().map(|j| j.id).collect(); ok = g == w; told = format!("{g:?}, expected {w:?}"); } Err(e) => { ok = false; told = format!("{e:?}"); } }
                }
                Op::Prune(p) => {
                    about = &["C12"];
                    let got = b.prune_jobs(&p).await;
                    ok = got.is_ok();
                    let sel = |j: &Job| j.status == p.status && match &p.executors { Spec::Only(l) => l.contains(&j.executor.as_str()), Spec::Except(l) => !l.contains(&j.executor.as_str()) };
                    match p.prune_by {
                        PruneBy::MaxAge(d) => want.retain(|j| !(sel(j) && (j.scheduled_at - lo).abs() >= d)),
                        PruneBy::MaxLength(n) => {
                            // ties are free: adopt what was kept if it is a valid choice
                            let now = all(&b).await;
                            let kept: Vec<&Job> = now.iter().filter(|j| sel(j)).collect();
                            let gone: Vec<&Job> = jobs.iter().filter(|j| sel(j) && now.iter().all(|x| x.id != j.id)).collect();
                            let total = jobs.iter().filter(|j| sel(j)).count();
                            let better = |a: &Job, b: &Job| if finished(p.status) { a.scheduled_at > b.scheduled_at } else { a.scheduled_at < b.scheduled_at };
                            ok = ok && kept.len() == total.min(n as usize) && gone.iter().all(|g| kept.iter().all(|k| !better(g, k)));
                            let ids: Vec<i32> = gone.iter().map(|j| j.id).collect();
                            want.retain(|j| !ids.contains(&j.id));
                        }
                    }
                }
            }
            out.case();
            let now = all(&b).await;
            let hi = Utc::now();
            let good = ok && same(&now, &want, lo, hi);
            if !good && about.contains(&prop) {
                out.fail("history", &format!("{}: the outcome is not what the operation prescribes; {told}", log.last().unwrap()), (&log, "stored before", &jobs, "stored after", &now, "expected", &want));
                if out.enough() { return; }
            }
            if !good && matches!(op, Op::Enqueue(_)) && !about.contains(&prop) { break; }
            jobs = now;
            keys.retain(|k| jobs.iter().any(|j| j.id == k.0));
        }
    }
}

/// concurrent operations behave as if executed one after another
pub async fn concurrent(seed: u64, rounds: usize, out: &mut Out) {
    let t0 = Utc::now() - TimeDelta::minutes(5);
    let job = move |uc| EnqueuableJob { executor: "a".into(), data: serde_json::Value::Null, metadata: serde_json::Value::Null, max_attempts: 3, scheduled_at: t0, tags: vec![], priority: 0, uniqueness_criteria: uc };
    for r in 0..rounds {
        out.case();
        let b = InMemoryBackend::new().paused();
        // distinct ids
        let mut hs = vec![];
        for _ in 0..8 { let b = b.clone(); hs.push(tokio::spawn(async move { let mut v = vec![]; for _ in 0..40 { v.push(i32::from(b.enqueue(job(None)).await.unwrap())); } v })); }
        let mut ids = vec![];
        for h in hs { ids.extend(h.await.unwrap()); }
        let total = ids.len();
        ids.sort(); ids.dedup();
        out.check(ids.len() == total && all(&b).await.len() == total, "ids", "concurrent enqueues got the same id or were lost", (seed, r));
        // claims are disjoint
        let mut hs = vec![];
        for _ in 0..8 { let b = b.clone(); hs.push(tokio::spawn(async move { let mut s = b.subscribe_ready_jobs("a".into()).await; let mut v = vec![]; while let Some(Some(Ok(j))) = s.next().now_or_never() { v.push(j.id); } v })); }
        let mut got = vec![];
        for h in hs { match h.await { Ok(v) => got.extend(v), Err(e) => out.fail("claims", "concurrent claiming panicked", format!("{e:?}")) } }
        let n = got.len(); got.sort(); got.dedup();
        out.check(got.len() == n, "claims", "a job was handed out twice", (seed, r));
        out.check(all(&b).await.iter().filter(|j| got.contains(&j.id)).all(|j| j.attempt == 1 && j.status == JobStatus::Executing), "claims", "a claimed job is not executing its first attempt", (seed, r));
        // lifecycle changes are not lost
        let mut hs = vec![];
        let done: Vec<i32> = got.iter().copied().take(80).collect();
        for (i, id) in done.iter().copied().enumerate() {
            let b = b.clone();
            hs.push(tokio::spawn(async move { match i % 4 {
                0 => b.mark_job_complete(id.into()).await, 1 => b.mark_job_discarded(id.into(), ExecutionError { error_type: rexecutor::job::ErrorType::Panic, message: "m".into() }).await,
                2 => b.rerun_job(id.into()).await, _ => b.mark_job_snoozed(id.into(), t0).await } }));
        }
        for h in hs { if !matches!(h.await, Ok(Ok(()))) { out.fail("changes", "a concurrent lifecycle change failed", (seed, r)); } }
        let now = all(&b).await;
        for (i, id) in done.iter().enumerate() {
            let j = now.iter().find(|j| j.id == *id);
            let ok = j.is_some_and(|j| match i % 4 { 0 => j.status == JobStatus::Complete, 1 => j.status == JobStatus::Discarded && j.errors.len() == 1, 2 => j.max_attempts == 4, _ => j.attempt == 0 });
            out.check(ok, "changes", "a concurrent lifecycle change was lost", (seed, r, i % 4, j));
        }
        // unique jobs are inserted once
        let b = InMemoryBackend::new().paused();
        let mut hs = vec![];
        let bar = std::sync::Arc::new(tokio::sync::Barrier::new(8));
        for t in 0..8u64 {
            let (b, bar) = (b.clone(), bar.clone());
            hs.push(tokio::spawn(async move {
                bar.wait().await;
                for k in 0..60i64 {
                    let u = UniquenessCriteria { key: Some(k), executor: true, duration: None, statuses: &JobStatus::ALL, on_conflict: Resolution::DoNothing };
                    if t == 7 && k % 10 == 0 { let _ = b.prune_jobs(&PruneSpec { status: JobStatus::Complete, prune_by: PruneBy::MaxLength(1), executors: Spec::Except(vec![]) }).await; }
                    b.enqueue(job(Some(u))).await.unwrap();
                }
            }));
        }
        for h in hs { h.await.unwrap(); }
        out.check(all(&b).await.len() == 60, "unique", "concurrent unique enqueues inserted a duplicate or lost a job", (seed, r, all(&b).await.len()));
        if out.enough() { return; }
    }
}

fn plain(e: &str, t: DateTime<Utc>) -> EnqueuableJob<'static> {
    EnqueuableJob { executor: e.into(), data: serde_json::Value::Null, metadata: serde_json::Value::Null, max_attempts: 3, scheduled_at: t, tags: vec![], priority: 0, uniqueness_criteria: None }
}

/// streams wake up for new work; the waits are far below the 30 seconds of the fallback
pub async fn streams(out: &mut Out) {
    let sec = std::time::Duration::from_secs;
    let err = || ExecutionError { error_type: rexecutor::job::ErrorType::Panic, message: "m".into() };
    // each operation that makes a job ready wakes all streams of its executor
    for op in ["enqueue", "unique", "replace", "retry", "snooze", "rerun", "update", "notify"] {
        for two in [false, true] {
            out.case();
            let mut b = InMemoryBackend::new();
            let far = Utc::now() + TimeDelta::hours(5);
            let u = UniquenessCriteria { key: Some(1), executor: true, duration: None, statuses: &JobStatus::ALL, on_conflict: Resolution::Replace(Replace::scheduled_at()) };
            let mut ids = vec![];
            for k in 0..2 { let mut j = plain("a", far); j.uniqueness_criteria = Some(UniquenessCriteria { key: Some(k), ..u.clone() }); ids.push(i32::from(b.enqueue(j).await.unwrap())); }
            if op == "notify" { b = b.paused(); }
            let n = if two { 2 } else { 1 };
            let mut hs = vec![];
            // a dropped stream and one of another executor must not matter
            drop(b.subscribe_ready_jobs("a".into()).await);
            let mut other = b.subscribe_ready_jobs("b".into()).await;
            let oh = tokio::spawn(async move { other.next().await.map(|r| r.map(|j| j.id)) });
            for _ in 0..n { let mut s = b.subscribe_ready_jobs("a".into()).await; hs.push(tokio::spawn(async move { s.next().await })); }
            tokio::time::sleep(std::time::Duration::from_millis(60)).await;
            let now = Utc::now() - TimeDelta::seconds(1);
            for k in 0..n {
                let id: JobId = ids[k].into();
                match op {
                    "enqueue" | "notify" => { b.enqueue(plain("a", now)).await.unwrap(); }
                    "unique" => { let mut j = plain("a", now); j.uniqueness_criteria = Some(UniquenessCriteria { key: Some(9 + k as i64), ..u.clone() }); b.enqueue(j).await.unwrap(); }
                    "replace" => { let mut j = plain("a", now); j.uniqueness_criteria = Some(UniquenessCriteria { key: Some(k as i64), ..u.clone() }); b.enqueue(j).await.unwrap(); }
                    "retry" => b.mark_job_retryable(id, now, err()).await.unwrap(),
                    "snooze" => b.mark_job_snoozed(id, now).await.unwrap(),
                    "rerun" => b.rerun_job(id).await.unwrap(),
                    _ => { let mut j = all(&b).await.into_iter().find(|j| j.id == ids[k]).unwrap(); j.scheduled_at = now; b.update_job(j).await.unwrap(); }
                }
            }
            if op == "notify" { b.notify_all().unwrap(); }
            for h in hs {
                match tokio::time::timeout(sec(8), h).await { Ok(Ok(Some(Ok(_)))) => (), r => out.fail("wake", "a waiting stream was not woken for a job that became ready", (op, n, format!("{:?}", r.is_err()))) }
            }
            out.check(!oh.is_finished(), "wake", "a stream offered a job of another executor", op);
            oh.abort();
        }
    }
    // a waiting stream offers a job when it is due, no earlier and not much later
    for ms in [250i64, 700] {
        out.case();
        let b = InMemoryBackend::new();
        let mut s = b.subscribe_ready_jobs("a".into()).await;
        let at = Utc::now() + TimeDelta::milliseconds(ms);
        b.enqueue(plain("a", at)).await.unwrap();
        b.enqueue(plain("a", at + TimeDelta::hours(1))).await.unwrap();
        match tokio::time::timeout(sec(8), s.next()).await {
            Ok(Some(Ok(j))) => out.check(Utc::now() >= at - TimeDelta::milliseconds(20) && j.scheduled_at == at, "due", "a job was offered too early", (at, Utc::now(), j)),
            r => out.fail("due", "a due job was not offered", (at, r.is_err())),
        }
    }
}

/// with simulated time: never waits longer than 30 seconds
pub fn oversleep(out: &mut Out) {
    for (first, text) in [(None, "no job"), (Some(TimeDelta::hours(3)), "a job due in three hours"), (Some(TimeDelta::days(4000)), "a job due in years")] {
        out.case();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let late = rt.block_on(async {
            let b = InMemoryBackend::new().paused();
            if let Some(d) = first { b.enqueue(plain("a", Utc::now() + d)).await.unwrap(); }
            let mut s = b.subscribe_ready_jobs("a".into()).await;
            let _ = s.next().now_or_never();
            let c = b.clone();
            let t = tokio::time::Instant::now();
            let h = tokio::spawn(async move { let r = s.next().await; (r, tokio::time::Instant::now()) });
            tokio::time::sleep(std::time::Duration::from_millis(5)).await;
            c.enqueue(plain("a", Utc::now() - TimeDelta::seconds(1))).await.unwrap();
            match tokio::time::timeout(std::time::Duration::from_secs(100_000), h).await {
                Ok(Ok((Some(Ok(_)), e))) => e - t,
                _ => std::time::Duration::from_secs(100_000),
            }
        });
        out.check(late <= std::time::Duration::from_millis(30_100), "oversleep", "a stream slept longer than 30 seconds while a job was due", (text, late));
    }
}
