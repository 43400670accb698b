//! C28: the enqueued-job assertion against a backend with known contents.
use crate::util::*;
use async_trait::async_trait;
use chrono::{DateTime, TimeDelta, Utc};
use futures::FutureExt;
use rexecutor::assert_enqueued;
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::prelude::*;
use std::panic::AssertUnwindSafe;

macro_rules! ex { ($t:ident, $n:literal) => {
    pub struct $t;
    #[async_trait]
    impl Executor for $t {
        type Data = u8; type Metadata = u8;
        const NAME: &'static str = $n;
        async fn execute(_: Job<u8, u8>) -> ExecutionResult { ExecutionResult::Done }
    }
} }
ex!(First, "first");
ex!(Second, "second");

#[derive(Clone, Debug)]
struct J { second: bool, data: u8, meta: u8, tags: Vec<&'static str>, at: DateTime<Utc> }

async fn add<B: rexecutor::backend::Backend + Send + Sync>(b: &B, j: &J) {
    let r = if j.second { Second::builder().with_data(j.data).with_metadata(j.meta).with_tags(j.tags.clone()).schedule_at(j.at).enqueue_to_backend(b).await }
        else { First::builder().with_data(j.data).with_metadata(j.meta).with_tags(j.tags.clone()).schedule_at(j.at).enqueue_to_backend(b).await };
    let _ = r;
}

fn job(rng: &mut Rng, t0: DateTime<Utc>) -> J {
    J { second: rng.coin(), data: rng.below(2) as u8, meta: rng.below(2) as u8, tags: [&[][..], &["a"], &["b"], &["a", "b"]][rng.below(4)].to_vec(), at: t0 + TimeDelta::hours(1 + rng.below(3) as i64) }
}

pub async fn assertions(seed: u64, n: usize, out: &mut Out) {
    let all = InMemoryBackend::new().paused();
    if Rexecutor::new(all.clone()).set_global_backend().is_err() { return; }
    let mut global_jobs: Vec<J> = vec![];
    for c in 0..n {
        if out.enough() { return; }
        let mut rng = Rng::new(seed * 131 + c as u64);
        let t0 = Utc::now();
        let backend = InMemoryBackend::new().paused();
        let jobs: Vec<J> = (0..rng.below(6)).map(|_| job(&mut rng, t0)).collect();
        for j in &jobs { add(&backend, j).await; }
        if c % 8 == 0 && global_jobs.len() < 12 { let j = job(&mut rng, t0); add(&all, &j).await; global_jobs.push(j); }
        let (d, m) = (rng.below(2) as u8, rng.below(2) as u8);
        let tags = [["a", "b"], ["a", "a"], ["b", "b"]][rng.below(3)];
        let g0 = global_jobs.first().map(|j| j.at).unwrap_or(t0);
        let at = if rng.one_in(3) { g0 } else { t0 + TimeDelta::hours(1 + rng.below(3) as i64) };
        // exact: None when the assertion is for one job, or without a count
        macro_rules! case { ($jobs:expr, $exact:expr, [$($call:tt)*], |$j:ident| $p:expr) => {{
            out.case();
            let count = $jobs.iter().filter(|$j| $p).count();
            let passed = AssertUnwindSafe(async { assert_enqueued!($($call)*); }).catch_unwind().await.is_ok();
            let exact: Option<usize> = $exact;
            let want: Option<bool> = match (exact, count) { (Some(n), _) => Some(count == n), (None, 0) => Some(false), (None, 1) => Some(true), _ => None };
            if let Some(w) = want {
                out.check(passed == w, "assertion", if w { "the assertion fails although the jobs were enqueued" } else { "the assertion passes although the jobs were not enqueued" },
                    (stringify!($($call)*), d, m, tags, at, count, &$jobs));
            }
        }} }
        macro_rules! both { ($exact:expr, [$($head:tt)*], [$($call:tt)*], |$j:ident| $p:expr) => {
            case!(jobs, $exact, [$($head)* $($call)*], |$j| $p);
            case!(jobs, $exact, [$($head)* $($call)*,], |$j| $p);
        } }
        macro_rules! one { ([$($call:tt)*], |$j:ident| $p:expr) => {
            both!(None, [to: backend,], [$($call)*], |$j| $p);
            both!(Some(2), [2 jobs, to: backend,], [$($call)*], |$j| $p);
        } }
        one!([with_data: d], |j| j.data == d);
        one!([with_metadata: m], |j| j.meta == m);
        one!([tagged_with: tags], |j| tags.iter().all(|t| j.tags.contains(t)));
        one!([scheduled_at: at], |j| j.at == at);
        one!([scheduled_after: at], |j| j.at > at);
        one!([scheduled_before: at], |j| j.at < at);
        one!([for_executor: "second"], |j| j.second);
        one!([for_executor: Second], |j| j.second);
        one!([for_executor: First], |j| !j.second);
        one!([with_data: d, with_metadata: m], |j| j.data == d && j.meta == m);
        one!([with_metadata: m, with_data: d], |j| j.data == d && j.meta == m);
        one!([tagged_with: tags, for_executor: First], |j| tags.iter().all(|t| j.tags.contains(t)) && !j.second);
        one!([for_executor: First, tagged_with: tags], |j| tags.iter().all(|t| j.tags.contains(t)) && !j.second);
        one!([for_executor: "first", scheduled_after: at], |j| j.at > at && !j.second);
        one!([scheduled_at: at, with_data: d], |j| j.at == at && j.data == d);
        one!([scheduled_before: at, with_metadata: m], |j| j.at < at && j.meta == m);
        one!([scheduled_after: at, tagged_with: tags, with_data: d], |j| j.at > at && tags.iter().all(|t| j.tags.contains(t)) && j.data == d);
        case!(jobs, None, [1 job, to: backend, with_data: d, for_executor: First], |j| j.data == d && !j.second);
        case!(jobs, Some(0), [0 jobs, to: backend, with_data: d, for_executor: First], |j| j.data == d && !j.second);
        case!(jobs, Some(1), [1 jobs, to: backend, with_data: d], |j| j.data == d);
        case!(jobs, Some(3), [3 jobs, to: backend, scheduled_after: t0], |j| j.at > t0);
        case!(global_jobs, None, [with_data: d, scheduled_at: at, for_executor: First], |j| j.data == d && j.at == at && !j.second);
        case!(global_jobs, None, [1 job, tagged_with: tags, scheduled_at: at, for_executor: First,], |j| tags.iter().all(|t| j.tags.contains(t)) && j.at == at && !j.second);
        case!(global_jobs, Some(2), [2 jobs, with_data: d], |j| j.data == d);
        case!(global_jobs, Some(0), [0 jobs, with_data: d, scheduled_at: at], |j| j.data == d && j.at == at);
        case!(global_jobs, Some(4), [4 jobs, scheduled_after: t0 - TimeDelta::hours(9)], |j| j.at > t0 - TimeDelta::hours(9));
    }
}
