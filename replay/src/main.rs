//! replay <property> <seed> <scale>: concrete cases for one property on the real code; prints failing inputs as JSON.
#![recursion_limit = "512"]
mod api;
#[cfg(feature = "assertions")]
mod assertions;
mod mem;
mod runner;
mod util;
use util::Out;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, seed, k) = (a[1].clone(), a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1u64), a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1usize));
    runner::quiet_panics();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut out = Out::new();
        let o = &mut out;
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
        let mut known = true;
        rt.block_on(async {
            match p.as_str() {
                "C01" => runner::outcomes("C01", seed, 6 * k, o).await,
                "C02" => { runner::outcomes("C02", seed, 4 * k, o).await; runner::attempts(o).await; mem::histories("C02", seed, 400 * k, o).await }
                "C03" | "C04" | "C06" | "C07" | "C08" | "C09" | "C12" => mem::histories(&p, seed, 1500 * k, o).await,
                "C05" => mem::streams(o).await,
                "C10" => api::typed_queries(seed, 1500 * k, o).await,
                "C14" => runner::pruner_runs(o).await,
                "C15" => api::backoff(seed, 40000 * k, o),
                "C16" => api::builder(seed, 3000 * k, o).await,
                "C17" => api::conversions(seed, 3000 * k, o),
                "C18" => api::criteria_builders(seed, 2000 * k, o),
                "C21" => runner::cron_ticks(o).await,
                "C22" => api::management(seed, o).await,
                "C23" => mem::concurrent(seed, 25 * k, o).await,
                "C24" => api::pointers(seed, o).await,
                "C25" => runner::limits(seed, o).await,
                "C26" => (),
                #[cfg(feature = "assertions")]
                "C28" => assertions::assertions(seed, 60 * k, o).await,
                _ => known = false,
            }
        });
        rt.shutdown_background();
        match p.as_str() { "C05" => mem::oversleep(o), "C26" => runner::shutdown(seed, o), _ => () }
        if !known { out.n = 0; }
        out
    }).unwrap();
    match h.join() {
        Ok(out) => println!("{}", serde_json::json!({"n": out.n, "failures": out.fails})),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("{}", serde_json::json!({"n": 1, "failures": [{"tags": ["panic"], "what": "the code under test panicked", "input": m}]}));
        }
    }
    std::process::exit(0);
}
