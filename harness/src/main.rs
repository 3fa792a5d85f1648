mod actor;
mod cluster;
mod core;
mod coordinator;
mod journal;
mod peer;
mod pubsub;
mod remote;
mod sharding;
mod singleton;
mod wire;

use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let suite = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let budget: u64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 120 });
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = core::Cx::new(seed, thorough, opt("--only"), Duration::from_secs(budget));
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rt.block_on(async {
        match suite.as_str() {
            "journal" => journal::journal(&mut cx).await,
            "coordinator" => coordinator::coordinator(&mut cx).await,
            "host" => sharding::host(&mut cx).await,
            "entity" => sharding::entity(&mut cx).await,
            "lifecycle" => actor::lifecycle(&mut cx).await,
            "supervision" => actor::supervision(&mut cx).await,
            "registry" => actor::registry(&mut cx).await,
            "rpc" => remote::rpc(&mut cx).await,
            "location" => remote::location_suite(&mut cx).await,
            "nodes" => cluster::nodes(&mut cx).await,
            "heartbeat" => cluster::heartbeat(&mut cx).await,
            "wire" => wire::wire(&mut cx).await,
            "singleton" => singleton::singleton(&mut cx).await,
            "pubsub" => pubsub::pubsub(&mut cx).await,
            "timer" => actor::timer(&mut cx).await,
            "policy" => journal::policy(&mut cx).await,
            "provider" => {
                journal::provider(&mut cx).await;
                journal::selection(&mut cx).await
            }
            _ => {
                eprintln!("unknown suite {suite}");
                std::process::exit(2)
            }
        }
    });
    let v: Vec<_> = cx
        .violations
        .iter()
        .map(|v| serde_json::json!({"clause": v.clause, "input": v.key, "message": v.message}))
        .collect();
    println!(
        "{}",
        serde_json::json!({
            "suite": suite, "evaluations": cx.evals, "distinct": cx.distinct.len(), "clauses": cx.clauses,
            "samples": cx.samples, "violations": v, "flaky": cx.flaky, "truncated": cx.truncated,
        })
    );
    std::process::exit(0)
}
