//! One module per check, or family of checks.
use crate::ev::Run;
use std::future::Future;

pub mod authn;
pub mod binary;
pub mod bounds;
pub mod chunked;
pub mod conc;
pub mod contain;
pub mod crash;
pub mod faults;
pub mod form;
pub mod hostile;
pub mod names;
pub mod proto;
pub mod ranges;
pub mod residue;
pub mod scen;
pub mod secrets;
pub mod times;

/// run `n` workers at a time
pub async fn parallel<F, Fut>(run: &'static Run, n: u64, f: F)
where
    F: Fn(u64) -> Fut,
    Fut: Future<Output = ()> + Send + 'static,
{
    let workers: Vec<_> = (0..n).map(|i| tokio::spawn(f(i))).collect();
    for w in workers {
        if let Err(e) = w.await {
            for _ in 0..10 {
                run.problem(format!("worker: {e}"));
            }
        }
    }
}
