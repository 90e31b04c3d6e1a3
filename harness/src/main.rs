mod checks;
mod ev;
mod http;
mod lin;
mod model;
mod record;
mod reqs;
mod sig;
mod sut;
mod util;
mod world;
mod xml;

use ev::Run;
use model::Profile;

const HISTORY: &str = "an evaluation is one request of a random history, followed by a comparison of every named object with the model; distinct by (operation, model state before, model state after)";
const CASE: &str = "an evaluation is one request whose answer was judged; distinct by the input of the case";

fn profile(prop: &str) -> Profile {
    //                   put form get head del delm copy list lb mk rm hb mpc mpp mpx mpb bad
    let mut p = Profile { weights: [10, 3, 1, 1, 4, 2, 4, 1, 1, 2, 1, 1, 2, 4, 3, 1, 1], keys: 6, buckets: 3, control: false, list_always: false, big: false };
    match prop {
        "C01" => {
            p.control = true;
            p.big = true;
            p.weights = [14, 4, 1, 1, 4, 1, 3, 0, 0, 1, 0, 0, 2, 3, 3, 0, 2];
        }
        "C02" => {
            p.control = true;
            p.weights = [12, 4, 1, 1, 5, 2, 6, 0, 0, 2, 2, 0, 4, 4, 4, 0, 1];
        }
        "C04" => {
            p.list_always = true;
            p.control = true;
            p.weights = [14, 1, 0, 0, 5, 3, 3, 6, 2, 2, 2, 0, 1, 2, 2, 0, 1];
            p.keys = 12;
        }
        "C05" => {
            p.weights = [14, 1, 0, 0, 8, 10, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0];
            p.keys = 9;
        }
        "C06" => {
            p.buckets = 5;
            p.keys = 4;
            p.weights = [6, 2, 1, 1, 2, 2, 3, 2, 3, 6, 5, 3, 2, 2, 2, 1, 0];
        }
        "C07" => {
            p.control = true;
            p.weights = [8, 1, 0, 0, 2, 0, 14, 0, 0, 1, 1, 0, 1, 2, 2, 0, 0];
        }
        "C08" => {
            p.weights = [4, 0, 0, 0, 2, 0, 1, 1, 0, 1, 1, 0, 6, 14, 8, 6, 0];
            p.keys = 4;
        }
        _ => {}
    }
    p
}

async fn history(run: &'static Run) -> i32 {
    let p: &'static Profile = Box::leak(Box::new(profile(&run.prop)));
    if run.prop == "C06" {
        futures::future::join(model::explore(run, p, 40), checks::conc::buckets(run, 4)).await;
    } else if run.prop == "C05" {
        futures::future::join(model::explore(run, p, 40), checks::proto::deletions(run)).await;
    } else {
        model::explore(run, p, 40).await;
    }
    run.finish(&["one request at a time per server", "no two keys of a history name a file and a directory above it"])
}

async fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let new = |level, rule, quick, thorough| -> &'static Run { Box::leak(Box::new(Run::new(prop, tier, seed, level, rule, quick, thorough))) };
    match prop {
        "C01" | "C02" | "C04" | "C05" | "C06" | "C07" | "C08" => history(new("exploration", HISTORY, 25, 600)).await,
        "C03" => checks::ranges::run(new("exploration", CASE, 15, 300)).await,
        "C09" => checks::contain::run(new("exploration", "an evaluation is one request with a name, key, copy source, upload id, prefix or document that may lead out of its bucket, and the judgement of every path its handling touched, of all files it must not change, and of its answer; distinct by the request", 25, 600)).await,
        "C10" => checks::conc::run(new("exploration", "an evaluation is the history of one key in a concurrent episode (with overlapping calls), or one read or upload in progress while the object changes; distinct by the interleaving of invocations and answers", 25, 900)).await,
        "C11" => checks::residue::run(new("exploration", "an evaluation is one request that is refused, breaks off, is abandoned at one of its waits, or only reads, and the comparison of the whole directory before and after it; distinct by (scenario, kind of request, status or position)", 25, 600)).await,
        "C12" => checks::crash::run(new("fault_enumeration", "an evaluation is one crash (at one call of one request, or of a concurrent workload) and the judgement of everything found after it; distinct by (scenario, call, torn write, second crash)", 30, 1200)).await,
        "C13" => checks::faults::run(new("fault_enumeration", "an evaluation is one failing (or shortened) file-system call, or run of failing calls, during one request, and the judgement of the answer and of everything found afterwards; distinct by (scenario, call, errno, once or from there on, torn write)", 30, 1200)).await,
        "C14" => checks::authn::refused(new("exploration", "an evaluation is one request: valid, or altered in one or two respects; distinct by (scheme, operation, alteration)", 25, 600)).await,
        "C15" => checks::authn::accepted(new("exploration", "an evaluation is one correctly signed request; distinct by (scheme, operation, target)", 20, 400)).await,
        "C16" => checks::chunked::run(new("exploration", "an evaluation is one aws-chunked upload; distinct by (operation, chunk sizes, alteration and its position, or transport pieces)", 20, 400)).await,
        "C17" => checks::authn::validity(new("exploration", "an evaluation is one use of a presigned URL; distinct by (age, stated validity)", 20, 400)).await,
        "C18" => checks::form::uploads(new("exploration", "an evaluation is one form; distinct by its file, fields, transport pieces, truncation or defect", 20, 400)).await,
        "C22" => checks::bounds::run(new("exploration", "an evaluation is one large transfer whose memory was measured, one upload or download against a side that has stopped, or one round of many requests after which nothing may be held; distinct by (kind, size, way)", 30, 900)).await,
        "C23" => checks::names::run(new("exploration", "an evaluation is one request with a bucket name and key; distinct by (method, names)", 15, 300)).await,
        "C21" => checks::hostile::run(new("exploration", "an evaluation is one hostile request or byte stream whose answer was judged; distinct by (method, status, error code) or the bytes", 25, 900)).await,
        "C24" => checks::binary::run(new("exploration", "an evaluation is one start of the program, or one request to it; distinct by (root, host, keys), refusal, request", 20, 400)).await,
        "C25" => checks::form::policies(new("exploration", "an evaluation is one form with a signed policy; distinct by policy, fields and length", 20, 400)).await,
        "C26" => checks::times::run(new("exploration", "an evaluation is one time read in an answer and compared with the interval in which the object or bucket came into being, and with what was said before; distinct by (where it was read, how the object was made, its age in seconds)", 20, 400)).await,
        "C27" => checks::secrets::run(new("exploration", "an evaluation is one answer, or all output of one run of the program, searched for secrets; distinct by (kind of request, status, error code) or (log level, length)", 20, 400)).await,
        "C19" => checks::proto::dispatch(new("exploration", "an evaluation is one request; distinct by (operation, fields given), (method, level, parameters), or the malformed value or document", 20, 400)).await,
        "C20" => checks::proto::results(new("exploration", "an evaluation is one scripted result or error and the response to it; distinct by (operation, fields present) or (operation, error code)", 20, 400)).await,
        _ => {
            eprintln!("unknown property {prop}");
            3
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // nothing depends on the time zone
    checks::times::zone(seed);
    let rt = tokio::runtime::Builder::new_multi_thread().enable_all().build().expect("runtime");
    let code = rt.block_on(check(&prop, &tier, seed));
    rt.shutdown_timeout(std::time::Duration::from_secs(2));
    std::process::exit(code);
}
