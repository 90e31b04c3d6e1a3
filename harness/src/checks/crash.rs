//! C12: the process dies at any of its calls that change files.
use super::scen::{self, Kind, Scn};
use super::{conc, parallel};
use crate::ev::Run;
use crate::http::{Fail, Out};
use crate::sut::{self, copy_tree, Mode, Opts, Server, MUTATE};
use crate::util::{Rng, TempDir};
use crate::world::fs_service;
use serde_json::json;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// send the request to a server which dies at the `k`-th call; `None`: no verdict
async fn crash(run: &Run, s: &Scn, root: &Path, k: u64, torn: bool) -> Option<(bool, bool, &'static str, Out)> {
    let mut srv = Server::start(run, root, &Opts { auth: s.auth, ..Opts::default() }).await?;
    srv.ctl.arm(Mode::Crash, k, 0, torn, MUTATE);
    let o = srv.call(&s.rq).await;
    if matches!(o, Err(Fail::Hang | Fail::Unbuildable(_))) {
        run.problem(format!("{}: {o:?}", s.name));
        return None;
    }
    // what goes on after the answer is crashed as well
    tokio::time::sleep(Duration::from_millis(if o.is_ok() { 3 } else { 0 })).await;
    let died = srv.ctl.fired() > 0;
    let op = sut::OPS.get(srv.ctl.fired_op() as usize).copied().unwrap_or("");
    let acked = match scen::claims(s, &o) {
        Ok(a) => a,
        Err(e) => {
            run.violation("answer", json!({"scenario": s.name, "crash at": k, "problem": e}));
            return None;
        }
    };
    if !died && !acked {
        run.violation("refused without a crash", json!({"scenario": s.name, "request": s.rq.brief(), "answer": format!("{o:?}").chars().take(600).collect::<String>()}));
        return None;
    }
    if died {
        let _ = srv.gone(Duration::from_secs(20)).await;
    }
    srv.kill().await;
    Some((died, acked, op, o))
}

/// every crash point of one scenario
async fn enumerate(run: &Run, s: &Scn, r: &mut Rng) {
    let keys = scen::all_keys(s);
    let mut k = 1;
    let mut step = 1;
    loop {
        let mut torns = vec![false];
        if k > 1 && r.chance(1, 2) {
            torns.push(true);
        }
        let mut died_at_all = false;
        for torn in torns {
            let dir = TempDir::new();
            if let Err(e) = copy_tree(&s.dir.path, &dir.path) {
                return run.problem(format!("copy: {e}"));
            }
            let Some((died, mut acked, op, mut o)) = crash(run, s, &dir.path, k, torn).await else { return };
            died_at_all |= died;
            let mut second = None;
            if died && !acked && r.chance(1, 5) && !matches!(s.kind, Kind::Start) {
                // the client tries again, and the new server crashes too
                let k2 = r.range(1, 12) as u64;
                let srv = Server::start(run, &dir.path, &Opts { auth: s.auth, ..Opts::default() }).await;
                let Some(mut srv) = srv else { return };
                srv.ctl.arm(Mode::Crash, k2, 0, r.chance(1, 2), MUTATE);
                o = srv.call(&s.rq).await;
                if srv.ctl.fired() > 0 {
                    let _ = srv.gone(Duration::from_secs(20)).await;
                }
                // it may be refused because it had taken effect
                acked = scen::claims(s, &o).unwrap_or(false);
                second = Some((k2, srv.ctl.fired() > 0));
                srv.kill().await;
                run.count("second crashes", 1);
            }
            let effect = acked.then_some(true);
            let svc = fs_service(&dir.path, false);
            let verdict = match scen::look(&svc, &keys).await {
                Ok(seen) => scen::judge(s, &seen, effect).map(|()| seen),
                Err(e) => Err(e),
            };
            run.eval(&format!("{}/{k}/{torn}/{second:?}", s.name), died);
            run.seen("kinds of calls crashed at", &format!("{:?} {op}", s.kind));
            run.count(if died { "crashes" } else { "requests which ended before the crash" }, 1);
            let det = |e: String| {
                let left: Vec<String> = crate::util::snapshot(&dir.path).into_iter().map(|(k, v)| format!("{} {v:?}", crate::util::show(&k))).collect();
                json!({"scenario": s.name, "request": s.rq.brief(), "crash at": k, "call": op, "torn write": torn, "second crash": format!("{second:?}"), "acknowledged": acked, "problem": e.chars().take(3000).collect::<String>(), "files": left})
            };
            let seen = match verdict {
                Ok(s) => s,
                Err(e) => return run.violation(&format!("state after a crash: {:?}", s.kind), det(e)),
            };
            let took = seen.objs == s.after && seen.objs != s.before;
            run.seen("outcomes", &format!("{:?} {} {took}", s.kind, died));
            if let (true, Err(e)) = (acked, scen::uploads_follow(s, &svc, &o).await) {
                return run.violation(&format!("uploads after a crash: {:?}", s.kind), det(e));
            }
            // the upload in progress is as usable as before
            if s.kind != Kind::RmBucket && !(s.kind == Kind::Complete && (took || acked || seen.objs == s.after)) {
                if let Err(e) = scen::upload_whole(s, &svc, effect).await {
                    return run.violation(&format!("upload after a crash: {:?}", s.kind), det(e));
                }
            }
            if let Err(e) = scen::works(s, &dir.path, &keys).await {
                return run.violation(&format!("use after a crash: {:?}", s.kind), det(e));
            }
        }
        if !died_at_all {
            break;
        }
        // in a long run of writes, some are enough
        k += step;
        if k > 60 {
            step = 7;
        }
        if k > 600 || !run.more() {
            break;
        }
    }
    run.max("most crash points of a request", k - 1);
}

pub async fn run(run: &'static Run) -> i32 {
    let next: &'static AtomicU64 = Box::leak(Box::default());
    parallel(run, 10, |w| async move {
        while run.more() {
            let n = next.fetch_add(1, Ordering::SeqCst);
            if w >= 8 {
                conc::crash_episode(run, n).await;
                continue;
            }
            let mut r = Rng::from(run.seed, "crash", n);
            let kind = scen::MUTATIONS[n as usize % scen::MUTATIONS.len()];
            match scen::build(kind, &mut r).await {
                Ok(s) => enumerate(run, &s, &mut r).await,
                Err(e) => run.problem(e),
            }
        }
    })
    .await;
    run.finish(&["the process dies, the system goes on: what was written before stays written"])
}
