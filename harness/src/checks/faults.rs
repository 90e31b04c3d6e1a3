//! C13: file-system calls made for a request fail.
use super::parallel;
use super::scen::{self, Kind, Scn};
use crate::ev::Run;
use crate::http::{Fail, Out};
use crate::sut::{self, copy_tree, Mode, Opts, Server, MUTATE, READ};
use crate::util::{Rng, TempDir};
use crate::world::fs_service;
use serde_json::json;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};

const ERRNOS: [(&str, i32); 8] = [
    ("ENOSPC", libc::ENOSPC),
    ("EIO", libc::EIO),
    ("EACCES", libc::EACCES),
    ("EMFILE", libc::EMFILE),
    ("EROFS", libc::EROFS),
    ("EDQUOT", libc::EDQUOT),
    ("EINTR", libc::EINTR),
    ("ENOMEM", libc::ENOMEM),
];

#[derive(Clone, Debug)]
struct Fault {
    mode: Mode,
    k: u64,
    errno: (&'static str, i32),
    partial: bool,
    classes: u32,
}

fn restore(from: &Path, to: &Path) -> std::io::Result<()> {
    for e in std::fs::read_dir(to)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            std::fs::remove_dir_all(e.path())?;
        } else {
            std::fs::remove_file(e.path())?;
        }
    }
    copy_tree(from, to)
}

fn brief(o: &Out) -> String {
    match o {
        Ok(rs) => rs.brief().to_string(),
        Err(e) => format!("{e:?}"),
    }
    .chars()
    .take(800)
    .collect()
}

struct Bench<'a> {
    run: &'static Run,
    s: &'a Scn,
    srv: Server,
    dir: TempDir,
}

impl Bench<'_> {
    /// `Ok(false)`: the fault did not come up any more
    async fn one(&mut self, f: &Fault, r: &mut Rng) -> Result<bool, (String, serde_json::Value)> {
        let (run, s) = (self.run, self.s);
        let root = self.dir.path.clone();
        if let Err(e) = restore(&s.dir.path, &root) {
            run.problem(format!("restore: {e}"));
            return Ok(false);
        }
        let keys = scen::all_keys(s);
        self.srv.ctl.arm(f.mode, f.k, f.errno.1, f.partial, f.classes);
        let o = self.srv.call(&s.rq).await;
        // (what goes on after the answer may fail as well)
        if r.chance(1, 8) {
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
        self.srv.ctl.off();
        let fired = self.srv.ctl.fired();
        let op = sut::OPS.get(self.srv.ctl.fired_op() as usize).copied().unwrap_or("");
        let det = |e: &str| {
            json!({"scenario": s.name, "request": s.rq.brief(), "fault": format!("{f:?}"), "at": op, "calls hit": fired,
                "answer": brief(&o), "problem": e.chars().take(3000).collect::<String>()})
        };
        let bad = |sig: &str, e: &str| Err((format!("{sig}: {:?}", s.kind), det(e)));
        let acked = match scen::claims(s, &o) {
            Ok(a) => a,
            Err(e) => return bad("wrong answer", &e),
        };
        match &o {
            Err(Fail::Hang) => return bad("no answer", "the request was not answered"),
            Err(Fail::Unbuildable(e)) => {
                run.problem(format!("request: {e}"));
                return Ok(false);
            }
            // the body may break off before the head has been sent
            Err(Fail::Transport(_)) if fired > 0 && matches!(s.kind, Kind::Get | Kind::Range) && matches!(op, "read" | "seek") => {}
            Err(e) if fired > 0 => return bad("no answer", &format!("{e:?}, stderr {}", self.srv.stderr())),
            _ => {}
        }
        if !self.srv.running() {
            return bad("the server died", &self.srv.stderr());
        }
        if !acked && (fired == 0 || f.mode == Mode::Short) {
            return bad("refused without a failure", "");
        }
        if !acked && s.kind != Kind::DeleteMany {
            if let Ok(rs) = &o {
                if rs.body_err.is_none() && rs.status < 400 {
                    return bad("neither success nor failure", "");
                }
            }
        }
        let reads = scen::READS.contains(&s.kind);
        let svc = fs_service(&root, false);
        let seen = match scen::look(&svc, &keys).await {
            Ok(s) => s,
            Err(e) => return bad("state after a failure", &e),
        };
        let effect = if reads { Some(false) } else { acked.then_some(true) };
        if let Err(e) = scen::judge(s, &seen, effect) {
            return bad("state after a failure", &e);
        }
        for k in scen::reported_deleted(&o) {
            if s.kind == Kind::DeleteMany && seen.objs.get("bkt").is_some_and(|b| b.contains_key(&k)) {
                return bad("reported deleted, but still there", &k);
            }
        }
        run.eval(&format!("{}/{f:?}", s.name), fired > 0);
        if fired > 0 {
            run.seen("kinds of calls failed", &format!("{:?} {op} {:?}", s.kind, f.mode));
            let what = match &o {
                Ok(rs) if acked => format!("{} in spite of the failure", rs.status),
                Ok(rs) if rs.body_err.is_some() => "body broken off".into(),
                Ok(rs) => rs.status.to_string(),
                Err(_) => "body broken off before it started".into(),
            };
            run.count(&format!("answers: {what}"), 1);
            run.seen("answers", &format!("{:?} {op} {what}", s.kind));
        }
        let took = seen.objs == s.after && seen.objs != s.before;
        if acked {
            if let Err(e) = scen::uploads_follow(s, &svc, &o).await {
                return bad("uploads after a failure", &e);
            }
        }
        // the same again, now that nothing fails
        let done = acked || (took && matches!(s.kind, Kind::MkBucket | Kind::RmBucket | Kind::Complete));
        if !done || reads {
            let again = self.srv.call(&s.rq).await;
            let mut e = String::new();
            match scen::claims(s, &again) {
                Ok(true) => match scen::look(&svc, &keys).await {
                    Ok(seen) => {
                        if let Err(x) = scen::judge(s, &seen, Some(true)) {
                            e = x;
                        }
                    }
                    Err(x) => e = x,
                },
                Ok(false) => e = "refused".into(),
                Err(x) => e = x,
            }
            if !e.is_empty() {
                return bad("after the failure, the same request", &format!("{e}: {}", brief(&again)));
            }
            run.count("repeated requests judged", 1);
        }
        if r.chance(1, 4) || (acked && fired > 0) {
            if s.kind != Kind::RmBucket && s.kind != Kind::Complete {
                if let Err(e) = scen::upload_whole(s, &svc, Some(true)).await {
                    return bad("upload after a failure", &e);
                }
            }
            if let Err(e) = scen::works(s, &root, &keys).await {
                return bad("use after a failure", &e);
            }
        }
        Ok(fired > 0)
    }
}

async fn scenario(run: &'static Run, n: u64) {
    let mut r = Rng::from(run.seed, "faults", n);
    let kinds: Vec<Kind> = scen::MUTATIONS.into_iter().chain(scen::READS).collect();
    let kind = kinds[n as usize % kinds.len()];
    let s = match scen::build(kind, &mut r).await {
        Ok(s) => s,
        Err(e) => return run.problem(e),
    };
    let dir = TempDir::new();
    let Some(srv) = Server::start(run, &dir.path, &Opts { auth: s.auth, ..Opts::default() }).await else { return };
    let mut b = Bench { run, s: &s, srv, dir };
    let report = |e: (String, serde_json::Value)| run.violation(&e.0, e.1);
    let fault = |mode, k, errno, partial, classes| Fault { mode, k, errno, partial, classes };
    // every read and write does only a part of what it is asked for; then, single ones
    for k in [0, 1, 2, r.range(3, 20) as u64] {
        if let Err(e) = b.one(&fault(Mode::Short, k, ("", 0), false, MUTATE | READ), &mut r).await {
            return report(e);
        }
    }
    let classes = *r.pick(&[MUTATE | READ, MUTATE | READ, MUTATE, READ]);
    let mut k = 1;
    while run.more() && k < 2000 {
        let mut hit = false;
        let modes = [Mode::FailOnce, Mode::FailOn];
        for mode in modes {
            let errno = *r.pick(&ERRNOS);
            // for ever interrupted is no failure of a file system
            let errno = if mode == Mode::FailOn && errno.1 == libc::EINTR { ERRNOS[1] } else { errno };
            match b.one(&fault(mode, k, errno, r.chance(1, 3), classes), &mut r).await {
                Ok(h) => hit |= h,
                Err(e) => return report(e),
            }
        }
        if !hit {
            break;
        }
        run.max("most calls failed one after another in a request", k);
        k += if k < 40 { 1 } else { r.range(1, 15) as u64 };
    }
    b.srv.kill().await;
}

pub async fn run(run: &'static Run) -> i32 {
    let next: &'static AtomicU64 = Box::leak(Box::default());
    parallel(run, 10, |_| async move {
        while run.more() {
            scenario(run, next.fetch_add(1, Ordering::SeqCst)).await;
        }
    })
    .await;
    run.finish(&["calls fail with the listed errors, not with ones that claim a file is absent; closing a file is not let fail"])
}
