//! P02: registry tokens stay private, apart and in place.
use crate::*;
use std::collections::BTreeMap;
use ureq::{Answer, Call};

const REGS: [&str; 4] = ["https://registry.logicaffeine.com", "https://r.example", "https://r.example.net/api", "http://localhost:8080/"];
type Tokens = BTreeMap<String, String>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Up,
    Down,
    Refusing,
    Forbidding,
    Broken,
    Garbage,
}
#[derive(Default)]
struct Log {
    modes: Vec<Mode>,
    /// (registry, token) pairs the registries know.
    known: Vec<(usize, String)>,
    calls: Vec<(String, String)>,
    refused: u64,
}

fn answer(l: &mut Log, c: &Call) -> Answer {
    let auth = c.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("authorization")).map(|h| h.1.clone()).collect::<Vec<_>>().join(",");
    l.calls.push((c.url.clone(), auth.clone()));
    let Some(r) = home_of(&c.url) else { return Answer::Unreachable("no such host".into()) };
    let good = l.known.iter().any(|k| k.0 == r && auth == format!("Bearer {}", k.1));
    let a = match l.modes[r] {
        Mode::Down => Answer::Unreachable("connection refused".into()),
        Mode::Broken => Answer::Body(500, "oops".into()),
        Mode::Garbage => Answer::Body(200, "<html>captive portal</html>".into()),
        Mode::Forbidding => Answer::Body(403, "banned".into()),
        Mode::Up if good && c.url.ends_with("/auth/me") => return Answer::Body(200, r#"{"id":"1","login":"dev","name":null,"is_admin":false}"#.into()),
        Mode::Up if good => return Answer::Body(200, r#"{"success":true,"package":"demo","version":"0.1.0","sha256":"00","size":1}"#.into()),
        _ => Answer::Body(401, "who are you".into()),
    };
    l.refused += 1;
    a
}
/// The registry a request goes to.
fn home_of(url: &str) -> Option<usize> {
    REGS.iter().position(|r| ["/auth/me", "/packages/publish"].iter().any(|e| url == format!("{}{e}", r.trim_end_matches('/'))))
}
fn stored() -> Option<Tokens> {
    let b = sim::fs::peek(CREDS)?;
    let v: toml::Value = std::str::from_utf8(&b).ok()?.parse().ok()?;
    let t = v.get("registries").map_or(Some(Default::default()), |t| t.as_table().cloned())?;
    t.into_iter().map(|(k, v)| Some((k, v.as_str()?.to_string()))).collect()
}
fn private(secrets: &[String], when: &str) {
    for (p, b) in tree(HOME) {
        if b.is_empty() {
            continue;
        }
        let text = String::from_utf8_lossy(&b);
        if let Some(s) = secrets.iter().find(|s| text.contains(s.as_str())) {
            let mode = sim::fs::mode(&p).unwrap_or(0);
            ensure!(mode & 0o077 == 0, "readable", "{when}: {p} holds the token {s} with permissions {mode:o}");
        }
    }
}

/// What the credentials file may say: damaged ones hold nothing that can be told.
#[derive(Clone, PartialEq, Debug)]
enum File {
    Holds(Tokens),
    Damaged(Vec<u8>),
}
fn look() -> File {
    match (sim::fs::peek(CREDS), stored()) {
        (None, _) => File::Holds(Tokens::new()),
        (_, Some(t)) => File::Holds(t),
        (Some(b), None) => File::Damaged(b),
    }
}

pub fn p02() {
    let m = Machine::new();
    project();
    let h: Host<Log> = Host::new(Log { modes: vec![Mode::Up; REGS.len()], ..Log::default() });
    {
        let h = h.clone();
        ureq::stand_in_for_all(move |c| h.with(|l| answer(l, c)));
    }
    m.faults();
    let mut secrets: Vec<String> = Vec::new();
    // A directory that has yet to be made is not promised to outlast a power cut.
    let fresh = chance(0.2);
    if !fresh {
        sim::fs::mkdirs("/sim/dev/cfg/logos");
    }
    if !fresh && chance(0.5) {
        // Tokens from earlier days.
        let mut text = String::from("[registries]\n");
        for (i, r) in REGS.iter().enumerate() {
            if chance(0.5) {
                let t = format!("tok_early{i}_");
                text.push_str(&format!("\"{r}\" = \"{t}\"\n"));
                h.with(|l| l.known.push((i, t.clone())));
                secrets.push(t);
            }
        }
        put(CREDS, &text);
        sim::fs::set_mode(CREDS, 0o600);
    }
    let mut now = look();
    let mut maybe: Vec<File> = vec![now.clone()];
    let (mut disturbed, mut saved) = (0, 0);
    for step in 0..sim::range(3, 14) {
        let r = pick(REGS.len() as u64) as usize;
        let url = REGS[r];
        match pick(12) {
            0..=4 => {
                let good = chance(0.8);
                let token = format!("tok_{r}_{step}_{}", pick(1000));
                secrets.push(token.clone());
                if good {
                    h.with(|l| l.known.push((r, token.clone())));
                }
                let mode = h.with(|l| l.modes[r]);
                let before = h.with(|l| l.calls.len());
                let mut line = vec!["login", "--token", &token];
                if r != 0 || chance(0.3) {
                    line.extend(["--registry", url]);
                }
                let e = m.run(&line);
                let said_yes = mode == Mode::Up && good;
                let what = format!("`largo {}`", line.join(" "));
                for (u, a) in h.with(|l| l.calls[before..].to_vec()) {
                    ensure!(home_of(&u) == Some(r) && a == format!("Bearer {token}"), "wrong-place", "{what} sent {a:?} to {u}");
                }
                let next = match &now {
                    File::Holds(t) if said_yes => {
                        let mut t = t.clone();
                        t.insert(url.into(), token.clone());
                        Some(File::Holds(t))
                    }
                    _ => None,
                };
                ensure!(!e.ok() || said_yes, "accepted", "{what} succeeded with the registry {mode:?} and a token that is {}", if good { "known" } else { "unknown" });
                ensure!(e.ok() || e.disturbed || next.is_none(), "refused", "{what} failed undisturbed: {:?}", e.result);
                if e.ok() {
                    saved += 1;
                }
                settle_down(&what, &e, next, &mut now, &mut maybe, fresh);
                disturbed += !e.ok() as u64;
                private(&secrets, &what);
            }
            5 | 6 => {
                let mut line = vec!["logout"];
                if r != 0 || chance(0.3) {
                    line.extend(["--registry", url]);
                }
                let before = h.with(|l| l.calls.len());
                let e = m.run(&line);
                let what = format!("`largo {}`", line.join(" "));
                ensure!(h.with(|l| l.calls.len()) == before, "wrong-place", "{what} talked to a registry");
                let next = match &now {
                    File::Holds(t) => {
                        let mut t = t.clone();
                        t.remove(url);
                        Some(File::Holds(t))
                    }
                    _ => None,
                };
                ensure!(e.ok() || e.disturbed || next.is_none(), "refused", "{what} failed undisturbed: {:?}", e.result);
                settle_down(&what, &e, next, &mut now, &mut maybe, fresh);
                disturbed += !e.ok() as u64;
                private(&secrets, &what);
            }
            7 | 8 => {
                // Publishing uses the token of that registry, if any.
                let dry = chance(0.2);
                let mut line = vec!["publish", "--allow-dirty"];
                if r != 0 || chance(0.3) {
                    line.extend(["--registry", url]);
                }
                if dry {
                    line.push("--dry-run");
                }
                let before = h.with(|l| l.calls.len());
                let e = m.run(&line);
                let what = format!("`largo {}`", line.join(" "));
                let token = match &now {
                    File::Holds(t) => t.get(url).cloned(),
                    _ => None,
                };
                let calls = h.with(|l| l.calls[before..].to_vec());
                for (u, a) in &calls {
                    ensure!(
                        home_of(u) == Some(r) && token.as_ref().is_some_and(|t| *a == format!("Bearer {t}")) && !dry,
                        "wrong-place",
                        "{what} sent {a:?} to {u}; the token of {url} is {token:?}"
                    );
                }
                ensure!(!e.ok() || token.is_some(), "accepted", "{what} succeeded without a token");
                if let Some(t) = token.filter(|_| !e.disturbed && !dry) {
                    let up = h.with(|l| l.modes[r] == Mode::Up && l.known.iter().any(|k| k.0 == r && k.1 == t));
                    ensure!(!calls.is_empty(), "refused", "{what} did not ask the registry though {url} has the token {t}: {:?}", e.result);
                    ensure!(e.ok() == up, "untruthful", "{what} with a registry that is {}: {:?}", if up { "up" } else { "refusing" }, e.result);
                }
                settle_down(&what, &e, None, &mut now, &mut maybe, fresh);
                disturbed += !e.ok() as u64;
            }
            9 => {
                let mode = [Mode::Up, Mode::Up, Mode::Down, Mode::Refusing, Mode::Forbidding, Mode::Broken, Mode::Garbage][pick(7) as usize];
                h.with(|l| l.modes[r] = mode);
            }
            10 => {
                // A damaged file, which the developer may yet repair.
                m.settle();
                if let Some(b) = sim::fs::peek(CREDS).filter(|b| b.len() > 4) {
                    if chance(0.5) {
                        let mut d = b.clone();
                        d.truncate(b.len() - 1 - pick(3) as usize);
                        sim::fs::poke(CREDS, &d);
                        sim::count("damaged credentials files");
                    } else if matches!(now, File::Damaged(_)) {
                        put(CREDS, "[registries]\n");
                        sim::fs::set_mode(CREDS, 0o600);
                    }
                }
                now = look();
                maybe = vec![now.clone()];
            }
            _ => {
                m.power_cut();
                now = look();
                ensure!(maybe.contains(&now) || fresh && now == File::Holds(Tokens::new()), "not-kept", "after a power cut the credentials are {now:?}, not one of {maybe:?}");
                maybe = vec![now.clone()];
                private(&secrets, "after a power cut");
            }
        }
    }
    if saved > 0 && disturbed > 0 {
        sim::nontrivial();
    }
    sim::sample(format!("{saved} logins, {disturbed} commands refused or disturbed"));
}

/// The credentials after a command: as before or as wanted; as wanted when it succeeded.
fn settle_down(what: &str, e: &Ended, next: Option<File>, now: &mut File, maybe: &mut Vec<File>, fresh: bool) {
    let got = look();
    let down = e.result.is_none();
    let fine = got == *now || next.as_ref() == Some(&got) || down && (maybe.contains(&got) || fresh && got == File::Holds(Tokens::new()));
    ensure!(fine, "tokens-lost", "{what} ended {:?} and turned the credentials {now:?} into {got:?}", e.result);
    match next {
        Some(n) if e.ok() => {
            ensure!(got == n, "not-done", "{what} succeeded, but the credentials are {got:?}, not {n:?}");
            // Nothing to do leaves what an earlier, failed command may have left behind.
            if got != *now || maybe.len() == 1 {
                *maybe = vec![got.clone()];
            }
        }
        _ if !maybe.contains(&got) => maybe.push(got.clone()),
        _ => {}
    }
    *now = got;
}
