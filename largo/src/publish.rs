//! P03: a package is published complete and truthfully, or not at all.
use crate::*;
use std::collections::BTreeMap;
use std::io::Read;
use ureq::{Answer, Call};

const URL: &str = "https://r.example";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Up,
    Down,
    /// Takes the package, but the answer is lost.
    Silent,
    Status(u16),
    Garbage,
    /// Answers, but says it did not take the package.
    No,
}
struct Log {
    mode: Mode,
    taken: Vec<Vec<u8>>,
    calls: Vec<(String, String, Vec<u8>)>,
    name: String,
    version: String,
}

fn answer(l: &mut Log, c: &Call) -> Answer {
    let kind = c.headers.iter().find(|h| h.0.eq_ignore_ascii_case("content-type")).map_or(String::new(), |h| h.1.clone());
    l.calls.push((format!("{} {}", c.method, c.url), kind, c.body.clone()));
    let said = |ok: bool| Answer::Body(200, format!(r#"{{"success":{ok},"package":"{}","version":"{}","sha256":"ab","size":{}}}"#, l.name, l.version, c.body.len()));
    match l.mode {
        Mode::Up => {
            let a = said(true);
            l.taken.push(c.body.clone());
            a
        }
        Mode::Silent => {
            l.taken.push(c.body.clone());
            Answer::Unreachable("connection reset".into())
        }
        Mode::No => said(false),
        Mode::Down => Answer::Unreachable("connection refused".into()),
        Mode::Status(s) => Answer::Body(s, "no".into()),
        Mode::Garbage => Answer::Body(200, "<html>captive portal</html>".into()),
    }
}

/// The parts of a form, by name.
fn parts(kind: &str, body: &[u8]) -> Option<BTreeMap<String, Vec<u8>>> {
    let boundary = kind.split("boundary=").nth(1)?.trim_matches('"');
    let mark = format!("--{boundary}");
    let find = |from: usize, what: &[u8]| (from..body.len().saturating_sub(what.len() - 1)).find(|&i| &body[i..i + what.len()] == what);
    let mut out = BTreeMap::new();
    let mut at = find(0, mark.as_bytes())? + mark.len();
    loop {
        if body[at..].starts_with(b"--") {
            return Some(out);
        }
        let head_end = find(at, b"\r\n\r\n")?;
        let head = String::from_utf8_lossy(&body[at..head_end]).into_owned();
        let name = head.split("name=\"").nth(1)?.split('"').next()?.to_string();
        let end = find(head_end + 4, format!("\r\n{mark}").as_bytes())?;
        out.insert(name, body[head_end + 4..end].to_vec());
        at = end + 2 + mark.len();
    }
}
fn unpack(tgz: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut tar = tar::Archive::new(flate2::read::GzDecoder::new(tgz));
    let mut out = BTreeMap::new();
    for e in tar.entries().map_err(|e| e.to_string())? {
        let mut e = e.map_err(|e| e.to_string())?;
        let p = e.path().map_err(|e| e.to_string())?.to_string_lossy().into_owned();
        let mut b = Vec::new();
        e.read_to_end(&mut b).map_err(|e| e.to_string())?;
        if e.header().entry_type().is_file() && out.insert(p.clone(), b).is_some() {
            return Err(format!("{p} is in it twice"));
        }
    }
    // The end of the archive: what follows must be nothing but the checksum.
    let mut rest = flate2::read::GzDecoder::new(tgz);
    let mut all = Vec::new();
    rest.read_to_end(&mut all).map_err(|e| e.to_string())?;
    Ok(out)
}
/// What belongs into the package.
fn wanted() -> BTreeMap<String, Vec<u8>> {
    tree(PROJ)
        .into_iter()
        .filter_map(|(p, b)| {
            let rel = p[PROJ.len() + 1..].to_string();
            let inside = rel.starts_with("src/") && {
                let names: Vec<&str> = rel.split('/').skip(1).collect();
                let last = *names.last().unwrap();
                let ext = last.rsplit_once('.').map_or("", |(_, e)| e);
                names.iter().all(|n| !n.starts_with('.') && *n != "target") && (["lg", "md", "toml", "json"].contains(&ext) || last == "LICENSE")
            };
            (inside || ["Largo.toml", "README.md", "LICENSE"].contains(&rel.as_str())).then_some((rel, b))
        })
        .collect()
}

pub fn p03() {
    let m = Machine::new();
    project();
    put(CREDS, &format!("[registries]\n\"{URL}\" = \"tok_mine\"\n"));
    sim::fs::set_mode(CREDS, 0o600);
    let h: Host<Log> = Host::new(Log { mode: Mode::Up, taken: Vec::new(), calls: Vec::new(), name: String::new(), version: String::new() });
    {
        let h = h.clone();
        ureq::stand_in_for_all(move |c| h.with(|l| answer(l, c)));
    }
    m.faults();
    sim::fs_cfg().p_err = [0.0, 0.01, 0.05, 0.2][pick(4) as usize];
    let (mut published, mut failed) = (0, 0);
    for step in 0..sim::range(2, 9) {
        sim::fs::set_cwd([PROJ, "/sim/dev/proj/src"][sim::weighted(2, 0.3) as usize]);
        match pick(8) {
            0..=4 => {
                let dry = chance(0.15);
                let want = wanted();
                let before = tree(HOME);
                let text = String::from_utf8_lossy(&want["Largo.toml"]).into_owned();
                let man: toml::Value = text.parse().unwrap();
                let pkg = man["package"].clone();
                let (name, version) = (pkg["name"].as_str().unwrap().to_string(), pkg["version"].as_str().unwrap().to_string());
                let entry = pkg.get("entry").and_then(|e| e.as_str()).unwrap_or("src/main.lg").to_string();
                let mode = h.with(|l| {
                    l.calls.clear();
                    l.taken.clear();
                    (l.name, l.version) = (name.clone(), version.clone());
                    l.mode
                });
                let mut line = vec!["publish", "--allow-dirty", "--registry", URL];
                if dry {
                    line.push("--dry-run");
                }
                let e = m.run(&line);
                let (calls, taken) = h.with(|l| (l.calls.clone(), l.taken.len()));
                let what = format!("publishing with the registry {mode:?}");
                ensure!(!dry || calls.is_empty(), "dry-run", "a dry run made the requests {:?}", calls.iter().map(|c| &c.0).collect::<Vec<_>>());
                ensure!(calls.len() <= 1, "twice", "{what} made {} requests", calls.len());
                for (to, kind, body) in &calls {
                    ensure!(to == &format!("POST {URL}/packages/publish"), "wrong-place", "{what} asked {to}");
                    let form = parts(kind, body).unwrap_or_default();
                    let (Some(tgz), Some(meta)) = (form.get("tarball"), form.get("metadata")) else {
                        sim::violation("incomplete", format!("{what}: the form has the parts {:?}", form.keys().collect::<Vec<_>>()));
                    };
                    match unpack(tgz) {
                        Err(e) => sim::violation("incomplete", format!("{what}: the archive cannot be read: {e}")),
                        Ok(got) => {
                            let off: Vec<String> = got
                                .keys()
                                .chain(want.keys())
                                .filter(|k| got.get(*k) != want.get(*k))
                                .map(|k| format!("{k}: {} instead of {}", got.get(k).map_or("missing".into(), |b| show(b)), want.get(k).map_or("nothing".into(), |b| show(b))))
                                .collect();
                            ensure!(off.is_empty(), "incomplete", "{what} sent a package that is not the project: {off:?}");
                        }
                    }
                    let meta: serde_json::Value = serde_json::from_slice(meta).unwrap_or_default();
                    let mut deps = serde_json::Map::new();
                    for (k, v) in man.get("dependencies").and_then(|d| d.as_table()).cloned().unwrap_or_default() {
                        let v = match (v.as_str(), v.get("path").and_then(|p| p.as_str()), v.get("git").and_then(|g| g.as_str())) {
                            (Some(s), ..) => s.to_string(),
                            (_, Some(p), _) => format!("path:{p}"),
                            (.., Some(g)) => format!("git:{g}"),
                            _ => "*".into(),
                        };
                        deps.insert(k, v.into());
                    }
                    let readme = want.get("README.md").map(|b| String::from_utf8_lossy(b).into_owned());
                    for (k, v) in [("name", name.clone().into()), ("version", version.clone().into()), ("entry_point", entry.clone().into()), ("dependencies", deps.into()), ("readme", serde_json::json!(readme)), ("description", serde_json::json!(pkg.get("description").and_then(|d| d.as_str())))] {
                        ensure!(meta[k] == v, "wrong-data", "{what} sent {k} = {} instead of {v}", meta[k]);
                    }
                }
                if e.ok() && !dry {
                    ensure!(taken == 1 && mode == Mode::Up, "untruthful", "{what} reported success");
                }
                if !e.disturbed {
                    let should = want.contains_key(&entry) || tree(PROJ).contains_key(&format!("{PROJ}/{entry}"));
                    ensure!(e.ok() == (should && (dry || mode == Mode::Up)), "refused", "{what} undisturbed ended {:?}", e.result);
                }
                ensure!(tree(HOME) == before, "changed", "{what} changed the developer's files");
                if e.ok() && !dry {
                    published += 1;
                } else {
                    failed += 1;
                }
            }
            5 => {
                let mode = [Mode::Up, Mode::Up, Mode::Down, Mode::Silent, Mode::Garbage, Mode::No, Mode::Status([401, 403, 409, 413, 500, 503][pick(6) as usize])][pick(7) as usize];
                h.with(|l| l.mode = mode);
            }
            6 => put(&format!("{PROJ}/Largo.toml"), &manifest()),
            _ => {
                let name = ["src/main.lg", "src/lib/util.lg", "src/a.json", "README.md", "src/lib/x/y/z.md", "src/.draft.md", "notes.txt"][pick(7) as usize];
                put(&format!("{PROJ}/{name}"), &source());
                if chance(0.1) {
                    let big: String = (0..3000).map(|i| format!("Show {}.\n", i * step)).collect();
                    put(&format!("{PROJ}/src/big.lg"), &big);
                }
            }
        }
    }
    if published > 0 && failed > 0 {
        sim::nontrivial();
    }
    sim::sample(format!("{published} published, {failed} not"));
}
