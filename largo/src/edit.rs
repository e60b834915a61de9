//! P01: commands that edit files leave the old or the new one.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};
use toml::Value;

/// What a command may do to a file.
enum New {
    Bytes(Vec<u8>),
    Manifest(Value, Vec<String>),
    /// A freshly made manifest with this name.
    Fresh(String),
}
impl New {
    fn is(&self, b: &[u8]) -> bool {
        match self {
            New::Bytes(n) => n == b,
            New::Manifest(v, lines) => {
                let Ok(s) = std::str::from_utf8(b) else { return false };
                let mut rest = s.lines();
                s.parse::<Value>().is_ok_and(|p| same(&p, v)) && lines.iter().all(|l| rest.any(|r| r == l))
            }
            New::Fresh(name) => {
                let Ok(s) = std::str::from_utf8(b) else { return false };
                s.parse::<Value>().is_ok_and(|p| p.get("package").and_then(|p| p.get("name")).and_then(|n| n.as_str()) == Some(name))
            }
        }
    }
}
/// Equal, a missing table of dependencies counting as an empty one.
fn same(a: &Value, b: &Value) -> bool {
    let full = |v: &Value| {
        let mut v = v.clone();
        if let Some(t) = v.as_table_mut() {
            t.entry("dependencies").or_insert(Value::Table(Default::default()));
        }
        v
    };
    full(a) == full(b)
}

struct Model {
    /// What each file holds, and what it may hold after a power cut.
    files: BTreeMap<String, Vec<u8>>,
    maybe: BTreeMap<String, Vec<Option<Vec<u8>>>>,
    /// The developer's files; what else a command leaves behind is nobody's.
    known: BTreeSet<String>,
    /// Files somebody made without promising that they outlast a power cut.
    loose: BTreeSet<String>,
}
impl Model {
    fn look(&mut self) {
        self.files = self.tree();
        self.maybe.clear();
        self.loose.clear();
    }
    fn tree(&self) -> BTreeMap<String, Vec<u8>> {
        tree(HOME).into_iter().filter(|(p, _)| self.known.contains(p)).collect()
    }
    fn put(&mut self, path: &str, text: &str) {
        put(path, text);
        self.known.insert(path.into());
    }
    /// Compare the disk with what the command may have done. `must`: it reported success.
    fn after(&mut self, line: &str, targets: &BTreeMap<String, New>, may_vanish: &dyn Fn(&str) -> bool, e: &Ended) -> u64 {
        let (ok, how) = (e.ok(), if e.result.is_none() { "was cut short" } else if e.ok() { "succeeded" } else { "failed" });
        self.known.extend(targets.keys().cloned());
        let actual = self.tree();
        let mut changed = 0;
        let paths: BTreeSet<&String> = self.files.keys().chain(targets.keys()).collect();
        for p in paths {
            let old = self.files.get(p);
            let now = actual.get(p);
            let new = targets.get(p);
            let is_new = now.is_some_and(|b| new.is_some_and(|n| n.is(b)));
            let is_old = now == old;
            if may_vanish(p) {
                ensure!(!ok || now.is_none(), "not-done", "`{line}` succeeded, but {p} is still there");
                ensure!(now.is_none() || is_old, "changed", "`{line}` changed {p} to {}", show(now.unwrap()));
                if !ok && now.is_none() {
                    let m = self.maybe.entry(p.clone()).or_insert_with(|| vec![old.cloned()]);
                    m.push(None);
                } else if ok {
                    self.maybe.insert(p.clone(), vec![None, old.cloned()]);
                }
                continue;
            }
            // Cut off from the disk: an earlier version, as far as it was not known to be safe.
            let earlier = e.result.is_none() && (self.loose.contains(p) || self.maybe.get(p).is_some_and(|m| m.iter().any(|x| x.as_ref() == now)));
            ensure!(
                is_old || is_new || earlier,
                if now.is_none() { "lost" } else if new.is_some() { "half-written" } else { "changed" },
                "`{line}` {how} and left {p} as {} (before: {})",
                now.map_or("nothing".into(), |b| show(b)),
                old.map_or("nothing".into(), |b| show(b))
            );
            if ok && new.is_some() {
                ensure!(is_new, "not-done", "`{line}` succeeded, but {p} is {}", now.map_or("not there".into(), |b| show(b)));
            }
            if new.is_some() && is_new && !is_old {
                changed += 1;
            }
            if is_old {
                // Nothing to do: what an interrupted command left may still be on its way.
            } else if ok && new.is_some() && old.is_some() {
                self.maybe.insert(p.clone(), vec![now.cloned()]);
                self.loose.remove(p);
            } else if new.is_some() {
                let m = self.maybe.entry(p.clone()).or_insert_with(|| vec![old.cloned()]);
                m.push(now.cloned());
            }
        }
        self.files = actual;
        changed
    }
    fn after_power(&mut self) {
        let actual = self.tree();
        for (p, old) in &self.files {
            let now = actual.get(p);
            let fine = match self.maybe.get(p) {
                Some(m) => m.iter().any(|x| x.as_ref() == now),
                None => now == Some(old),
            } || self.loose.contains(p);
            ensure!(
                fine,
                if now.is_none() { "lost" } else { "not-kept" },
                "after a power cut {p} is {}, it was {}",
                now.map_or("gone".into(), |b| show(b)),
                show(old)
            );
        }
        self.look();
    }
}

fn is_source(p: &str) -> bool {
    p.ends_with(".lg") || p.ends_with(".md")
}
fn formatted(b: &[u8]) -> Vec<u8> {
    logicaffeine_language::source_format::format_source(std::str::from_utf8(b).unwrap()).into_bytes()
}
fn dep_line(l: &str, name: &str) -> bool {
    l.split('=').next().unwrap().trim() == name || l.trim() == format!("[dependencies.{name}]") || l.starts_with("path = \"../m\"")
}

pub fn p01() {
    let m = Machine::new();
    project();
    m.faults();
    let mut model = Model { files: BTreeMap::new(), maybe: BTreeMap::new(), known: tree(HOME).into_keys().collect(), loose: BTreeSet::new() };
    model.look();
    let man = format!("{PROJ}/Largo.toml");
    let (mut changed, mut disturbed) = (0, 0);
    for step in 0..sim::range(3, 14) {
        let cwd = [PROJ, "/sim/dev/proj/src"][sim::weighted(2, 0.3) as usize];
        sim::fs::set_cwd(cwd);
        let never = |_: &str| false;
        match pick(12) {
            0..=3 => {
                let add = chance(0.6);
                let name = ["alpha", "math", "std", "gamma", "beta"][pick(5) as usize];
                let old = model.files.get(&man).map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
                let value = old.parse::<Value>().ok();
                let whole = value.as_ref().is_some_and(|v| v.get("package").is_some());
                let (args, dep): (Vec<String>, Value) = match pick(4) {
                    0 => (vec![format!("{name}@1.{step}")], Value::String(format!("1.{step}"))),
                    1 => (vec![format!("logos:{name}")], Value::String(format!("logos:{name}"))),
                    2 => (vec![name.into(), "--path".into(), format!("./p{step}")], Value::Table([("path".to_string(), Value::String(format!("./p{step}")))].into_iter().collect())),
                    _ => (vec![name.into(), "--git".into(), format!("https://g/{step}.git")], Value::Table([("git".to_string(), Value::String(format!("https://g/{step}.git")))].into_iter().collect())),
                };
                let mut targets = BTreeMap::new();
                let mut there = false;
                if let Some(mut v) = value.clone().filter(|_| whole) {
                    let t = v.as_table_mut().unwrap();
                    let deps = t.entry("dependencies").or_insert(Value::Table(Default::default())).as_table_mut().unwrap();
                    there = deps.contains_key(name);
                    let mut lines: Vec<String> = old.lines().filter(|l| !l.trim().is_empty() && !dep_line(l, name)).map(String::from).collect();
                    if add {
                        deps.insert(name.into(), dep);
                    } else {
                        deps.remove(name);
                        lines.retain(|l| !l.starts_with('#'));
                    }
                    if add || there {
                        targets.insert(man.clone(), New::Manifest(v, lines));
                    }
                }
                let mut line: Vec<&str> = vec![if add { "add" } else { "remove" }];
                if add {
                    line.extend(args.iter().map(|a| a.as_str()));
                } else {
                    line.push(name);
                }
                let e = m.run(&line);
                let text = format!("largo {}", line.join(" "));
                if !whole || (!add && !there) {
                    ensure!(!e.ok(), "accepted", "`{text}` succeeded on {}", show(old.as_bytes()));
                } else if !e.disturbed {
                    ensure!(e.ok(), "refused", "`{text}` failed undisturbed: {:?} on {}", e.result, show(old.as_bytes()));
                }
                changed += model.after(&text, &targets, &never, &e);
                disturbed += e.disturbed as u64;
            }
            4..=6 => {
                let check = chance(0.15);
                let one = chance(0.3);
                let entry = model.files.get(&man).and_then(|b| String::from_utf8_lossy(b).parse::<Value>().ok()).and_then(|v| v.get("package").cloned());
                let entry_path = entry.as_ref().map(|p| format!("{PROJ}/{}", p.get("entry").and_then(|e| e.as_str()).unwrap_or("src/main.lg")));
                let mut which: Vec<String> = model.files.keys().filter(|p| is_source(p) && p.starts_with(&format!("{PROJ}/src/"))).cloned().collect();
                if let Some(p) = &entry_path {
                    if model.files.contains_key(p) && !which.contains(p) {
                        which.push(p.clone());
                    }
                }
                let mut line = vec!["fmt".to_string()];
                if one && !which.is_empty() {
                    let p = which[pick(which.len() as u64) as usize].clone();
                    // Named from where the developer stands.
                    line.push(match p.strip_prefix(&format!("{cwd}/")) {
                        Some(r) if chance(0.5) => r.into(),
                        _ => p.clone(),
                    });
                    which = vec![p];
                }
                if check {
                    line.push("--check".into());
                }
                let dirty = which.iter().any(|p| formatted(&model.files[p]) != model.files[p]);
                let mut targets = BTreeMap::new();
                if !check {
                    for p in &which {
                        targets.insert(p.clone(), New::Bytes(formatted(&model.files[p])));
                    }
                }
                let args: Vec<&str> = line.iter().map(|a| a.as_str()).collect();
                let e = m.run(&args);
                let text = format!("largo {}", line.join(" "));
                let able = entry.is_some() || line.len() > 1 && !(check && line.len() == 2);
                if check {
                    ensure!(!e.ok() || !dirty, "accepted", "`{text}` found nothing to do, but there is");
                    ensure!(e.disturbed || e.ok() || dirty || !able, "refused", "`{text}` failed undisturbed: {:?}", e.result);
                } else if !e.disturbed && able {
                    ensure!(e.ok(), "refused", "`{text}` failed undisturbed: {:?}", e.result);
                }
                changed += model.after(&text, &targets, &never, &e);
                disturbed += e.disturbed as u64;
            }
            7 => {
                let all = chance(0.5);
                let line: &[&str] = if all { &["clean", "--all"] } else { &["clean"] };
                let there = model.files.contains_key(&man);
                let e = m.run(line);
                let text = format!("largo {}", line.join(" "));
                ensure!(e.ok() || e.disturbed || !there, "refused", "`{text}` failed undisturbed: {:?}", e.result);
                let gone = move |p: &str| p.starts_with("/sim/dev/proj/target/") || all && p.starts_with("/sim/dev/proj/.logos-native/");
                model.after(&text, &BTreeMap::new(), &gone, &e);
                disturbed += e.disturbed as u64;
            }
            8 => {
                // A project where there is one already, or one made from loose sources.
                let (dir, line): (String, Vec<String>) = match pick(3) {
                    0 => (PROJ.into(), vec!["init".into()]),
                    1 => {
                        let d = format!("{HOME}/loose{}", pick(2));
                        m.settle();
                        sim::fs::mkdirs(&d);
                        if chance(0.5) && !model.files.contains_key(&format!("{d}/src/main.lg")) {
                            model.put(&format!("{d}/src/main.lg"), &source());
                        }
                        model.look();
                        (d, vec!["init".into(), "--name".into(), "loose".into()])
                    }
                    _ => {
                        sim::fs::set_cwd(HOME);
                        let n = ["proj", "loose0", "other"][pick(3) as usize];
                        (format!("{HOME}/{n}"), vec!["new".into(), n.into()])
                    }
                };
                if line[0] == "init" {
                    sim::fs::set_cwd(&dir);
                }
                let manifest = format!("{dir}/Largo.toml");
                let there = if line[0] == "init" { model.files.contains_key(&manifest) } else { sim::fs::list(HOME).contains(&dir) };
                let mut targets = BTreeMap::new();
                let main = format!("{dir}/src/main.lg");
                let had_main = model.files.contains_key(&main);
                if !there {
                    let name = if line[0] == "init" { line.get(2).map_or("proj", |n| n) } else { &line[1] };
                    targets.insert(manifest.clone(), New::Fresh(name.to_string()));
                }
                let args: Vec<&str> = line.iter().map(|a| a.as_str()).collect();
                let e = m.run(&args);
                let text = format!("largo {} in {dir}", line.join(" "));
                ensure!(!there || !e.ok(), "accepted", "`{text}` succeeded though there was a project");
                ensure!(there || e.ok() || e.disturbed, "refused", "`{text}` failed undisturbed: {:?}", e.result);
                for p in [&main, &format!("{dir}/.gitignore")] {
                    model.known.insert(p.clone());
                }
                model.after(&text, &targets, &never, &e);
                if e.ok() && !had_main {
                    ensure!(model.files.get(&main).is_some_and(|b| b.starts_with(b"# Main")), "not-done", "`{text}` succeeded without a {main}");
                }
                // What it made has not been promised to outlast a power cut.
                for p in [manifest, main, format!("{dir}/.gitignore")] {
                    if !had_main || !p.ends_with("main.lg") {
                        if let Some(b) = model.files.get(&p).cloned().filter(|_| !there) {
                            if p.ends_with("Largo.toml") {
                                model.maybe.insert(p, vec![Some(b), None]);
                            } else {
                                model.loose.insert(p);
                            }
                        }
                    }
                }
                disturbed += e.disturbed as u64;
            }
            9 | 10 => {
                // Edited by hand, and on the disk.
                m.settle();
                let sources: Vec<String> = model.files.keys().filter(|p| is_source(p)).cloned().collect();
                match pick(4) {
                    0 => model.put(&man, &manifest()),
                    1 if chance(0.3) => model.put(&man, "[package\nname = "),
                    2 => model.put(&format!("{PROJ}/src/new{}.lg", pick(3)), &source()),
                    _ if !sources.is_empty() => model.put(&sources[pick(sources.len() as u64) as usize], &source()),
                    _ => {}
                }
                if chance(0.3) {
                    model.put(&format!("{PROJ}/target/built{step}"), "object");
                }
                model.look();
            }
            _ => {
                m.power_cut();
                model.after_power();
                sim::count("power cuts between commands");
            }
        }
    }
    if changed > 0 && disturbed > 0 {
        sim::nontrivial();
    }
    sim::sample(format!("{changed} files changed, {disturbed} commands disturbed"));
}
