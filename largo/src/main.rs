//! P01–P03: the build tool on a developer's machine. The real `largo` commands run as processes of a
//! simulated machine with its own disk and working directory; package registries are stand-ins.
include!("../../sim/src/exports.rs");
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
mod edit;
mod publish;
mod token;

use sim::{chance, ensure, node, pick, Prop};
use std::collections::BTreeMap;
use util::Host;

pub const S: u64 = 1_000_000_000;
pub const HOME: &str = "/sim/dev";
pub const PROJ: &str = "/sim/dev/proj";
pub const CREDS: &str = "/sim/dev/cfg/logos/credentials.toml";

pub fn faults_so_far() -> u64 {
    let _g = sim::OsGuard::new();
    sim::world::w().counters.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(_, n)| *n).sum()
}

pub struct Machine {
    pub dev: u32,
    result: Host<Option<Result<(), String>>>,
}
/// How a command ended: the machine or process went down, or its result; and whether anything was injected.
pub struct Ended {
    pub result: Option<Result<(), String>>,
    pub disturbed: bool,
}
impl Ended {
    pub fn ok(&self) -> bool {
        matches!(self.result, Some(Ok(())))
    }
}

impl Machine {
    pub fn new() -> Machine {
        let dev = node::add("dev");
        sim::fs::mkdirs(PROJ);
        sim::fs::mkdirs("/sim/dev/cfg");
        unsafe {
            std::env::set_var("HOME", HOME);
            std::env::set_var("XDG_CONFIG_HOME", "/sim/dev/cfg");
            std::env::set_var("LOGOS_CREDENTIALS_PATH", CREDS);
            std::env::remove_var("LOGOS_TOKEN");
        }
        sim::fs::set_cwd(PROJ);
        Machine { dev, result: Host::new(None) }
    }
    pub fn faults(&self) {
        let f = sim::fs_cfg();
        f.p_power = 0.5;
        f.ordered = chance(0.5);
        f.zeroing = chance(0.5);
        if chance(0.6) {
            f.p_crash = [0.02, 0.1, 0.3][pick(3) as usize];
            f.crashes_left = 4;
        }
        if chance(0.5) {
            f.p_err = [0.01, 0.05, 0.15][pick(3) as usize];
            f.p_short = [0.0, 0.1][pick(2) as usize];
            f.errs_left = [1, 3, 50][pick(3) as usize];
        }
        if chance(0.1) {
            f.space = Some(sim::range(0, 3000));
        }
    }
    /// Run one command to its end.
    pub fn run(&self, args: &[&str]) -> Ended {
        let faults = faults_so_far();
        self.result.with(|r| *r = None);
        let args: Vec<String> = ["largo"].iter().chain(args).map(|a| a.to_string()).collect();
        let (out, line) = (self.result.clone(), args.join(" "));
        node::spawn(self.dev, "largo", move || {
            logicaffeine_cli::cli::SIM_ARGS.with(|a| *a.borrow_mut() = args);
            let r = logicaffeine_cli::run_cli().map_err(|e| e.to_string());
            out.with(|o| *o = Some(r));
        });
        let dev = self.dev;
        ensure!(node::wait_for(50 * S, 20_000 * S, || node::finished(dev) || !node::alive(dev)), "stuck", "`{line}` did not end");
        let result = self.result.with(|r| r.take());
        let crashed = result.is_none();
        sim::note("command", format!("{line} -> {result:?}"));
        if crashed {
            sim::count("commands cut short");
            if node::alive(dev) {
                sim::violation("panic", format!("`{line}` ended without a result"));
            }
        }
        Ended { result, disturbed: crashed || faults_so_far() != faults }
    }
    /// Let everything written so far reach the disk.
    pub fn settle(&self) {
        sim::fs::settle(HOME);
    }
    pub fn power_cut(&self) {
        node::crash(self.dev, true);
    }
}

/// Every file below `root` with its content.
pub fn tree(root: &str) -> BTreeMap<String, Vec<u8>> {
    sim::fs::list(root).into_iter().filter_map(|p| sim::fs::peek(&p).map(|b| (p, b))).collect()
}
pub fn put(path: &str, text: &str) {
    let dir = &path[..path.rfind('/').unwrap()];
    sim::fs::mkdirs(dir);
    sim::fs::poke(path, text.as_bytes());
}
pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    format!("{t:?}")
}

/// A source text, mostly not in canonical form.
pub fn source() -> String {
    let mut s = String::from("## Main\n");
    for i in 0..sim::range(1, 8) {
        let pad = ["", "", "  ", "\t"][pick(4) as usize];
        let end = ["", "  ", "\t", "\r"][pick(4) as usize];
        match pick(4) {
            0 => s.push_str(&format!("Let x{i} be {}.{end}\n", pick(1000))),
            1 => s.push_str(&format!("Show \"line {i}\".{end}\n")),
            2 => s.push_str(&format!("If {i} is greater than 2:\n{pad}   Show {i}.{end}\n")),
            _ => s.push_str(&format!("{end}\n")),
        }
    }
    if chance(0.2) {
        for i in 0..200 {
            s.push_str(&format!("Show \"a long program, line {i}\".  \n"));
        }
    }
    if chance(0.2) {
        s.pop();
    }
    s
}
pub fn manifest() -> String {
    let head = ["# the project\n", "", "# two\n# lines\n"][pick(3) as usize];
    let entry = ["", "entry = \"src/main.lg\"\n", "entry = \"app.lg\"\n"][pick(3) as usize];
    let deps = [
        "\n[dependencies]\nstd = \"logos:std\"\nmath = { path = \"./math\" }\n",
        "",
        "\n[dependencies]\n",
        "\n[dependencies]\nalpha = \"1.2\"   # pinned\nbeta = { git = \"https://x/b.git\" }\n\n[dependencies.math]\npath = \"../m\"\n",
    ][pick(4) as usize];
    format!(
        "{head}[package]\nname = \"demo\"  # its name\nversion = \"0.{}.{}\"\ndescription = \"what it does\"\n{entry}{deps}",
        pick(10),
        pick(10)
    )
}
/// A project directory, on the disk for good.
pub fn project() {
    put(&format!("{PROJ}/Largo.toml"), &manifest());
    put(&format!("{PROJ}/src/main.lg"), &source());
    put(&format!("{PROJ}/app.lg"), &source());
    for (name, p) in [("src/lib/util.lg", 0.6), ("src/lib/deep/more.lg", 0.3), ("src/notes.md", 0.5), ("src/.hidden.lg", 0.3), ("src/target/old.lg", 0.2), ("README.md", 0.6)] {
        if chance(p) {
            put(&format!("{PROJ}/{name}"), &source());
        }
    }
    for (name, text, p) in [
        ("src/data.json", "{\"a\": 1}\n", 0.5),
        ("src/conf.toml", "a = 1\n", 0.3),
        ("src/LICENSE", "do as you like\n", 0.2),
        ("src/picture.png", "\u{1}PNG", 0.3),
        ("LICENSE", "all rights reserved\n", 0.4),
        ("notes.txt", "private notes\n", 0.5),
        ("target/out.o", "object", 0.5),
        (".logos-native/cache/f.bin", "bundle", 0.3),
        ("src/empty.lg", "", 0.2),
    ] {
        if chance(p) {
            put(&format!("{PROJ}/{name}"), text);
        }
    }
}

fn main() {
    let real = &["logicaffeine-cli: the commands add, remove, fmt, clean, init, new, login, logout and publish, from command line to disk"];
    sim::main(&[
        Prop {
            id: "P01",
            scenario: edit::p01,
            runs: 25_000,
            rule: "one run = one developer's machine with a project, a sequence of add, remove, fmt, clean, init and new commands, edits by hand, process crashes, power cuts and disk errors; non-trivial when a command was disturbed and another one changed a file; distinct by schedule and fault hash",
            real,
            stubs: &["file system and clock"],
            assumptions: &["one command at a time on a machine", "a change of permission bits is durable at once"],
        },
        Prop {
            id: "P02",
            scenario: token::p02,
            runs: 25_000,
            rule: "one run = one developer's machine and several registries, a sequence of login, logout and publish commands, registry outages, crashes, power cuts, disk errors and damage to the credentials file; non-trivial when a token was stored and a command was disturbed or refused; distinct by schedule and fault hash",
            real,
            stubs: &["the HTTP client and the registries", "file system and clock"],
            assumptions: &["one command at a time on a machine", "a change of permission bits is durable at once"],
        },
        Prop {
            id: "P03",
            scenario: publish::p03,
            runs: 10_000,
            rule: "one run = one project that is published several times between edits, with disk errors, crashes and registry failures; non-trivial when a registry accepted a package and another attempt failed; distinct by schedule and fault hash",
            real,
            stubs: &["the HTTP client and the registries", "file system and clock"],
            assumptions: &["nobody edits the project while it is being published"],
        },
    ]);
}
