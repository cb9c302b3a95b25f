//! An SMT solver over a pipe, driven incrementally.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    buf: String,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub name: String,
    log: Option<std::fs::File>,
}

impl Solver {
    pub fn new(name: &str, timeout_ms: u64, logic: &str) -> Solver {
        let mut cmd = match name {
            "cvc5" => {
                let mut c = Command::new("cvc5");
                c.args(["--incremental", "--produce-models", "--lang=smt2", "-q"]);
                c.arg(format!("--tlimit-per={timeout_ms}"));
                if logic == "QF_BV" {
                    c.arg("--bitblast=eager");
                }
                c
            }
            n => {
                let mut c = Command::new(n);
                c.args(["-in", "-smt2"]);
                c
            }
        };
        let mut child = cmd
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {name}: {e}"));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            child,
            inp,
            out,
            buf: String::new(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: Duration::ZERO,
            name: name.to_string(),
            log: std::env::var("SYM_SMT_LOG").ok().map(|p| std::fs::File::create(p).unwrap()),
        };
        s.send("(set-option :global-declarations true)\n");
        s.send("(set-option :produce-models true)\n");
        if name != "cvc5" {
            s.send(&format!("(set-option :timeout {timeout_ms})\n"));
        }
        if name == "cvc5" {
            s.send(&format!("(set-logic {})\n", if logic.is_empty() { "QF_BV" } else { logic }));
        } else if !logic.is_empty() && !std::env::var("SYM_NOLOGIC").is_ok() {
            s.send(&format!("(set-logic {logic})\n"));
        }
        s
    }

    pub fn send(&mut self, t: &str) {
        self.buf += t;
        if self.buf.len() > 1 << 16 {
            self.flush();
        }
    }

    fn flush(&mut self) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(self.buf.as_bytes());
        }
        if let Err(e) = self.inp.write_all(self.buf.as_bytes()).and_then(|_| self.inp.flush()) {
            eprintln!("TOOL-ERROR solver pipe: {e}");
            std::process::exit(90);
        }
        self.buf.clear();
    }

    fn line(&mut self) -> String {
        let mut l = String::new();
        match self.out.read_line(&mut l) {
            Ok(n) if n > 0 => {}
            r => {
                eprintln!("TOOL-ERROR solver {} ended: {r:?}", self.name);
                std::process::exit(90);
            }
        }
        if l.starts_with("(error") {
            eprintln!("TOOL-ERROR solver {}: {l}", self.name);
            std::process::exit(90);
        }
        l
    }

    pub fn push(&mut self) {
        self.send("(push 1)\n");
    }
    pub fn pop(&mut self) {
        self.send("(pop 1)\n");
    }

    pub fn check(&mut self) -> Sat {
        let t = Instant::now();
        self.send("(check-sat)\n");
        self.flush();
        let l = self.line();
        self.time += t.elapsed();
        self.queries += 1;
        match l.trim() {
            "sat" => {
                self.sat += 1;
                Sat::Sat
            }
            "unsat" => {
                self.unsat += 1;
                Sat::Unsat
            }
            _ => {
                self.unknown += 1;
                Sat::Unknown
            }
        }
    }

    /// Values of the given constants (two's complement for integers), in order.
    pub fn values(&mut self, names: &[String]) -> Vec<u64> {
        if names.is_empty() {
            return vec![];
        }
        let t = Instant::now();
        self.send(&format!("(get-value ({}))\n", names.join(" ")));
        self.flush();
        // read until parentheses balance
        let mut text = String::new();
        loop {
            let l = self.line();
            text += &l;
            let open = text.matches('(').count();
            let close = text.matches(')').count();
            if open == close && open > 0 {
                break;
            }
        }
        self.time += t.elapsed();
        let mut out = vec![];
        let toks: Vec<&str> = text.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|s| !s.is_empty()).collect();
        let mut i = 0;
        for name in names {
            while toks[i] != name {
                i += 1;
            }
            let v = toks[i + 1];
            out.push(if v == "-" {
                // (- 5)
                (-toks[i + 2].parse::<i64>().unwrap()) as u64
            } else if let Ok(d) = v.parse::<i64>() {
                d as u64
            } else if let Some(b) = v.strip_prefix("#b") {
                u64::from_str_radix(b, 2).unwrap()
            } else if let Some(h) = v.strip_prefix("#x") {
                u64::from_str_radix(h, 16).unwrap()
            } else {
                // (_ bvN w)
                toks[i + 2].trim_start_matches("bv").parse().unwrap()
            });
            i += 2;
        }
        out
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
