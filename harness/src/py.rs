//! Persistent Python processes that run the repository's ingestion helper, one per thread.
use crate::case::*;
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

pub const HELPER: &str = "/repo/scripts/mps-generate-avro-data-helper.py";

fn start(env: &Env) -> std::io::Result<Worker> {
    let mut child = Command::new("python3")
        .arg(format!("{}/harness/py/ingest.py", crate::verif()))
        .arg(HELPER)
        .arg(&env.scratch)
        .env("PYTHONUTF8", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Ok(Worker { child, to, from })
}

/// One batch through the helper. None: the process died.
pub fn ingest(env: &Env, job: &Value) -> Option<Value> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(start(env).expect("python3"));
        }
        let x = w.as_mut().unwrap();
        let mut line = String::new();
        let ok = writeln!(x.to, "{}", job).and_then(|_| x.to.flush()).is_ok()
            && x.from.read_line(&mut line).map_or(false, |n| n > 0);
        if !ok {
            *w = None;
            return None;
        }
        serde_json::from_str(&line).ok()
    })
}
