//! C17: every sequence of log operations up to a depth, on the real WriteAheadLog.
use crate::fw::*;
use crate::tap;
use axmosdb::verif::wal::{Log, RECORD_HEADER, Rec};
use serde_json::{Value, json};

/// Operations of the history alphabet.
/// T/O/H/Z/Y/M append records of various sizes, F forces, R closes and reopens, K truncates,
/// C dies (nothing unforced survives) and reopens, P/Q die inside a force after 1/2 file writes.
const FULL: &[u8] = b"THZMFRKC";

pub struct C17;

fn seqs(alpha: &[u8], len: usize, out: &mut Vec<String>) {
    let mut cur = vec![0usize; len];
    loop {
        out.push(cur.iter().map(|i| alpha[*i] as char).collect());
        let mut p = len;
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            cur[p] += 1;
            if cur[p] < alpha.len() {
                break;
            }
            cur[p] = 0;
        }
    }
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        // An item is (alphabet, prefix, depth): the worker runs every extension of the prefix up
        // to the depth.
        let mut v = vec![];
        let mut add = |alpha: &str, plen: usize, depth: usize, warm: &str| {
            let mut p = vec![];
            seqs(alpha.as_bytes(), plen, &mut p);
            for x in p {
                v.push(json!({"alpha": alpha, "prefix": x, "depth": depth, "warm": warm}));
            }
        };
        // all kinds of operations, shallow
        add("TOHZYMFRKCPQ", 2, tier.pick(5, 6), "");
        // core operations, deeper
        add(std::str::from_utf8(FULL).unwrap(), 2, tier.pick(6, 7), "");
        // many blocks: start from a log of 3 / 6 / 9 full blocks (read-ahead reloads)
        add("MHFRCP", 1, tier.pick(4, 6), "MMM");
        add("MHFRKC", 1, tier.pick(4, 6), "MMMMMM");
        add("THMFRC", 1, tier.pick(3, 5), "HHHHHHHHHHHHHHHHHHHHHHHHHHH");
        add("TYFR", 1, tier.pick(4, 7), "HHH");
        // long, narrow
        add("HF", 2, tier.pick(9, 13), "");
        add("HFR", 2, tier.pick(7, 9), "");
        add("YRC", 2, tier.pick(6, 8), "F");
        v
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every sequence over 12 log operations to length {}, over 8 to length {}, plus narrower alphabets to length {} from empty / 3-block / 7-block / 9-block logs; read back with read-ahead 1, 2, 3 and 5 blocks after every operation",
            tier.pick(5, 6), tier.pick(6, 7), tier.pick(9, 13)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a crash drops a suffix of the write() calls of the log file; one write() call is atomic".into()]
    }
    fn run(&self, _tier: Tier, spec: &Value, out: &mut Out) {
        let alpha = spec["alpha"].as_str().unwrap().as_bytes().to_vec();
        let prefix = spec["prefix"].as_str().unwrap().to_string();
        let warm = spec["warm"].as_str().unwrap().to_string();
        let depth = spec["depth"].as_u64().unwrap() as usize;
        if let Some(h) = spec["only"].as_str() {
            one(h, 0, out);
            return;
        }
        let sc = Scratch::new();
        let _ = &sc;
        // Only maximal sequences are executed: every prefix is checked on the way.
        let ext = depth.saturating_sub(prefix.len());
        let mut tails = vec![];
        if ext == 0 {
            tails.push(String::new());
        } else {
            seqs(&alpha, ext, &mut tails);
        }
        for t in tails {
            let h = format!("{warm}{prefix}{t}");
            one(&h, warm.len(), out);
            if out.violations.len() >= 3 {
                return;
            }
        }
    }
}

struct World {
    log: Option<Log>,
    path: std::path::PathBuf,
    forced: Vec<Rec>,
    pending: Vec<Rec>,
    n: u64,
}

fn rec(size: usize, n: u64, lsn: u64) -> Rec {
    let kinds = [0u8, 8, 6, 7, 1, 9, 10, 11, 2, 3];
    let kind = kinds[(n % 10) as usize];
    let payload = size - RECORD_HEADER;
    // vary how the payload is split between undo and redo; odd lengths exercise the padding
    let undo = match n % 4 {
        0 => payload / 2,
        1 => 0,
        2 => payload,
        _ => payload / 3 + 1,
    }
    .min(payload);
    let fill = |k: u64, len: usize| (0..len).map(|i| (k as usize * 31 + i * 7 + len) as u8).collect::<Vec<u8>>();
    Rec {
        lsn,
        tid: 1 + n % 3,
        prev: if n % 5 == 0 { None } else { Some(n + 7) },
        oid: if kind <= 3 { None } else { Some(n * 3) },
        row: if kind <= 3 { None } else { Some(n * 11 + 1) },
        kind,
        undo: fill(n, undo),
        redo: fill(n + 100, payload - undo),
    }
}

/// Executes one history; `skip` leading operations are not read back individually.
fn one(h: &str, skip: usize, out: &mut Out) {
    tap::reset();
    let sc = Scratch::new();
    let path = sc.path().join("axmos.log");
    out.traces += 1;
    let r = guarded(|| run_history(h, skip, path, out));
    tap::reset();
    let v = match r {
        Ok(Ok(())) => return,
        Ok(Err(e)) => e,
        Err(p) => p,
    };
    out.violation(
        format!("history {h}: {v}"),
        json!({"alpha": "", "prefix": "", "warm": "", "depth": 0, "only": h}),
    );
}

fn run_history(h: &str, skip: usize, path: std::path::PathBuf, out: &mut Out) -> Result<(), String> {
    let log = Log::create(&path).map_err(|e| format!("create: {e}"))?;
    let max = log.max_record();
    let mut w = World { log: Some(log), path, forced: vec![], pending: vec![], n: 0 };
    for (i, op) in h.bytes().enumerate() {
        out.step();
        let size = match op {
            b'T' => RECORD_HEADER,
            b'O' => RECORD_HEADER + 1,
            b'H' => 13_001,
            b'Z' => max / 2,
            // fills block zero exactly after nothing / leaves a few bytes
            b'Y' => (max - 64) / 2,
            b'M' => max,
            _ => 0,
        };
        match op {
            b'T' | b'O' | b'H' | b'Z' | b'Y' | b'M' => {
                let log = w.log.as_mut().unwrap();
                let lsn = log.last_lsn().map_or(0, |l| l + 1);
                if let Some(last) = w.pending.last().or(w.forced.last()) {
                    if lsn <= last.lsn {
                        return Err(format!("step {i}: the next sequence number {lsn} does not exceed the last one {}", last.lsn));
                    }
                }
                let r = rec(size, w.n, lsn);
                w.n += 1;
                log.push(&r).map_err(|e| format!("step {i}: append of a {size}-byte record (max {max}) refused: {e}"))?;
                w.pending.push(r);
            }
            b'F' => {
                w.log.as_mut().unwrap().force().map_err(|e| format!("step {i}: force: {e}"))?;
                let p = std::mem::take(&mut w.pending);
                w.forced.extend(p);
            }
            b'K' => {
                w.log.as_mut().unwrap().truncate().map_err(|e| format!("step {i}: truncate: {e}"))?;
                w.forced.clear();
                w.pending.clear();
            }
            b'R' => {
                w.log = None; // close (forces)
                let p = std::mem::take(&mut w.pending);
                w.forced.extend(p);
                w.log = Some(Log::open(&w.path).map_err(|e| format!("step {i}: reopen: {e}"))?);
            }
            b'C' => {
                tap::freeze_after(0);
                w.log = None;
                tap::reset();
                w.pending.clear();
                w.log = Some(Log::open(&w.path).map_err(|e| format!("step {i}: open after a crash: {e}"))?);
            }
            b'P' | b'Q' => {
                tap::freeze_after(if op == b'P' { 1 } else { 2 });
                let r = w.log.as_mut().unwrap().force();
                w.log = None;
                tap::reset();
                r.map_err(|e| format!("step {i}: force: {e}"))?;
                w.log = Some(Log::open(&w.path).map_err(|e| format!("step {i}: open after a crash inside a force: {e}"))?);
                // the interrupted force may have covered any prefix of the pending records
                let limit = w.forced.len() + w.pending.len();
                let got = w.log.as_mut().unwrap().read_all(2, limit + 1).map_err(|e| format!("step {i}: read: {e}"))?;
                if got.len() < w.forced.len() || got.len() > limit {
                    return Err(format!("step {i}: {} records after a crash inside a force; {} forced, {} pending", got.len(), w.forced.len(), w.pending.len()));
                }
                let keep = got.len() - w.forced.len();
                w.forced.extend(w.pending.drain(..).take(keep));
            }
            _ => unreachable!(),
        }
        out.state_of(&(
            w.forced.iter().map(|r| r.undo.len() + r.redo.len()).collect::<Vec<_>>(),
            w.pending.iter().map(|r| r.undo.len() + r.redo.len()).collect::<Vec<_>>(),
            op == b'F' || op == b'R' || op == b'C',
        ));
        if i + 1 < skip {
            continue;
        }
        for ra in [1usize, 2, 3, 5] {
            let got = w.log.as_mut().unwrap().read_all(ra, w.forced.len() + 4).map_err(|e| format!("step {i} ({}): read back with read-ahead {ra}: {e}", op as char))?;
            out.count("read_backs", 1);
            if got != w.forced {
                return Err(format!("step {i} ({}): read-ahead {ra}: {}", op as char, diff(&got, &w.forced)));
            }
        }
        let an = w.log.as_mut().unwrap().analysis();
        match an {
            Ok(a) => {
                let mut want: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
                for r in &w.forced {
                    want.entry(r.tid).or_default().push(r.lsn);
                }
                if a != want.into_iter().collect::<Vec<_>>() {
                    return Err(format!("step {i}: analysis pass sees other per-transaction chains: {a:?}"));
                }
            }
            Err(e) => return Err(format!("step {i}: analysis: {e}")),
        }
    }
    out.sample(json!({"history": h, "forced": w.forced.len(), "pending": w.pending.len()}));
    Ok(())
}

fn diff(got: &[Rec], want: &[Rec]) -> String {
    let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let s = |r: Option<&Rec>| {
        r.map_or("-".to_string(), |r| format!("(lsn {} tid {} kind {} prev {:?} oid {:?} row {:?} undo {} redo {} bytes)", r.lsn, r.tid, r.kind, r.prev, r.oid, r.row, r.undo.len(), r.redo.len()))
    };
    format!("{} records read, {} expected; first difference at {p}: read {} expected {}", got.len(), want.len(), s(got.get(p)), s(want.get(p)))
}
