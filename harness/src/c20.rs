//! C20: wire protocol. Exhaustive message grids, exhaustive corruption of encodings, all short
//! byte strings, framing through every chunking, and every short conversation with the real
//! server binary.
use crate::fw::*;
use axmosdb::tcp::{MAX_MESSAGE_SIZE, Request, Response, TcpError, read_message, write_message};
use serde_json::{Value, json};
use std::io::{self, Read, Write};
use std::net::TcpStream;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub struct C20;

fn strings(tier: Tier) -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(), " ".into(), "a".into(), "\0".into(), "ab\0cd".into(), "ñ".into(), "日本語".into(), "🦀🦀".into(),
        "\u{10FFFF}".into(), "\u{FEFF}bom".into(), "line\nbreak\r\n".into(), "'quote\"".into(), "NULL".into(),
        "\u{1}\u{2}\u{3}".into(), "e\u{301}".into(), "SELECT * FROM t".into(),
    ];
    for n in [63usize, 64, 127, 128, 255, 256, 257, 4095, 4096, 65535, 65536, 65537] {
        v.push("x".repeat(n));
        v.push("é".repeat(n));
    }
    if tier == Tier::Thorough {
        for n in 1..300usize {
            v.push("y".repeat(n));
            v.push(format!("{}日", "z".repeat(n)));
        }
        for c in (0u32..0x110000).step_by(251).chain([0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000]) {
            if let Some(c) = char::from_u32(c) {
                v.push(c.to_string());
            }
        }
    }
    v
}
fn small_strings() -> Vec<String> {
    vec!["".into(), "a".into(), "ñ日".into(), "\0\0\0\0".into(), "x".repeat(300)]
}
const U64S: [u64; 12] = [0, 1, 2, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX - 1, u64::MAX];

fn req_bits(r: &Request) -> String {
    match r {
        Request::Analyze { sample_rate, max_sample_rows } => format!("Analyze {:x} {}", sample_rate.to_bits(), max_sample_rows),
        o => format!("{o:?}"),
    }
}
fn requests(tier: Tier) -> Vec<Request> {
    let mut v = vec![Request::Begin, Request::Rollback, Request::Commit, Request::Vacuum, Request::Close, Request::Ping, Request::Shutdown];
    for s in strings(tier) {
        v.push(Request::Create(s.clone()));
        v.push(Request::Open(s.clone()));
        v.push(Request::Sql(s.clone()));
        v.push(Request::Explain(s));
    }
    for f in [0.0, -0.0, 1.0, 0.1, -1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::from_bits(0x7ff0000000000001), f64::from_bits(0x0102030405060708)] {
        for n in U64S {
            v.push(Request::Analyze { sample_rate: f, max_sample_rows: n as usize });
        }
    }
    v
}
fn simple_responses(tier: Tier) -> Vec<Response> {
    let mut v = vec![Response::SessionStarted, Response::SessionEnd, Response::Pong, Response::Goodbye, Response::ShuttingDown];
    for s in strings(tier) {
        v.push(Response::Ok(s.clone()));
        v.push(Response::Error(s.clone()));
        v.push(Response::Ddl(s.clone()));
        v.push(Response::Explain(s));
    }
    for n in U64S {
        v.push(Response::RowsAffected(n));
        for m in U64S {
            for k in [0u64, 1, 256, u64::MAX] {
                v.push(Response::VacuumComplete { tables_vacuumed: n as usize, bytes_freed: m as usize, transactions_cleaned: k as usize });
            }
        }
    }
    v
}

fn decode_checks(what: &str, bytes: &[u8], out: &mut Out) {
    // Arbitrary bytes: an error, or a message that encodes to exactly these bytes; memory stays
    // proportionate to the input.
    out.step();
    jemallocator::LARGEST.store(0, Relaxed);
    let cap = 64 * bytes.len() + (1 << 20);
    let rq = guarded(|| Request::from_bytes(bytes).map(|r| r.to_bytes()).map_err(|e| e.to_string()));
    let rs = guarded(|| Response::from_bytes(bytes).map(|r| r.to_bytes()).map_err(|e| e.to_string()));
    let largest = jemallocator::LARGEST.load(Relaxed);
    let show = || format!("{what}: {:02x?}{}", &bytes[..bytes.len().min(60)], if bytes.len() > 60 { "…" } else { "" });
    for (n, r) in [("Request", rq), ("Response", rs)] {
        match r {
            Err(p) => out.violation(format!("{n}::from_bytes {p} on {}", show()), json!(hex(bytes))),
            Ok(Ok(b)) if b != bytes => {
                out.violation(format!("{n}::from_bytes accepts {} although no message encodes to it", show()), json!(hex(bytes)))
            }
            Ok(Ok(_)) => out.count("accepted", 1),
            Ok(Err(_)) => out.count("rejected", 1),
        }
    }
    if largest > cap {
        out.violation(format!("decoding {} bytes requested an allocation of {largest} bytes: {}", bytes.len(), show()), json!(hex(bytes)));
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(4096).map(|x| format!("{x:02x}")).collect()
}

fn rt_req(r: &Request, out: &mut Out) {
    out.step();
    let b = r.to_bytes();
    out.state_of(&b);
    match guarded(|| Request::from_bytes(&b)) {
        Ok(Ok(q)) if req_bits(&q) == req_bits(r) => {}
        Ok(o) => out.violation(format!("request {:.200} decodes as {:.200}", req_bits(r), match o { Ok(q) => req_bits(&q), Err(e) => format!("error {e}") }), json!(hex(&b))),
        Err(p) => out.violation(format!("request {:.200}: {p}", req_bits(r)), json!(hex(&b))),
    }
}
fn rt_resp(r: &Response, out: &mut Out) {
    out.step();
    let b = r.to_bytes();
    out.state_of(&b);
    // a table of rows without columns may also be refused
    let lax = matches!(r, Response::Rows { columns, data } if columns.is_empty() && !data.is_empty());
    match guarded(|| Response::from_bytes(&b)) {
        Ok(Ok(q)) if format!("{q:?}") == format!("{r:?}") => {}
        Ok(Err(_)) if lax => {}
        Ok(o) => out.violation(
            format!("response {:.300} decodes as {:.300}", format!("{r:?}"), match o { Ok(q) => format!("{q:?}"), Err(e) => format!("error {e}") }),
            json!(hex(&b)),
        ),
        Err(p) => out.violation(format!("response {:.300}: {p}", format!("{r:?}")), json!(hex(&b))),
    }
}

/// Base messages whose encodings are corrupted exhaustively.
fn bases() -> Vec<Vec<u8>> {
    let mut v = vec![
        Request::Sql("".into()).to_bytes(),
        Request::Sql("é日🦀z".into()).to_bytes(),
        Request::Create("/d/x".into()).to_bytes(),
        Request::Open("o".into()).to_bytes(),
        Request::Explain("SELECT 1".into()).to_bytes(),
        Request::Analyze { sample_rate: 0.5, max_sample_rows: 1000 }.to_bytes(),
        Request::Begin.to_bytes(), Request::Rollback.to_bytes(), Request::Commit.to_bytes(), Request::Vacuum.to_bytes(),
        Request::Close.to_bytes(), Request::Ping.to_bytes(), Request::Shutdown.to_bytes(),
        Response::Ok("k".into()).to_bytes(),
        Response::Error("".into()).to_bytes(),
        Response::Ddl("d".into()).to_bytes(),
        Response::RowsAffected(7).to_bytes(),
        Response::VacuumComplete { tables_vacuumed: 1, bytes_freed: 2, transactions_cleaned: 3 }.to_bytes(),
        Response::Rows { columns: vec![], data: vec![] }.to_bytes(),
        Response::Rows { columns: vec!["a".into()], data: vec![] }.to_bytes(),
        Response::Rows { columns: vec!["a".into(), "é".into()], data: vec![vec!["1".into(), "".into()], vec!["".into(), "日".into()]] }.to_bytes(),
        Response::SessionStarted.to_bytes(), Response::SessionEnd.to_bytes(), Response::Pong.to_bytes(),
        Response::Goodbye.to_bytes(), Response::ShuttingDown.to_bytes(),
    ];
    v.dedup();
    v
}

/// Delivers at most `n` bytes per call, with an interruption before every call.
struct Chunky<'a> { d: &'a [u8], pos: usize, n: usize, intr: bool }
impl Read for Chunky<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.intr = !self.intr;
        if self.intr {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = self.n.min(b.len()).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct ChunkyW { d: Vec<u8>, n: usize }
impl Write for ChunkyW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.n.min(b.len());
        self.d.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn framing(tier: Tier, out: &mut Out) {
    // sequences of frames through every small chunking
    let payloads: Vec<Vec<u8>> = vec![vec![], vec![1], vec![0; 3], b"abcd".to_vec(), vec![0xff; 5], vec![7; 300]];
    let mut seqs: Vec<Vec<usize>> = vec![];
    for a in 0..payloads.len() {
        for b in 0..payloads.len() {
            seqs.push(vec![a, b]);
            if tier == Tier::Thorough {
                for c in 0..payloads.len() {
                    seqs.push(vec![a, b, c]);
                }
            }
        }
    }
    for s in &seqs {
        for chunk in [1usize, 2, 3, 4, 5, 7, 64, 100000] {
            out.step();
            let mut w = ChunkyW { d: vec![], n: chunk };
            for &i in s {
                if let Err(e) = write_message(&mut w, &payloads[i]) {
                    out.violation(format!("write_message: {e}"), json!(s));
                }
            }
            let mut r = Chunky { d: &w.d, pos: 0, n: chunk, intr: false };
            for &i in s {
                match guarded(|| read_message(&mut r)) {
                    Ok(Ok(m)) if m == payloads[i] => {}
                    o => out.violation(format!("frame {:?} read back as {o:?} (chunk {chunk})", payloads[i]), json!(s)),
                }
            }
            if !matches!(guarded(|| read_message(&mut r)), Ok(Err(_))) {
                out.violation("a frame is read past the end of the stream", json!(s));
            }
            // every truncation: earlier frames intact, the cut one is an error
            let full = w.d.clone();
            if full.len() < 40 {
                for cut in 0..full.len() {
                    out.step();
                    let mut r = Chunky { d: &full[..cut], pos: 0, n: chunk, intr: false };
                    let mut pos = 0;
                    for &i in s {
                        pos += 4 + payloads[i].len();
                        let res = guarded(|| read_message(&mut r));
                        let ok = match &res {
                            Ok(Ok(m)) => pos <= cut && *m == payloads[i],
                            Ok(Err(_)) => pos > cut,
                            Err(_) => false,
                        };
                        if !ok {
                            out.violation(format!("stream cut at {cut}: frame ending at {pos} gives {res:?}"), json!(s));
                        }
                        if pos > cut {
                            break;
                        }
                    }
                }
            }
        }
    }
    // sizes, including the cap
    let m = MAX_MESSAGE_SIZE;
    if m != 16 * 1024 * 1024 {
        out.violation(format!("the cap is {m}, documented as 16 MiB"), json!(null));
    }
    let mut sizes = vec![0usize, 1, 255, 256, 65535, 65536, 1 << 20, m - 1, m];
    if tier == Tier::Thorough {
        sizes.extend([(1 << 24) - 4, (1 << 23), (1 << 23) + 1, 1 << 22]);
    }
    for n in sizes {
        out.step();
        let d: Vec<u8> = (0..n).map(|i| (i * 31 + i / 255) as u8).collect();
        let mut w = vec![];
        match write_message(&mut w, &d) {
            Ok(()) => match read_message(&mut &w[..]) {
                Ok(x) if x == d => {}
                Ok(x) => out.violation(format!("{n}-byte frame comes back with {} bytes", x.len()), json!(n)),
                Err(e) => out.violation(format!("{n}-byte frame: {e}"), json!(n)),
            },
            Err(e) => out.violation(format!("writing a {n}-byte frame: {e}"), json!(n)),
        }
    }
    for n in [m + 1, m + 2, m * 2] {
        out.step();
        let mut w = vec![];
        let r = write_message(&mut w, &vec![1u8; n]);
        if !matches!(r, Err(TcpError::MessageTooLarge(_))) || !w.is_empty() {
            out.violation(format!("writing {n} bytes: {r:?}, {} bytes written", w.len()), json!(n));
        }
    }
    for len in [m as u32 + 1, m as u32 + 2, 0x01ff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x2054_4547] {
        for tail in 0..4usize {
            out.step();
            jemallocator::LARGEST.store(0, Relaxed);
            let mut d = len.to_le_bytes().to_vec();
            d.extend(vec![1u8; tail]);
            let r = guarded(|| read_message(&mut &d[..]));
            if !matches!(r, Ok(Err(TcpError::MessageTooLarge(_)))) {
                out.violation(format!("frame of claimed length {len}: {r:?}"), json!(len));
            }
            if jemallocator::LARGEST.load(Relaxed) > 1 << 20 {
                out.violation(format!("frame of claimed length {len} makes the reader allocate"), json!(len));
            }
        }
    }
    // largest messages that fit a frame
    let s = "é".repeat((m - 6) / 2);
    let b = Request::Sql(s.clone()).to_bytes();
    if b.len() == m {
        let mut w = vec![];
        let r = write_message(&mut w, &b).and_then(|_| read_message(&mut &w[..])).and_then(|d| Request::from_bytes(&d));
        if r.as_ref().ok() != Some(&Request::Sql(s)) {
            out.violation("a request of exactly the cap does not survive", json!(null));
        }
    }
}

// ---------------------------------------------------------------- the server

struct Server { child: Child, port: u16, dir: Scratch }
impl Server {
    fn start() -> Result<Server, String> {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("axserver");
        let dir = Scratch::new();
        for attempt in 0..20u16 {
            let port = {
                let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
                l.local_addr().unwrap().port()
            };
            let child = Command::new(&exe)
                .args(["-p", &port.to_string(), "--pool-size", "1", "--cache-size", "200"])
                .current_dir(dir.path())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("cannot start {}: {e}", exe.display()))?;
            let mut s = Server { child, port, dir: Scratch(dir.path().to_path_buf()) };
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(20) {
                if s.child.try_wait().ok().flatten().is_some() {
                    break;
                }
                if let Ok(mut c) = s.connect() {
                    if matches!(c.ask(&Request::Ping), Ok(Response::Pong)) {
                        std::mem::forget(dir);
                        return Ok(s);
                    }
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let _ = attempt;
            std::mem::forget(std::mem::replace(&mut s.dir, Scratch(std::path::PathBuf::new())));
        }
        Err("server does not start".into())
    }
    fn connect(&self) -> Result<Conn, String> {
        let s = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_secs(20))).ok();
        s.set_write_timeout(Some(Duration::from_secs(20))).ok();
        s.set_nodelay(true).ok();
        Ok(Conn(s))
    }
    fn alive(&mut self) -> bool {
        self.child.try_wait().ok().flatten().is_none()
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
struct Conn(TcpStream);
impl Conn {
    fn send(&mut self, b: &[u8]) -> Result<(), String> {
        self.0.write_all(b).map_err(|e| e.to_string())
    }
    fn recv(&mut self) -> Result<Response, String> {
        let mut l = [0u8; 4];
        self.0.read_exact(&mut l).map_err(|e| format!("no answer: {e}"))?;
        let n = u32::from_le_bytes(l) as usize;
        if n > MAX_MESSAGE_SIZE {
            return Err(format!("answer frame of {n} bytes"));
        }
        let mut b = vec![0; n];
        self.0.read_exact(&mut b).map_err(|e| format!("answer cut short: {e}"))?;
        Response::from_bytes(&b).map_err(|e| format!("answer does not decode: {e}"))
    }
    fn ask(&mut self, r: &Request) -> Result<Response, String> {
        let b = r.to_bytes();
        let mut d = (b.len() as u32).to_le_bytes().to_vec();
        d.extend(b);
        self.send(&d)?;
        self.recv()
    }
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut d = (b.len() as u32).to_le_bytes().to_vec();
    d.extend_from_slice(b);
    d
}

/// Byte sequences no client library would send.
fn garbage() -> Vec<(&'static str, Vec<u8>)> {
    let sql = Request::Sql("SELECT 1".into()).to_bytes();
    let mut bad_utf = Request::Sql("abcd".into()).to_bytes();
    *bad_utf.last_mut().unwrap() = 0xff;
    let mut longer = sql.clone();
    longer[2] += 1;
    let mut shorter = sql.clone();
    shorter[2] -= 1;
    let mut huge = sql.clone();
    huge[2..6].copy_from_slice(&[0xff; 4]);
    vec![
        ("empty frame", frame(&[])),
        ("version only", frame(&[1])),
        ("wrong version", frame(&[2, 7])),
        ("version zero", frame(&[0, 0])),
        ("unknown command 0x00", frame(&[1, 0])),
        ("unknown command 0x08", frame(&[1, 8])),
        ("unknown command 0x7f", frame(&[1, 0x7f])),
        ("no string", frame(&[1, 3])),
        ("half a length", frame(&[1, 3, 0, 0])),
        ("string shorter than claimed", frame(&longer)),
        ("string longer than claimed", frame(&shorter)),
        ("string of claimed 4 GiB", frame(&huge)),
        ("invalid utf-8", frame(&bad_utf)),
        ("ping with a tail", frame(&[1, 7, 0])),
        ("short analyze", frame(&[1, 5, 0, 0, 0, 0, 0, 0, 0, 0, 1])),
        ("frame above the cap", (MAX_MESSAGE_SIZE as u32 + 1).to_le_bytes().to_vec()),
        ("frame of 4 GiB", vec![0xff; 4]),
        ("HTTP", b"GET / HTTP/1.1\r\n\r\n".to_vec()),
    ]
}
/// Conversation moves; expected answer given (open, in transaction).
const MOVES: [&str; 17] = [
    "ping", "begin", "commit", "rollback", "insert", "select", "empty", "wide", "bad", "explain", "vacuum", "analyze", "close", "open", "create", "cut", "garbage",
];

struct Model { open: bool, session: bool, rows: Vec<i64>, pending: Vec<i64>, next: i64 }

fn expect_rows(r: &Result<Response, String>, want_cols: usize, want: &[Vec<String>]) -> bool {
    match r {
        Ok(Response::Rows { columns, data }) => {
            data == want && (columns.len() == want_cols || (want.is_empty() && columns.is_empty()))
        }
        _ => false,
    }
}

fn conversation(srv: &mut Server, n: usize, seq: &[usize], out: &mut Out) -> Result<(), String> {
    let path = srv.dir.path().join(format!("d{n}.db")).to_string_lossy().to_string();
    let mut adm = srv.connect()?;
    let _ = adm.ask(&Request::Close);
    match adm.ask(&Request::Create(path.clone())) {
        Ok(Response::Ok(_)) => {}
        o => return Err(format!("CREATE answers {o:?}")),
    }
    for q in ["CREATE TABLE t (a INT)", "CREATE TABLE w (a INT, b TEXT, c TEXT)", "CREATE TABLE e (a INT)",
        "INSERT INTO w (a, b, c) VALUES (1, '', 'ñ日🦀'), (2, 'NULL', 'x y'), (3, NULL, '')"] {
        match adm.ask(&Request::Sql(q.into())) {
            Ok(Response::Ddl(_)) | Ok(Response::RowsAffected(3)) => {}
            o => return Err(format!("{q} answers {o:?}")),
        }
    }
    let mut m = Model { open: true, session: false, rows: vec![], pending: vec![], next: 1 };
    let mut c = srv.connect()?;
    let mut vacuumed_in_session = false;
    for (k, &mv) in seq.iter().enumerate() {
        out.step();
        let name = MOVES[mv];
        let err = |r: &Result<Response, String>| matches!(r, Ok(Response::Error(_)));
        let (got, ok): (Result<Response, String>, bool) = match name {
            "ping" => { let r = c.ask(&Request::Ping); let ok = matches!(r, Ok(Response::Pong)); (r, ok) }
            "begin" => {
                let r = c.ask(&Request::Begin);
                if m.session || !m.open { let ok = err(&r); (r, ok) } else { m.session = true; m.pending.clear(); vacuumed_in_session = false; let ok = matches!(r, Ok(Response::SessionStarted)); (r, ok) }
            }
            "commit" => {
                let r = c.ask(&Request::Commit);
                if !m.session { let ok = err(&r); (r, ok) } else {
                    m.session = false;
                    let ok = if vacuumed_in_session { r.is_ok() } else { m.rows.append(&mut m.pending); matches!(r, Ok(Response::SessionEnd)) };
                    (r, ok)
                }
            }
            "rollback" => {
                let r = c.ask(&Request::Rollback);
                if !m.session { let ok = err(&r); (r, ok) } else {
                    m.session = false;
                    m.pending.clear();
                    let ok = if vacuumed_in_session { r.is_ok() } else { matches!(r, Ok(Response::SessionEnd)) };
                    (r, ok)
                }
            }
            "insert" => {
                let v = m.next;
                m.next += 1;
                let r = c.ask(&Request::Sql(format!("INSERT INTO t (a) VALUES ({v}), ({})", -v)));
                if vacuumed_in_session && m.session { let ok = r.is_ok(); (r, ok) }
                else if m.session || m.open {
                    if m.session { m.pending.extend([v, -v]) } else { m.rows.extend([v, -v]) }
                    let ok = matches!(r, Ok(Response::RowsAffected(2)));
                    (r, ok)
                } else { let ok = err(&r); (r, ok) }
            }
            "select" => {
                let r = c.ask(&Request::Sql("SELECT a FROM t ORDER BY a".into()));
                if vacuumed_in_session && m.session { let ok = r.is_ok(); (r, ok) }
                else if m.session || m.open {
                    let mut v = m.rows.clone();
                    if m.session { v.extend(&m.pending) }
                    v.sort();
                    let want: Vec<Vec<String>> = v.iter().map(|x| vec![x.to_string()]).collect();
                    let ok = expect_rows(&r, 1, &want);
                    (r, ok)
                } else { let ok = err(&r); (r, ok) }
            }
            "empty" => {
                let r = c.ask(&Request::Sql("SELECT a FROM e".into()));
                let ok = if m.session || m.open { expect_rows(&r, 1, &[]) || (vacuumed_in_session && r.is_ok()) } else { err(&r) };
                (r, ok)
            }
            "wide" => {
                let r = c.ask(&Request::Sql("SELECT a, b, c FROM w ORDER BY a".into()));
                let want: Vec<Vec<String>> = [["1", "", "ñ日🦀"], ["2", "NULL", "x y"], ["3", "NULL", ""]].iter().map(|r| r.iter().map(|s| s.to_string()).collect()).collect();
                let ok = if m.session || m.open { expect_rows(&r, 3, &want) || (vacuumed_in_session && r.is_ok()) } else { err(&r) };
                (r, ok)
            }
            "bad" => { let r = c.ask(&Request::Sql("SELEC nothing é".into())); let ok = err(&r); (r, ok) }
            "explain" => {
                let r = c.ask(&Request::Explain("SELECT a FROM t".into()));
                let ok = if m.open { matches!(r, Ok(Response::Explain(_))) } else { err(&r) };
                (r, ok)
            }
            "vacuum" => {
                let r = c.ask(&Request::Vacuum);
                if m.session { vacuumed_in_session = true; m.pending.clear(); }
                let ok = if m.open { matches!(r, Ok(Response::VacuumComplete { .. })) } else { err(&r) };
                (r, ok)
            }
            "analyze" => {
                let r = c.ask(&Request::Analyze { sample_rate: 1.0, max_sample_rows: 100 });
                let ok = if m.open { matches!(r, Ok(Response::Ok(_))) } else { err(&r) };
                (r, ok)
            }
            "close" => {
                if m.session { continue; } // a session outliving its database is another matter
                let r = c.ask(&Request::Close);
                let ok = if m.open { matches!(r, Ok(Response::Goodbye)) } else { err(&r) };
                m.open = false;
                (r, ok)
            }
            "open" => {
                let r = c.ask(&Request::Open(path.clone()));
                let ok = if m.open { err(&r) } else { matches!(r, Ok(Response::Ok(_))) };
                m.open = true;
                (r, ok)
            }
            "create" => {
                // the file exists: refused either way
                let r = c.ask(&Request::Create(path.clone()));
                let ok = err(&r);
                (r, ok)
            }
            "cut" => {
                // half a frame, then the client disappears
                let f = frame(&Request::Sql("INSERT INTO t (a) VALUES (99)".into()).to_bytes());
                let _ = c.send(&f[..f.len() / 2]);
                m.session = false;
                m.pending.clear();
                c = srv.connect()?;
                let r = c.ask(&Request::Ping);
                let ok = matches!(r, Ok(Response::Pong));
                (r, ok)
            }
            _ => {
                let g = garbage();
                let g = &g[(n + k) % g.len()];
                c.send(&g.1)?;
                let r = c.recv();
                let ok = err(&r);
                m.session = false;
                m.pending.clear();
                c = srv.connect()?;
                (r, ok)
            }
        };
        out.state_of(&(m.open, m.session, m.rows.len().min(6), m.pending.len().min(4), mv));
        if !ok {
            return Err(format!("step {k} ({name}) answers {:.300}", format!("{got:?}")));
        }
        if !srv.alive() {
            return Err(format!("the server process ends at step {k} ({name})"));
        }
    }
    out.traces += 1;
    Ok(())
}

fn server_garbage(out: &mut Out, tier: Tier) -> Result<(), String> {
    let mut srv = Server::start()?;
    let p = srv.dir.path().join("g.db").to_string_lossy().to_string();
    let _ = srv.connect()?.ask(&Request::Create(p));
    let mut list: Vec<(String, Vec<u8>)> = garbage().into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    // every frame of up to two bytes that is not a request
    for a in 0..=255u8 {
        list.push((format!("frame [{a}]"), frame(&[a])));
    }
    let step = tier.pick(7usize, 1);
    for a in (0..=255usize).step_by(step) {
        let a = a as u8;
        if Request::from_bytes(&[1, a]).is_err() {
            list.push((format!("frame [1, {a}]"), frame(&[1, a])));
        }
        if a != 1 {
            list.push((format!("frame [{a}, 7]"), frame(&[a, 7])));
        }
    }
    for b in bases() {
        for i in 1..b.len() {
            if Request::from_bytes(&b[..i]).is_err() {
                list.push((format!("truncated {:02x?}", &b[..i]), frame(&b[..i])));
            }
        }
    }
    // wait for the ok before the next connection; several connections at a time keep it quick
    for chunk in list.chunks(32) {
        let mut cs = vec![];
        for (what, g) in chunk {
            let mut c = srv.connect()?;
            c.send(g)?;
            cs.push((what, c));
        }
        for (what, mut c) in cs {
            out.step();
            match c.recv() {
                Ok(Response::Error(_)) => {}
                o => return Err(format!("{what}: answered with {o:?} instead of a protocol error")),
            }
        }
        match srv.connect()?.ask(&Request::Ping) {
            Ok(Response::Pong) => {}
            o => return Err(format!("after {:?}: ping answers {o:?}", chunk.last().map(|c| &c.0))),
        }
    }
    if !srv.alive() {
        return Err("the server process ended".into());
    }
    // result sizes around the cap: rows of a known text, answered intact or with an error
    let mut c = srv.connect()?;
    for q in ["CREATE TABLE b (s TEXT)".to_string(), format!("INSERT INTO b (s) VALUES ('{}')", "é日".repeat(2000))] {
        if let Ok(Response::Error(e)) = c.ask(&Request::Sql(q)) {
            return Err(format!("setup: {e}"));
        }
    }
    let want = vec![vec!["é日".repeat(2000)]];
    let r = c.ask(&Request::Sql("SELECT s FROM b".into()));
    if !expect_rows(&r, 1, &want) {
        return Err(format!("10 kB row: {:.200}", format!("{r:?}")));
    }
    for _ in 0..6 {
        // 4 copies each: doubles by cross join below
        let _ = c.ask(&Request::Sql(format!("INSERT INTO b (s) VALUES ('{}')", "é日".repeat(2000))));
    }
    // 7^4 = 2401 rows of 10 kB is beyond the cap
    for (sql, n) in [("SELECT b.s FROM b JOIN b AS c ON 1 = 1", 49usize), ("SELECT b.s FROM b JOIN b AS c ON 1 = 1 JOIN b AS d ON 1 = 1", 343), ("SELECT b.s FROM b JOIN b AS c ON 1 = 1 JOIN b AS d ON 1 = 1 JOIN b AS f ON 1 = 1", 2401)] {
        out.step();
        let r = c.ask(&Request::Sql(sql.into()));
        let fits = n * (10000 + 4) + 64 <= MAX_MESSAGE_SIZE;
        let ok = match &r {
            Ok(Response::Rows { data, .. }) => fits && data.len() == n && data.iter().all(|x| *x == want[0]),
            Ok(Response::Error(_)) => !fits,
            _ => false,
        };
        if !ok {
            return Err(format!("{n} rows of 10 kB: {:.200}", format!("{r:?}")));
        }
        match c.ask(&Request::Ping) {
            Ok(Response::Pong) => {}
            o => return Err(format!("after {n} rows: ping answers {o:?}")),
        }
    }
    match c.ask(&Request::Shutdown) {
        Ok(Response::ShuttingDown) => {}
        o => return Err(format!("shutdown answers {o:?}")),
    }
    Ok(())
}

const ALPHA: [u8; 8] = [0, 1, 2, 4, 0x41, 0x80, 0xc3, 0xff];

impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn items(&self, tier: Tier) -> Vec<Value> {
        let mut v = vec![json!({"k": "requests"}), json!({"k": "responses"}), json!({"k": "framing"}), json!({"k": "server"})];
        for c in 0..4 {
            v.push(json!({"k": "rows", "cols": c}));
        }
        for (i, _) in bases().iter().enumerate() {
            v.push(json!({"k": "corrupt", "base": i}));
        }
        for t in 0..16 {
            v.push(json!({"k": "short", "shard": t}));
        }
        for m in 0..MOVES.len() {
            v.push(json!({"k": "talk", "first": m}));
        }
        v
    }
    fn run(&self, tier: Tier, spec: &Value, out: &mut Out) {
        jemallocator::CAP.store(256 << 20, Relaxed);
        match spec["k"].as_str().unwrap() {
            "requests" => requests(tier).iter().for_each(|r| rt_req(r, out)),
            "responses" => simple_responses(tier).iter().for_each(|r| rt_resp(r, out)),
            "framing" => framing(tier, out),
            "rows" => {
                let c = spec["cols"].as_u64().unwrap() as usize;
                let ss = small_strings();
                // every assignment of the small strings to up to 3 cells beyond the names
                let maxr = if c <= 1 { 3 } else { tier.pick(1, 2) };
                for rows in 0..=maxr {
                    let cells = c + c * rows;
                    let k = if cells <= 4 { ss.len() } else { 3 };
                    let total = k.pow(cells as u32);
                    for x in 0..total {
                        let mut y = x;
                        let mut nxt = || { let s = ss[y % k].clone(); y /= k; s };
                        let columns: Vec<String> = (0..c).map(|_| nxt()).collect();
                        let data: Vec<Vec<String>> = (0..rows).map(|_| (0..c).map(|_| nxt()).collect()).collect();
                        rt_resp(&Response::Rows { columns, data }, out);
                    }
                }
                // large tables
                for (nc, nr) in [(1usize, 100000usize), (300, 3), (1, 65536), (70000, 1), (16, 257), (0, 0), (5, 0)] {
                    if nc % 4 == c {
                        let columns: Vec<String> = (0..nc).map(|i| format!("c{i}")).collect();
                        let data: Vec<Vec<String>> = (0..nr).map(|r| (0..nc).map(|i| if (r + i) % 3 == 0 { String::new() } else { format!("é{}", r * 7 + i) }).collect()).collect();
                        rt_resp(&Response::Rows { columns, data }, out);
                    }
                }
            }
            "corrupt" => {
                let b = &bases()[spec["base"].as_u64().unwrap() as usize];
                decode_checks("intact", b, out);
                for cut in 0..b.len() {
                    decode_checks("truncated", &b[..cut], out);
                }
                for t in 0..=255u8 {
                    let mut x = b.clone();
                    x.push(t);
                    decode_checks("extended", &x, out);
                }
                for i in 0..b.len() {
                    for v in 0..=255u8 {
                        let mut x = b.clone();
                        x[i] = v;
                        decode_checks("one byte changed", &x, out);
                    }
                    let mut x = b.clone();
                    x.remove(i);
                    decode_checks("one byte removed", &x, out);
                    for v in ALPHA {
                        let mut x = b.clone();
                        x.insert(i, v);
                        decode_checks("one byte inserted", &x, out);
                    }
                    for j in 0..i {
                        let (av, bv): (Vec<u8>, Vec<u8>) = if tier == Tier::Thorough { ((0..=255).collect(), ALPHA.to_vec()) } else { (ALPHA.to_vec(), ALPHA.to_vec()) };
                        for &v in &av {
                            for &w in &bv {
                                let mut x = b.clone();
                                x[i] = v;
                                x[j] = w;
                                decode_checks("two bytes changed", &x, out);
                            }
                        }
                    }
                }
                // every aligned 4-byte window becomes each extreme count
                for i in 2..b.len().saturating_sub(3) {
                    for v in [0u32, 1, 0xff, 0x1_0000, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff] {
                        let mut x = b.clone();
                        x[i..i + 4].copy_from_slice(&v.to_le_bytes());
                        decode_checks("count replaced", &x, out);
                    }
                }
            }
            "short" => {
                let sh = spec["shard"].as_u64().unwrap() as u32;
                // all strings of up to 2 bytes, and version 1 + any command + any byte
                if sh == 0 {
                    decode_checks("short", &[], out);
                    for a in 0..=255u8 {
                        decode_checks("short", &[a], out);
                        for b in 0..=255u8 {
                            decode_checks("short", &[a, b], out);
                            decode_checks("short", &[1, a, b], out);
                        }
                    }
                }
                // version 1, each command, payload over the alphabet
                let depth = tier.pick(5u32, 7);
                for cmd in (0..16u32).map(|c| if c == 15 { 0xff } else { c as u8 }) {
                    if cmd as u32 % 16 != sh {
                        continue;
                    }
                    for len in 1..=depth {
                        for x in 0..8u64.pow(len) {
                            let mut b = vec![1u8, cmd];
                            let mut y = x;
                            for _ in 0..len {
                                b.push(ALPHA[(y % 8) as usize]);
                                y /= 8;
                            }
                            decode_checks("short", &b, out);
                        }
                    }
                    // counts followed by short tails
                    for n in 0..=tier.pick(3u32, 5) {
                        for l0 in [0u32, 1, 2, 3, 0xffff_ffff, 0x4000_0000] {
                            for x in 0..8u64.pow(n) {
                                for l1 in [0u32, 1, 2, 0xffff_ffff] {
                                    let mut b = vec![1u8, cmd];
                                    b.extend(l0.to_le_bytes());
                                    let mut y = x;
                                    for _ in 0..n {
                                        b.push(ALPHA[(y % 8) as usize]);
                                        y /= 8;
                                    }
                                    b.extend(l1.to_le_bytes());
                                    decode_checks("short", &b, out);
                                }
                            }
                        }
                    }
                }
            }
            "server" => {
                if let Err(e) = server_garbage(out, tier) {
                    out.violation(format!("server: {e}"), spec.clone());
                }
            }
            "talk" => {
                let f = spec["first"].as_u64().unwrap() as usize;
                let depth = tier.pick(2usize, 3);
                let mut srv = match Server::start() {
                    Ok(s) => s,
                    Err(e) => {
                        out.violation(e, spec.clone());
                        return;
                    }
                };
                let m = MOVES.len();
                for x in 0..m.pow(depth as u32 - 1) {
                    let mut seq = vec![f];
                    let mut y = x;
                    for _ in 1..depth {
                        seq.push(y % m);
                        y /= m;
                    }
                    // and a closing look at the table
                    seq.push(5);
                    seq.push(7);
                    let names: Vec<&str> = seq.iter().map(|i| MOVES[*i]).collect();
                    if x == 0 {
                        out.sample(json!(names));
                    }
                    if let Err(e) = conversation(&mut srv, x, &seq, out) {
                        out.violation(format!("server conversation {names:?}: {e}"), json!(names));
                        if let Ok(s) = Server::start() {
                            srv = s;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("all message variants over boundary field values; tables up to 3x3 over {} strings plus large ones; every truncation, extension, 1-byte change/insertion/removal and 2-byte change of {} encodings; all byte strings over an 8-byte alphabet up to {} payload bytes for every command; every frame size class and chunking; every server conversation of {} moves over {} moves plus two reads", small_strings().len(), bases().len(), tier.pick(5, 7), tier.pick(2, 3), MOVES.len())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["loopback TCP delivers bytes in order; the server is compiled from the repository's own source with the system allocator in place of jemalloc".into()]
    }
    fn item_timeout(&self, tier: Tier) -> Duration {
        Duration::from_secs(tier.pick(240, 3000))
    }
}
