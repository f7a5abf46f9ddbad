//! An in-process Redis server speaking RESP2 over a unix socket: a model of the mCaptcha module and
//! of the few core commands the library uses, on a logical clock, with scripted faults.
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

pub type B = Vec<u8>;

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Simple(String),
    Err(String),
    Int(i64),
    Bulk(B),
    Nil,
    Array(Vec<Reply>),
    Raw(B),
}
pub fn bulk(s: &str) -> Reply {
    Reply::Bulk(s.as_bytes().to_vec())
}
pub fn ok() -> Reply {
    Reply::Simple("OK".into())
}
pub fn err(s: &str) -> Reply {
    Reply::Err(format!("ERR {s}"))
}
impl Reply {
    fn put(&self, o: &mut B) {
        match self {
            Reply::Simple(s) => o.extend(format!("+{s}\r\n").bytes()),
            Reply::Err(s) => o.extend(format!("-{s}\r\n").bytes()),
            Reply::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
            Reply::Nil => o.extend(b"$-1\r\n"),
            Reply::Bulk(b) => {
                o.extend(format!("${}\r\n", b.len()).bytes());
                o.extend(b);
                o.extend(b"\r\n");
            }
            Reply::Array(v) => {
                o.extend(format!("*{}\r\n", v.len()).bytes());
                v.iter().for_each(|r| r.put(o));
            }
            Reply::Raw(b) => o.extend(b),
        }
    }
}

// ---- the module --------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct MSite {
    pub levels: Vec<(u32, u32)>,
    pub duration: u64,
    /// when each counted visit leaves
    pub visits: Vec<u64>,
}
impl MSite {
    pub fn difficulty(&self) -> u32 {
        let n = self.visits.len() as u64;
        self.levels.iter().find(|l| n <= l.0 as u64).or(self.levels.last()).map_or(1, |l| l.1)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MChal {
    pub difficulty: u32,
    pub duration: u64,
    pub until: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Module {
    pub now: u64,
    pub sites: BTreeMap<B, MSite>,
    pub chals: BTreeMap<(B, B), MChal>,
    /// key -> (value, when it goes)
    pub kv: BTreeMap<B, (B, u64)>,
}
fn later(now: u64, secs: u64) -> u64 {
    now.saturating_add(secs.saturating_mul(1000))
}
impl Module {
    pub fn pass(&mut self, ms: u64) {
        self.now = self.now.saturating_add(ms);
        let now = self.now;
        for s in self.sites.values_mut() {
            s.visits.retain(|t| *t > now);
        }
        self.chals.retain(|_, c| c.until > now);
        self.kv.retain(|_, c| c.1 > now);
    }
    pub fn visitors(&self, s: &[u8]) -> Option<u64> {
        self.sites.get(s).map(|s| s.visits.len() as u64)
    }
    pub fn add_visitor(&mut self, s: &[u8]) -> Option<(u32, u64)> {
        let now = self.now;
        let s = self.sites.get_mut(s)?;
        s.visits.push(later(now, s.duration));
        Some((s.difficulty(), s.duration))
    }
    pub fn add_captcha(&mut self, s: &[u8], levels: Vec<(u32, u32)>, duration: u64) {
        self.sites.insert(s.to_vec(), MSite { levels, duration, visits: vec![] });
    }
    pub fn del_captcha(&mut self, s: &[u8]) -> bool {
        self.sites.remove(s).is_some()
    }
    pub fn exists(&self, s: &[u8]) -> bool {
        self.sites.contains_key(s)
    }
    pub fn rename(&mut self, a: &[u8], b: &[u8]) -> bool {
        match self.sites.remove(a) {
            Some(s) => {
                self.sites.insert(b.to_vec(), s);
                true
            }
            None => false,
        }
    }
    pub fn add_challenge(&mut self, s: &[u8], c: &[u8], difficulty: u32, duration: u64) {
        let until = later(self.now, duration);
        self.chals.insert((s.to_vec(), c.to_vec()), MChal { difficulty, duration, until });
    }
    pub fn take_challenge(&mut self, s: &[u8], c: &[u8]) -> Option<MChal> {
        self.chals.remove(&(s.to_vec(), c.to_vec()))
    }

    /// when an expiry of n from now (or at n, of the Unix time) is due
    fn expiry(&self, n: i64, secs: bool, at: bool) -> Option<u64> {
        let ms = if secs { n.checked_mul(1000)? } else { n };
        let unix = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64;
        let due = (self.now as i64).checked_add(if at { ms.checked_sub(unix)? } else { ms })?;
        (ms > 0).then_some(due.max(0) as u64)
    }

    fn exec(&mut self, a: &[B]) -> Reply {
        let s = |i: usize| String::from_utf8_lossy(&a[i]).to_string();
        let cmd = s(0).to_ascii_uppercase();
        let none = || err("captcha not found");
        let arity = |n: usize| a.len() == n;
        let wrong = || err("wrong number of arguments");
        match cmd.as_str() {
            "PING" => Reply::Simple("PONG".into()),
            "SET" => {
                if a.len() < 3 {
                    return wrong();
                }
                let (mut nx, mut xx, mut get, mut keep) = (false, false, false, false);
                let mut until = None;
                let mut i = 3;
                while i < a.len() {
                    let o = s(i).to_ascii_uppercase();
                    match o.as_str() {
                        "NX" => nx = true,
                        "XX" => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" => keep = true,
                        "EX" | "PX" | "EXAT" | "PXAT" if i + 1 < a.len() && until.is_none() => {
                            i += 1;
                            let n: i64 = match s(i).parse() {
                                Ok(n) => n,
                                Err(_) => return err("value is not an integer or out of range"),
                            };
                            match self.expiry(n, o.starts_with('E'), o.ends_with("AT")) {
                                Some(u) => until = Some(u),
                                None => return err("invalid expire time in 'set' command"),
                            }
                        }
                        _ => return err("syntax error"),
                    }
                    i += 1;
                }
                if (nx && xx) || (keep && until.is_some()) {
                    return err("syntax error");
                }
                let old = self.kv.get(&a[1]).cloned();
                let reply = |r: Reply| if get { old.as_ref().map_or(Reply::Nil, |o| Reply::Bulk(o.0.clone())) } else { r };
                if (nx && old.is_some()) || (xx && old.is_none()) {
                    return reply(Reply::Nil);
                }
                let until = match (&old, keep) {
                    (Some(o), true) => o.1,
                    _ => until.unwrap_or(u64::MAX),
                };
                self.kv.insert(a[1].clone(), (a[2].clone(), until));
                reply(ok())
            }
            "SETNX" if arity(3) => {
                if self.kv.contains_key(&a[1]) {
                    return Reply::Int(0);
                }
                self.kv.insert(a[1].clone(), (a[2].clone(), u64::MAX));
                Reply::Int(1)
            }
            "SETEX" | "PSETEX" => {
                if !arity(4) {
                    return wrong();
                }
                match s(2).parse::<i64>().ok().and_then(|n| self.expiry(n, cmd == "SETEX", false)) {
                    Some(until) => {
                        self.kv.insert(a[1].clone(), (a[3].clone(), until));
                        ok()
                    }
                    None => err(&format!("invalid expire time in '{}' command", cmd.to_ascii_lowercase())),
                }
            }
            "EXPIRE" | "PEXPIRE" | "EXPIREAT" | "PEXPIREAT" if arity(3) => {
                let (secs, at) = (!cmd.starts_with('P'), cmd.ends_with("AT"));
                let Ok(n) = s(2).parse::<i64>() else { return err("value is not an integer or out of range") };
                let until = self.expiry(n, secs, at);
                match (self.kv.get_mut(&a[1]), until) {
                    (None, _) => Reply::Int(0),
                    (Some(v), Some(u)) => {
                        v.1 = u;
                        Reply::Int(1)
                    }
                    (Some(_), None) if n <= 0 => {
                        self.kv.remove(&a[1]);
                        Reply::Int(1)
                    }
                    _ => err(&format!("invalid expire time in '{}' command", cmd.to_ascii_lowercase())),
                }
            }
            "PERSIST" if arity(2) => match self.kv.get_mut(&a[1]) {
                Some(v) if v.1 != u64::MAX => {
                    v.1 = u64::MAX;
                    Reply::Int(1)
                }
                _ => Reply::Int(0),
            },
            "TTL" | "PTTL" if arity(2) => Reply::Int(match self.kv.get(&a[1]) {
                None => -2,
                Some(v) if v.1 == u64::MAX => -1,
                Some(v) if cmd == "TTL" => ((v.1 - self.now + 500) / 1000) as i64,
                Some(v) => (v.1 - self.now) as i64,
            }),
            "MGET" if a.len() > 1 => {
                Reply::Array(a[1..].iter().map(|k| self.kv.get(k).map_or(Reply::Nil, |v| Reply::Bulk(v.0.clone()))).collect())
            }
            "GET" if arity(2) => self.kv.get(&a[1]).map_or(Reply::Nil, |v| Reply::Bulk(v.0.clone())),
            "GETSET" if arity(3) => {
                let old = self.kv.insert(a[1].clone(), (a[2].clone(), u64::MAX));
                old.map_or(Reply::Nil, |v| Reply::Bulk(v.0))
            }
            "GETEX" if a.len() > 1 => {
                let until = match a[2..].iter().map(|o| String::from_utf8_lossy(o).to_ascii_uppercase()).collect::<Vec<_>>().as_slice() {
                    [] => None,
                    [o] if o == "PERSIST" => Some(u64::MAX),
                    [o, n] if ["EX", "PX", "EXAT", "PXAT"].contains(&o.as_str()) => {
                        match n.parse().ok().and_then(|n| self.expiry(n, o.starts_with('E'), o.ends_with("AT"))) {
                            Some(u) => Some(u),
                            None => return err("invalid expire time in 'getex' command"),
                        }
                    }
                    _ => return err("syntax error"),
                };
                match self.kv.get_mut(&a[1]) {
                    None => Reply::Nil,
                    Some(v) => {
                        v.1 = until.unwrap_or(v.1);
                        Reply::Bulk(v.0.clone())
                    }
                }
            }
            "GETDEL" if arity(2) => self.kv.remove(&a[1]).map_or(Reply::Nil, |v| Reply::Bulk(v.0)),
            "EXISTS" => Reply::Int(a[1..].iter().filter(|k| self.kv.contains_key(*k)).count() as i64),
            "DEL" | "UNLINK" => Reply::Int(a[1..].iter().filter(|k| self.kv.remove(*k).is_some()).count() as i64),
            "MCAPTCHA_CACHE.GET" => {
                if !arity(2) {
                    return wrong();
                }
                self.visitors(&a[1]).map_or_else(none, |v| Reply::Int(v as i64))
            }
            "MCAPTCHA_CACHE.ADD_VISITOR" => {
                if !arity(2) {
                    return wrong();
                }
                match self.add_visitor(&a[1]) {
                    None => none(),
                    Some((f, d)) => bulk(&format!("{{\"duration\":{d},\"difficulty_factor\":{f}}}")),
                }
            }
            "MCAPTCHA_CACHE.ADD_CAPTCHA" => {
                if !arity(3) {
                    return wrong();
                }
                match parse_captcha(&a[2]) {
                    None => err("cannot read the captcha"),
                    Some((l, d)) => {
                        self.add_captcha(&a[1], l, d);
                        ok()
                    }
                }
            }
            "MCAPTCHA_CACHE.DELETE_CAPTCHA" => {
                if !arity(2) {
                    return wrong();
                }
                if self.del_captcha(&a[1]) {
                    ok()
                } else {
                    none()
                }
            }
            "MCAPTCHA_CACHE.CAPTCHA_EXISTS" => {
                if !arity(2) {
                    return wrong();
                }
                Reply::Int(if self.exists(&a[1]) { 0 } else { 1 })
            }
            "MCAPTCHA_CACHE.RENAME_CAPTCHA" => {
                if !arity(3) {
                    return wrong();
                }
                if self.rename(&a[1], &a[2]) {
                    ok()
                } else {
                    none()
                }
            }
            "MCAPTCHA_CACHE.ADD_CHALLENGE" => {
                if !arity(3) {
                    return wrong();
                }
                let v: serde_json::Value = match serde_json::from_slice(&a[2]) {
                    Ok(v) => v,
                    Err(_) => return err("cannot read the challenge"),
                };
                match (v["challenge"].as_str(), v["difficulty"].as_u64(), v["duration"].as_u64()) {
                    (Some(c), Some(f), Some(d)) if f <= u32::MAX as u64 => {
                        self.add_challenge(&a[1], c.as_bytes(), f as u32, d);
                        ok()
                    }
                    _ => err("cannot read the challenge"),
                }
            }
            "MCAPTCHA_CACHE.GET_CHALLENGE" => {
                if !arity(3) {
                    return wrong();
                }
                match self.take_challenge(&a[1], &a[2]) {
                    None => err("challenge not found"),
                    Some(c) => bulk(&format!("{{\"duration\":{},\"difficulty_factor\":{}}}", c.duration, c.difficulty)),
                }
            }
            "MCAPTCHA_CACHE.DELETE_CHALLENGE" => {
                if !arity(3) {
                    return wrong();
                }
                match self.take_challenge(&a[1], &a[2]) {
                    None => err("challenge not found"),
                    Some(_) => ok(),
                }
            }
            _ => err(&format!("unknown command '{}'", s(0))),
        }
    }
}
fn parse_captcha(b: &[u8]) -> Option<(Vec<(u32, u32)>, u64)> {
    let v: serde_json::Value = serde_json::from_slice(b).ok()?;
    let mut levels = vec![];
    for l in v["levels"].as_array()? {
        let g = |k: &str| l[k].as_u64().filter(|x| *x <= u32::MAX as u64).map(|x| x as u32);
        levels.push((g("visitor_threshold")?, g("difficulty_factor")?));
    }
    Some((levels, v["duration"].as_u64()?))
}

// ---- the server --------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum Fault {
    /// answer this instead; the flag: the command takes effect
    Answer(Reply, bool),
    /// close the connection; the flag: the command takes effect
    Drop(bool),
    /// answer only after `release`; the flag: the command takes effect
    Stall(bool),
}

/// what MODULE LIST and COMMAND INFO are answered with
#[derive(Clone, Debug)]
pub struct Intro {
    pub modules: Reply,
    pub modules_fault: Option<Fault>,
    /// commands not known
    pub missing: Vec<String>,
    pub missing_reply: Reply,
    /// answer to the first COMMAND INFO about .0
    pub command_fault: Option<(String, Fault)>,
}
pub fn module_entry(name: &str, ver: i64, path: Option<&str>) -> Reply {
    let mut v = vec![bulk("name"), bulk(name), bulk("ver"), Reply::Int(ver)];
    if let Some(p) = path {
        v.extend([bulk("path"), bulk(p), bulk("args"), Reply::Array(vec![])]);
    }
    Reply::Array(v)
}
impl Default for Intro {
    fn default() -> Self {
        Intro {
            modules: Reply::Array(vec![module_entry("mcaptcha_cache", 1, None)]),
            modules_fault: None,
            missing: vec![],
            missing_reply: Reply::Nil,
            command_fault: None,
        }
    }
}

/// Which node of a cluster serves what. The nodes share one keyspace, but each serves only the slots it owns.
#[derive(Clone, Debug)]
pub struct Topo {
    pub ports: Vec<u16>,
    /// owner of each of `owner.len()` equal ranges of slots
    pub owner: Vec<u8>,
    /// ranges that are being handed over: their owner sends clients to this node with ASK
    pub moving: BTreeMap<usize, u8>,
    /// nodes that do not answer: connections are closed as soon as they are accepted
    pub down: Vec<bool>,
    pub redirected: u64,
}
pub const SLOTS: usize = 16384;
pub fn slot(key: &[u8]) -> usize {
    let tag = key.iter().position(|c| *c == b'{').and_then(|o| {
        let close = key[o..].iter().position(|c| *c == b'}')?;
        Some(&key[o + 1..o + close]).filter(|t| !t.is_empty())
    });
    let mut crc: u16 = 0;
    for b in tag.unwrap_or(key) {
        crc ^= (*b as u16) << 8;
        for _ in 0..8 {
            crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x1021 } else { crc << 1 };
        }
    }
    crc as usize % SLOTS
}
impl Topo {
    pub fn range(&self, key: &[u8]) -> usize {
        slot(key) * self.owner.len() / SLOTS
    }
    fn bounds(&self, r: usize) -> (usize, usize) {
        let n = self.owner.len();
        let first = |r: usize| (r * SLOTS).div_ceil(n);
        (first(r), first(r + 1) - 1)
    }
    fn slots(&self) -> Reply {
        Reply::Array(
            (0..self.owner.len())
                .map(|r| {
                    let (a, b) = self.bounds(r);
                    let o = self.owner[r] as usize;
                    Reply::Array(vec![
                        Reply::Int(a as i64),
                        Reply::Int(b as i64),
                        Reply::Array(vec![bulk("127.0.0.1"), Reply::Int(self.ports[o] as i64), bulk(&format!("node{o}"))]),
                    ])
                })
                .collect(),
        )
    }
    /// where the client must go instead
    fn elsewhere(&mut self, node: usize, key: &[u8], asking: bool) -> Option<Reply> {
        let r = self.range(key);
        let owner = self.owner[r] as usize;
        let to = self.moving.get(&r).map(|t| *t as usize);
        let (word, n) = match to {
            Some(t) if t == node && asking => return None,
            Some(t) if owner == node => ("ASK", t),
            _ if owner == node => return None,
            _ => ("MOVED", owner),
        };
        self.redirected += 1;
        Some(Reply::Err(format!("{word} {} 127.0.0.1:{}", slot(key), self.ports[n])))
    }
}

#[derive(Default)]
pub struct St {
    pub module: Module,
    pub intro: Intro,
    /// for the next command that is not part of connecting
    pub fault: Option<Fault>,
    /// connections are closed as soon as they are accepted
    pub down: bool,
    pub held: bool,
    pub log: Vec<Vec<String>>,
    /// those the module or the keyspace got
    pub served: Vec<Vec<String>>,
    pub accepted: u64,
    pub topo: Option<Topo>,
    conns: VecDeque<(usize, Sock)>,
    closing: bool,
}

/// a client's connection
pub enum Sock {
    Unix(UnixStream),
    Tcp(TcpStream),
}
impl Sock {
    fn again(&self) -> Sock {
        match self {
            Sock::Unix(s) => Sock::Unix(s.try_clone().unwrap()),
            Sock::Tcp(s) => Sock::Tcp(s.try_clone().unwrap()),
        }
    }
    fn close(&self) {
        let _ = match self {
            Sock::Unix(s) => s.shutdown(std::net::Shutdown::Both),
            Sock::Tcp(s) => s.shutdown(std::net::Shutdown::Both),
        };
    }
}
impl Read for Sock {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Sock::Unix(s) => s.read(b),
            Sock::Tcp(s) => s.read(b),
        }
    }
}
impl Write for Sock {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Sock::Unix(s) => s.write(b),
            Sock::Tcp(s) => s.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// closed connections leave nothing behind in the kernel
fn no_time_wait(c: &TcpStream) {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const [i32; 2], len: u32) -> i32;
    }
    // SOL_SOCKET, SO_LINGER: on, 0 s
    unsafe { setsockopt(c.as_raw_fd(), 1, 13, &[1, 0], 8) };
}

pub struct Shared {
    pub st: Mutex<St>,
    cv: Condvar,
}
pub struct Fake {
    pub path: String,
    pub sh: Arc<Shared>,
}

impl Fake {
    pub fn start() -> Fake {
        static N: AtomicU64 = AtomicU64::new(0);
        let path = std::env::temp_dir().join(format!(
            "mcap{}-{}.sock",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        let _ = std::fs::remove_file(&path);
        let l = UnixListener::bind(&path).expect("HARNESS: no socket");
        let sh = Arc::new(Shared { st: Mutex::new(St::default()), cv: Condvar::new() });
        let s2 = sh.clone();
        std::thread::spawn(move || accept(0, || Some(Sock::Unix(l.accept().ok()?.0)), s2));
        Fake { path: path.to_str().unwrap().into(), sh }
    }
    /// A cluster of this many nodes; one process uses the same ones again and again.
    pub fn cluster(nodes: usize, ranges: usize) -> Fake {
        static PORTS: Mutex<Option<(Vec<u16>, Arc<Mutex<Option<Arc<Shared>>>>)>> = Mutex::new(None);
        let mut g = PORTS.lock().unwrap();
        let (ports, current) = g.get_or_insert_with(|| {
            let current: Arc<Mutex<Option<Arc<Shared>>>> = Arc::default();
            let ports = (0..MAX_NODES)
                .map(|n| {
                    let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS: no port");
                    let port = l.local_addr().unwrap().port();
                    let current = current.clone();
                    std::thread::spawn(move || loop {
                        let Ok((c, _)) = l.accept() else { continue };
                        let _ = c.set_nodelay(true);
                        no_time_wait(&c);
                        // nobody: no case is running
                        if let Some(sh) = current.lock().unwrap().clone() {
                            let mut c = Some(Sock::Tcp(c));
                            accept(n, || c.take(), sh);
                        }
                    });
                    port
                })
                .collect();
            (ports, current)
        });
        let sh = Arc::new(Shared { st: Mutex::new(St::default()), cv: Condvar::new() });
        sh.st.lock().unwrap().topo = Some(Topo {
            ports: ports[..nodes].to_vec(),
            owner: (0..ranges).map(|r| (r * nodes / ranges) as u8).collect(),
            moving: BTreeMap::new(),
            down: vec![false; nodes],
            redirected: 0,
        });
        *current.lock().unwrap() = Some(sh.clone());
        Fake { path: String::new(), sh }
    }
    pub fn node_url(&self, n: usize) -> String {
        self.with(|s| format!("redis://127.0.0.1:{}", s.topo.as_ref().unwrap().ports[n]))
    }
    /// cut the connections to a node
    pub fn cut_node(&self, n: usize) {
        self.with(|s| s.conns.iter().filter(|c| c.0 == n).for_each(|c| c.1.close()));
    }
    pub fn url(&self) -> String {
        format!("redis+unix://{}", self.path)
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut St) -> T) -> T {
        f(&mut self.sh.st.lock().unwrap())
    }
    pub fn pass(&self, ms: u64) {
        self.with(|s| s.module.pass(ms))
    }
    /// answer what was held back
    pub fn release(&self) {
        self.with(|s| s.held = false);
        self.sh.cv.notify_all();
    }
    pub fn cut(&self) {
        self.with(|s| s.conns.drain(..).for_each(|c| c.1.close()));
    }
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.with(|s| {
            s.closing = true;
            s.held = false;
        });
        self.sh.cv.notify_all();
        self.cut();
        if !self.path.is_empty() {
            let _ = UnixStream::connect(&self.path);
            let _ = std::fs::remove_file(&self.path);
        }
    }
}
pub const MAX_NODES: usize = 4;

fn accept(node: usize, mut next: impl FnMut() -> Option<Sock>, sh: Arc<Shared>) {
    while let Some(c) = next() {
        let mut st = sh.st.lock().unwrap();
        if st.closing {
            return;
        }
        st.accepted += 1;
        if st.down || st.topo.as_ref().is_some_and(|t| t.down.get(node) != Some(&false)) {
            continue;
        }
        st.conns.push_back((node, c.again()));
        drop(st);
        let s3 = sh.clone();
        std::thread::spawn(move || serve(c, node, s3));
    }
}

fn take_line(c: &mut Sock, buf: &mut B, at: &mut usize) -> Option<String> {
    loop {
        if let Some(i) = buf[*at..].windows(2).position(|w| w == b"\r\n") {
            let s = String::from_utf8_lossy(&buf[*at..*at + i]).to_string();
            *at += i + 2;
            return Some(s);
        }
        more(c, buf)?;
    }
}
fn more(c: &mut Sock, buf: &mut B) -> Option<()> {
    let mut b = [0u8; 4096];
    match c.read(&mut b) {
        Ok(n) if n > 0 => {
            buf.extend(&b[..n]);
            Some(())
        }
        _ => None,
    }
}
fn take_command(c: &mut Sock, buf: &mut B) -> Option<Vec<B>> {
    let mut at = 0;
    let n: usize = take_line(c, buf, &mut at)?.strip_prefix('*')?.parse().ok()?;
    let mut out = vec![];
    for _ in 0..n {
        let l: usize = take_line(c, buf, &mut at)?.strip_prefix('$')?.parse().ok()?;
        while buf.len() < at + l + 2 {
            more(c, buf)?;
        }
        out.push(buf[at..at + l].to_vec());
        at += l + 2;
    }
    buf.drain(..at);
    Some(out)
}

fn serve(mut c: Sock, node: usize, sh: Arc<Shared>) {
    let mut buf = vec![];
    let mut asking = false;
    // commands of a transaction that has begun
    let mut queued: Option<Vec<Vec<B>>> = None;
    while let Some(a) = take_command(&mut c, &mut buf) {
        if a.is_empty() {
            return;
        }
        let mut st = sh.st.lock().unwrap();
        let words: Vec<String> = a.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect();
        let cmd = words[0].to_ascii_uppercase();
        st.log.push(words.clone());
        let mut fault = None;
        let mut reply = match cmd.as_str() {
            "CLIENT" | "SELECT" => ok(),
            "MULTI" if queued.is_none() => {
                queued = Some(vec![]);
                ok()
            }
            "DISCARD" if queued.is_some() => {
                queued = None;
                ok()
            }
            "EXEC" if queued.is_some() => {
                let all = queued.take().unwrap();
                fault = st.fault.take();
                match &fault {
                    Some(Fault::Answer(_, false) | Fault::Drop(false) | Fault::Stall(false)) => Reply::Nil,
                    _ => Reply::Array(
                        all.iter()
                            .map(|a| {
                                st.served.push(a.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect());
                                st.module.exec(a)
                            })
                            .collect(),
                    ),
                }
            }
            _ if queued.is_some() => {
                queued.as_mut().unwrap().push(a.clone());
                Reply::Simple("QUEUED".into())
            }
            "READONLY" | "READWRITE" if st.topo.is_some() => ok(),
            "ASKING" if st.topo.is_some() => {
                asking = true;
                ok()
            }
            "CLUSTER" if st.topo.is_some() && words.get(1).is_some_and(|w| w.eq_ignore_ascii_case("SLOTS")) => {
                st.topo.as_ref().unwrap().slots()
            }
            "PING" if st.topo.is_some() => Reply::Simple("PONG".into()),
            "HELLO" | "AUTH" => err("unknown command"),
            "MODULE" => {
                fault = st.intro.modules_fault.take();
                st.intro.modules.clone()
            }
            "COMMAND" => {
                if let Some((c, _)) = &st.intro.command_fault {
                    if words[2..].contains(c) {
                        fault = st.intro.command_fault.take().map(|x| x.1);
                    }
                }
                Reply::Array(
                    words[2..]
                        .iter()
                        .map(|w| {
                            if st.intro.missing.iter().any(|m| m.eq_ignore_ascii_case(w)) {
                                st.intro.missing_reply.clone()
                            } else {
                                Reply::Array(vec![
                                    bulk(&w.to_ascii_lowercase()),
                                    Reply::Int(2),
                                    Reply::Array(vec![Reply::Simple("write".into())]),
                                    Reply::Int(1),
                                    Reply::Int(1),
                                    Reply::Int(1),
                                ])
                            }
                        })
                        .collect(),
                )
            }
            _ => 'served: {
                if let (Some(t), Some(key)) = (st.topo.as_mut(), a.get(1)) {
                    if let Some(r) = t.elsewhere(node, key, std::mem::take(&mut asking)) {
                        break 'served r;
                    }
                }
                st.served.push(words.clone());
                fault = st.fault.take();
                match &fault {
                    Some(Fault::Answer(_, false) | Fault::Drop(false) | Fault::Stall(false)) => Reply::Nil,
                    _ => st.module.exec(&a),
                }
            }
        };
        match fault {
            None => (),
            // nothing, numbers and text are odd for the commands the library is known to use, but not for these
            Some(Fault::Answer(Reply::Nil | Reply::Int(_) | Reply::Bulk(_) | Reply::Simple(_) | Reply::Array(_), _))
                if matches!(cmd.as_str(), "GET" | "GETDEL" | "GETEX" | "GETSET" | "MGET" | "EXEC" | "EVAL" | "EVALSHA") =>
            {
                reply = Reply::Array(vec![Reply::Array(vec![])])
            }
            Some(Fault::Answer(r, _)) => reply = r,
            Some(Fault::Drop(_)) => {
                c.close();
                return;
            }
            Some(Fault::Stall(applied)) => {
                if !applied {
                    reply = err("busy");
                }
                st.held = true;
            }
        }
        // nothing is answered while the server hangs
        while st.held {
            st = sh.cv.wait(st).unwrap();
        }
        drop(st);
        let mut o = vec![];
        reply.put(&mut o);
        if c.write_all(&o).is_err() {
            return;
        }
    }
}
