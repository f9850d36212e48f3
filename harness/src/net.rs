//! A scripted database server on the loopback interface.
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::linux::net::TcpStreamExt;
use std::thread::JoinHandle;
use std::time::Duration;

/// How long the server waits for the client before it gives up on it.
pub const PATIENCE: Duration = Duration::from_secs(8);

pub struct Conn {
    pub stream: TcpStream,
    pub seq: u8,
}

pub fn listen() -> (TcpListener, u16) {
    let l = TcpListener::bind("127.0.0.1:0").expect("bind");
    let p = l.local_addr().unwrap().port();
    (l, p)
}

/// Accepts one connection, or gives up after a while.
pub fn accept(l: &TcpListener) -> Option<Conn> {
    accept_within(l, PATIENCE)
}

pub fn accept_within(l: &TcpListener, limit: Duration) -> Option<Conn> {
    l.set_nonblocking(true).unwrap();
    let t0 = std::time::Instant::now();
    let mut nap = 20;
    loop {
        match l.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(false).unwrap();
                s.set_nodelay(true).unwrap();
                let _ = s.set_quickack(true);
                s.set_read_timeout(Some(PATIENCE)).unwrap();
                s.set_write_timeout(Some(PATIENCE)).unwrap();
                return Some(Conn { stream: s, seq: 0 });
            }
            Err(_) => {
                if t0.elapsed() > limit {
                    return None;
                }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(1000);
            }
        }
    }
}

pub enum Recv {
    Packet(Vec<u8>, u8),
    Closed,
    Timeout,
}

impl Conn {
    pub fn frame(&mut self, payload: &[u8]) -> Vec<u8> {
        let n = payload.len() as u32;
        let mut v = vec![n as u8, (n >> 8) as u8, (n >> 16) as u8, self.seq];
        self.seq = self.seq.wrapping_add(1);
        v.extend_from_slice(payload);
        v
    }
    pub fn send(&mut self, payload: &[u8]) -> bool {
        let v = self.frame(payload);
        self.stream.write_all(&v).is_ok()
    }
    fn read_exact(&mut self, buf: &mut [u8], started: bool) -> Result<(), Recv> {
        let mut at = 0;
        while at < buf.len() {
            let _ = self.stream.set_quickack(true);
            match self.stream.read(&mut buf[at..]) {
                Ok(0) => return Err(Recv::Closed),
                Ok(n) => at += n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e)
                    if e.kind() == std::io::ErrorKind::WouldBlock
                        || e.kind() == std::io::ErrorKind::TimedOut =>
                {
                    let _ = started;
                    return Err(Recv::Timeout);
                }
                Err(_) => return Err(Recv::Closed),
            }
        }
        Ok(())
    }
    pub fn recv(&mut self) -> Recv {
        let mut h = [0u8; 4];
        if let Err(e) = self.read_exact(&mut h, false) {
            return e;
        }
        let n = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
        let mut p = vec![0u8; n];
        if let Err(e) = self.read_exact(&mut p, true) {
            return e;
        }
        self.seq = h[3].wrapping_add(1);
        Recv::Packet(p, h[3])
    }
}

pub fn ok_packet() -> Vec<u8> {
    vec![0, 0, 0, 2, 0, 0, 0]
}
pub fn eof_packet() -> Vec<u8> {
    vec![0xFE, 0, 0, 2, 0]
}
pub const SCRAMBLE: &str = "aB3$x_9!QwErTyUiOp12";

/// Initial handshake (protocol 10) with a 20 byte scramble.
pub fn handshake(version: &str, scramble: &str, plugin: &str) -> Vec<u8> {
    let sc = scramble.as_bytes();
    let mut v = vec![10u8];
    v.extend_from_slice(version.as_bytes());
    v.push(0);
    v.extend_from_slice(&77u32.to_le_bytes());
    v.extend_from_slice(&sc[..8]);
    v.push(0);
    v.extend_from_slice(&[0xFF, 0xF7]); // lower capabilities (no SSL)
    v.push(45);
    v.extend_from_slice(&[2, 0]);
    v.extend_from_slice(&[0xFF, 0x81]); // upper capabilities
    v.push(21);
    v.extend_from_slice(&[0; 10]);
    v.extend_from_slice(&sc[8..]);
    v.push(0);
    v.extend_from_slice(plugin.as_bytes());
    v.push(0);
    v
}

/// The packets of a result set with text cells.
pub fn result_set(cols: &[&str], rows: &[Vec<&str>]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![cols.len() as u8]];
    for c in cols {
        let mut d = Vec::new();
        for f in ["def", "", "", "", c, ""] {
            d.push(f.len() as u8);
            d.extend_from_slice(f.as_bytes());
        }
        d.extend_from_slice(&[0x0c, 33, 0, 0x40, 0, 0, 0, 253, 0, 0, 0, 0, 0]);
        out.push(d);
    }
    out.push(eof_packet());
    for r in rows {
        let mut d = Vec::new();
        for c in r {
            d.push(c.len() as u8);
            d.extend_from_slice(c.as_bytes());
        }
        out.push(d);
    }
    out.push(eof_packet());
    out
}

pub fn norm(sql: &str) -> String {
    sql.chars()
        .filter(|c| !c.is_whitespace() && *c != ';')
        .flat_map(|c| c.to_lowercase())
        .collect()
}

pub fn status_set(file: &str, pos: &str) -> Vec<Vec<u8>> {
    result_set(
        &[
            "File",
            "Position",
            "Binlog_Do_DB",
            "Binlog_Ignore_DB",
            "Executed_Gtid_Set",
        ],
        &[vec![file, pos, "", "", ""]],
    )
}

/// What a co-operative server needs to know.
#[derive(Clone)]
pub struct Coop {
    pub maria: bool,
    pub checksum: String,
    pub end_file: String,
    pub end_pos: String,
}

impl Coop {
    pub fn version(&self) -> &'static str {
        if self.maria {
            "5.5.5-10.6.12-MariaDB-log"
        } else {
            "8.0.32"
        }
    }
}

pub struct SetUp {
    pub conn: Conn,
    pub dump: Option<Vec<u8>>,
    pub queries: Vec<String>,
    pub note: &'static str,
}

/// Accepts a connection and answers everything up to the dump request.
pub fn coop(l: &TcpListener, c: &Coop) -> Option<SetUp> {
    let mut conn = accept(l)?;
    conn.send(&handshake(c.version(), SCRAMBLE, "mysql_native_password"));
    let mut r = SetUp {
        conn,
        dump: None,
        queries: Vec::new(),
        note: "",
    };
    match r.conn.recv() {
        Recv::Packet(_, _) => {}
        Recv::Closed => {
            r.note = "closed";
            return Some(r);
        }
        Recv::Timeout => {
            r.note = "timeout";
            return Some(r);
        }
    }
    r.conn.send(&ok_packet());
    loop {
        let p = match r.conn.recv() {
            Recv::Packet(p, _) => p,
            Recv::Closed => {
                r.note = "closed";
                return Some(r);
            }
            Recv::Timeout => {
                r.note = "timeout";
                return Some(r);
            }
        };
        match p.first() {
            Some(18) | Some(30) => {
                r.dump = Some(p);
                return Some(r);
            }
            Some(21) => {
                r.conn.send(&ok_packet());
            }
            _ => {
                let q = String::from_utf8_lossy(&p[1..]).to_string();
                let n = norm(&q);
                r.queries.push(q);
                let reply = if n.starts_with("showmasterstatus") || n.starts_with("showbinarylogstatus") {
                    status_set(&c.end_file, &c.end_pos)
                } else if n.starts_with("select") && n.contains("binlog_checksum") {
                    result_set(&["@master_binlog_checksum"], &[vec![c.checksum.as_str()]])
                } else {
                    vec![ok_packet()]
                };
                let mut buf = Vec::new();
                for p in reply {
                    buf.extend(r.conn.frame(&p));
                }
                let _ = r.conn.stream.write_all(&buf);
            }
        }
    }
}

pub fn coop_thread(l: TcpListener, c: Coop) -> JoinHandle<(TcpListener, Option<SetUp>)> {
    std::thread::spawn(move || {
        let r = coop(&l, &c);
        (l, r)
    })
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c: u32 = 0xFFFF_FFFF;
    for x in data {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
