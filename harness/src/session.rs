//! Records sessions of the real client with a server that follows a policy:
//! every message of either side, and how the call returned.
use crate::net::{self, Conn, Recv};
use crate::pool::{bytes, guard, HANGS};
use crate::proj;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use mysql_cdc::ssl_mode::SslMode;
use openssl::pkey::Private;
use openssl::rsa::{Padding, Rsa};
use serde_json::{json, Value};
use sha1::{Digest, Sha1};
use sha2::Sha256;
use std::io::Write;
use std::net::{Shutdown, TcpListener};
use std::sync::atomic::Ordering;
use std::sync::OnceLock;
use std::time::Duration;

/// How long the last byte of a reply is held back to see whether the client waits for it.
const HOLD: Duration = Duration::from_millis(12);

fn key() -> &'static Rsa<Private> {
    static KEY: OnceLock<Rsa<Private>> = OnceLock::new();
    KEY.get_or_init(|| Rsa::generate(2048).expect("rsa"))
}

/// The packet with the server's public key.
pub fn key_packet() -> Vec<u8> {
    let mut k = vec![1];
    k.extend(key().public_key_to_pem().unwrap());
    k
}

fn native(pw: &[u8], sc: &[u8]) -> Vec<u8> {
    let h = Sha1::digest(pw);
    let hh = Sha1::digest(&h);
    let m = Sha1::digest([sc, hh.as_slice()].concat());
    h.iter().zip(m.iter()).map(|(a, b)| a ^ b).collect()
}
fn sha2(pw: &[u8], sc: &[u8]) -> Vec<u8> {
    let h = Sha256::digest(pw);
    let hh = Sha256::digest(&h);
    let m = Sha256::digest([hh.as_slice(), sc].concat());
    h.iter().zip(m.iter()).map(|(a, b)| a ^ b).collect()
}

struct Srv<'a> {
    conn: Conn,
    log: Vec<Value>,
    seq: u8,
    case: &'a Value,
    at: &'a str,
    how: &'a str,
    dead: bool,
    /// a packet was cut: the client may wait for what never comes
    lenient: bool,
    spec: &'a Value,
    raw: Vec<u8>,
    chal: Vec<Vec<u8>>,
    pw: Vec<u8>,
}

enum Msg {
    Got(Vec<u8>),
    Gone,
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && h.windows(n.len()).any(|w| w == n)
}

impl<'a> Srv<'a> {
    fn proof(&self, b: &[u8]) -> Value {
        let (p, n) = if b.is_empty() || (self.pw.is_empty() && b == [0]) {
            ("empty", 0)
        } else if !self.pw.is_empty() && contains(b, &self.pw) {
            ("clear", 0)
        } else {
            let mut r = ("wrong", 0);
            for (i, c) in self.chal.iter().enumerate() {
                if b == native(&self.pw, c) {
                    r = ("native", i + 1);
                } else if b == sha2(&self.pw, c) {
                    r = ("sha2", i + 1);
                }
            }
            r
        };
        json!({"p": p, "n": n})
    }

    fn recv(&mut self) -> Msg {
        match self.conn.recv() {
            Recv::Packet(p, s) => {
                self.seq = s;
                self.raw.extend_from_slice(&p);
                Msg::Got(p)
            }
            Recv::Closed => Msg::Gone,
            Recv::Timeout if self.lenient => {
                let _ = self.conn.stream.shutdown(Shutdown::Write);
                Msg::Gone
            }
            Recv::Timeout => {
                HANGS.fetch_add(1, Ordering::SeqCst);
                self.log.push(json!({"d": "x", "m": "silent"}));
                Msg::Gone
            }
        }
    }

    fn client(&mut self, m: &str, extra: Value) {
        let mut v = json!({"d": "c", "m": m, "seq": self.seq, "proof": {"p": "none", "n": 0},
                           "plugin": "", "who": true, "fit": true, "text": ""});
        if let Value::Object(o) = extra {
            for (k, x) in o {
                v[k] = x;
            }
        }
        if self.pw.len() >= 6 && contains(&self.raw, &self.pw) {
            v["proof"] = json!({"p": "clear", "n": 0});
            v["fit"] = json!(false);
        }
        self.log.push(v);
    }

    /// Sends the reply to an exchange, or what its fault is. The last byte is held back.
    fn reply(&mut self, exchange: &str, name: &str, packets: Vec<Vec<u8>>, first_seq: u8) {
        self.conn.seq = first_seq;
        let fault = exchange == self.at;
        let mut packets = packets;
        let err = bytes(&self.case["err"]);
        let sizes: Vec<usize> = packets.iter().map(|p| p.len()).collect();
        let keep = self.spec["keep"].as_u64().map(|x| x as usize);
        if fault && self.how == "cut" {
            packets[self.spec["pkt"].as_u64().unwrap() as usize].truncate(keep.unwrap());
        } else if fault && self.how == "flip" {
            let p = &mut packets[self.spec["pkt"].as_u64().unwrap() as usize];
            for x in self.spec["set"].as_array().unwrap() {
                if x[0].as_i64().unwrap() < 0 {
                    continue;
                }
                let i = x[0].as_u64().unwrap() as usize;
                p[i] = x[1].as_u64().unwrap() as u8 ^ if x[2] == true { p[i] } else { 0 };
            }
        } else if fault && self.how == "cuterr" {
            packets = vec![err[..keep.unwrap().min(err.len())].to_vec()];
        } else if fault && self.how == "err" {
            packets = vec![err];
        } else if fault && self.how == "col" {
            let cut = self.case["col"].as_u64().unwrap_or(0) as usize % packets.iter().position(|p| p[0] == 0xFE).unwrap() + 1;
            packets.truncate(cut);
            packets.push(err);
        } else if fault && self.how == "junk" {
            // no row, or another one
            let end = packets.iter().position(|p| p[0] == 0xFE).unwrap() + 1;
            packets.remove(end);
            if let Some(cells) = self.case["junk"].as_array() {
                let row = set_of(&["x"], &cells.iter().map(bytes).collect::<Vec<_>>());
                packets.insert(end, row[row.len() - 2].clone());
            }
        } else if fault && self.how == "row" {
            let cut = packets.iter().position(|p| p[0] == 0xFE).unwrap() + 1;
            packets.truncate(cut);
            packets.push(err);
        }
        if fault && self.how == "close" {
            self.over(self.how);
            return;
        }
        let mut buf = Vec::new();
        let mut last = 0;
        for (i, p) in packets.iter().enumerate() {
            last = self.conn.seq;
            let mut f = self.conn.frame(p);
            if fault && self.how == "flip" && self.spec["pkt"].as_u64() == Some(i as u64) {
                // places -4..-1: the size and the number of the packet
                for x in self.spec["set"].as_array().unwrap() {
                    let at = x[0].as_i64().unwrap();
                    if at < 0 {
                        let at = (at + 4) as usize;
                        f[at] = x[1].as_u64().unwrap() as u8 ^ if x[2] == true { f[at] } else { 0 };
                    }
                }
            }
            buf.extend(f);
        }
        if fault && self.how == "mid" {
            let n = keep.unwrap_or((buf.len() / 2).max(1)).min(buf.len() - 1);
            let _ = self.conn.stream.write_all(&buf[..n]);
            self.over(self.how);
            return;
        }
        let n = buf.len();
        let cut = fault && (self.how.starts_with("cut") || self.how == "flip");
        if cut {
            self.lenient = true;
            let _ = self.conn.stream.write_all(&buf);
            let _ = self.conn.stream.set_read_timeout(Some(Duration::from_millis(300)));
            self.log.push(json!({"d": "s", "m": self.how, "seq": last}));
            return;
        }
        let _ = self.conn.stream.write_all(&buf[..n - 1]);
        self.hold();
        let _ = self.conn.stream.write_all(&buf[n - 1..]);
        if fault {
            self.log.push(json!({"d": "s", "m": self.how, "seq": last}));
            self.dead = true;
        } else {
            self.log.push(json!({"d": "s", "m": name, "seq": last, "at": exchange, "sizes": sizes}));
        }
    }

    fn hold(&mut self) {
        if self.lenient {
            return;
        }
        let _ = self.conn.stream.set_read_timeout(Some(HOLD));
        let mut b = [0u8; 1];
        if let Ok(n) = self.conn.stream.peek(&mut b) {
            if n > 0 {
                self.log.push(json!({"d": "x", "m": "early"}));
            }
        }
        let _ = self.conn.stream.set_read_timeout(Some(net::PATIENCE));
    }

    fn over(&mut self, how: &str) {
        self.log.push(json!({"d": "s", "m": how, "seq": 0}));
        let _ = self.conn.stream.shutdown(Shutdown::Write);
        self.dead = true;
    }

    /// After a failure: whatever still comes is logged.
    fn listen_on(&mut self) {
        let _ = self.conn.stream.set_read_timeout(Some(Duration::from_millis(400)));
        while let Recv::Packet(p, s) = self.conn.recv() {
            self.seq = s;
            self.raw.extend_from_slice(&p);
            let kind = self.kind(&p);
            self.client(&kind, json!({}));
        }
    }

    fn kind(&self, p: &[u8]) -> String {
        match p.first() {
            Some(18) | Some(30) => return "dump".into(),
            Some(21) => return "register".into(),
            Some(3) => {}
            _ => return "other".into(),
        }
        let q = net::norm(&String::from_utf8_lossy(&p[1..]));
        let k = if q.starts_with("show") {
            "status"
        } else if q.contains("heartbeat_period") {
            "hb"
        } else if q.starts_with("set") && q.contains("binlog_checksum") {
            "ckset"
        } else if q.starts_with("select") && q.contains("binlog_checksum") {
            "ckget"
        } else if q.contains("mariadb_slave_capability") {
            "cap"
        } else if q.contains("slave_connect_state") {
            "cstate"
        } else if q.contains("slave_gtid_strict_mode") {
            "strict"
        } else if q.contains("slave_gtid_ignore_duplicates") {
            "ignoredup"
        } else {
            "other"
        };
        k.into()
    }

    /// user, database, plugin and proof of a handshake response
    fn parse_auth(&self, p: &[u8]) -> Option<(Vec<u8>, Option<Vec<u8>>, String, Vec<u8>)> {
        let caps = u32::from_le_bytes(p.get(..4)?.try_into().ok()?);
        if caps & (1 << 9) == 0 || caps & (1 << 15) == 0 || caps & (1 << 19) == 0 {
            return None;
        }
        let mut at = 32;
        let nul = |at: &mut usize| -> Option<Vec<u8>> {
            let e = p.get(*at..)?.iter().position(|x| *x == 0)?;
            let r = p[*at..*at + e].to_vec();
            *at += e + 1;
            Some(r)
        };
        let user = nul(&mut at)?;
        let n = *p.get(at)? as usize;
        at += 1;
        let proof = p.get(at..at + n)?.to_vec();
        at += n;
        let db = if caps & 8 != 0 { Some(nul(&mut at)?) } else { None };
        let plugin = String::from_utf8_lossy(&nul(&mut at)?).to_string();
        Some((user, db, plugin, proof))
    }

    fn plug(name: &str) -> &'static str {
        match name {
            "mysql_native_password" => "native",
            "caching_sha2_password" => "sha2",
            _ => "other",
        }
    }

    fn serve(&mut self) {
        let s = &self.case["srv"];
        let (r1, r2) = (s["r1"].as_str().unwrap(), s["r2"].as_str().unwrap());
        self.chal.push(bytes(&s["scramble1"]));
        let greet = bytes(&s["greet"]);
        self.reply("greet", "greet", vec![greet], 0);
        if self.dead {
            return self.listen_on();
        }
        let p = match self.recv() {
            Msg::Got(p) => p,
            Msg::Gone => return,
        };
        let word = |i: usize| p.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).unwrap_or(0);
        if p.len() == 32 && word(0) & (1 << 11) != 0 {
            self.client("sslreq", json!({"fit": word(0) & (1 << 9) != 0 && p[9..].iter().all(|x| *x == 0)}));
            let mut b = [0u8; 3];
            // a TLS record, a packet, or the end
            while let Ok(n) = self.conn.stream.peek(&mut b) {
                if n == 0 {
                    return;
                }
                if n == 3 || b[0] != 0x16 {
                    break;
                }
            }
            if b[..2] == [0x16, 3] {
                self.client("tls", json!({}));
                self.over("close");
                return;
            }
            return self.listen_on();
        }
        let o = &self.case["opt"];
        let x = match self.parse_auth(&p) {
            Some((user, db, plugin, proof)) => {
                let who = user == bytes(&o["user"])
                    && match &o["db"] {
                        Value::Null => db.is_none() || db == Some(Vec::new()),
                        d => db == Some(bytes(d)),
                    };
                json!({"proof": self.proof(&proof), "plugin": Self::plug(&plugin), "who": who, "fit": word(0) & (1 << 11) == 0})
            }
            None => json!({"proof": {"p": "wrong", "n": 0}, "text": "malformed"}),
        };
        self.client("auth", x);
        let mut seq = 2u8;
        if !self.after_proof("auth", r1, &mut seq) {
            return;
        }
        if r1 == "switch" {
            let p = match self.recv() {
                Msg::Got(p) => p,
                Msg::Gone => return,
            };
            let x = json!({ "proof": self.proof(&p) });
            self.client("switch", x);
            if !self.after_proof("switch", r2, &mut seq) {
                return;
            }
        }
        // requests
        loop {
            let p = match self.recv() {
                Msg::Got(p) => p,
                Msg::Gone => return,
            };
            let kind = self.kind(&p);
            let text = String::from_utf8_lossy(&p[1..]).to_string();
            let mut extra = json!({ "text": text });
            if kind == "hb" {
                let q = net::norm(&text);
                let v: String = q.chars().skip_while(|c| *c != '=').filter(|c| c.is_ascii_digit()).collect();
                extra["fit"] = json!(v == self.case["opt"]["hb_ns"].as_str().unwrap());
            }
            if kind == "dump" || kind == "register" {
                extra["text"] = proj::b(&p);
            }
            self.client(&kind, extra);
            if kind == "dump" {
                return;
            }
            let rows = match kind.as_str() {
                "status" => {
                    let cells: Vec<Vec<u8>> =
                        self.case["srv"]["status"].as_array().unwrap().iter().map(bytes).collect();
                    set_of(&["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB", "Executed_Gtid_Set"], &cells)
                }
                "ckget" => set_of(&["@master_binlog_checksum"], &[bytes(&self.case["srv"]["checksum"])]),
                _ => vec![net::ok_packet()],
            };
            self.reply(&kind, "ok", rows, 1);
            if self.dead {
                return self.listen_on();
            }
        }
    }

    /// The exchanges that follow a proof; false: the session is over.
    fn after_proof(&mut self, exchange: &str, r: &str, seq: &mut u8) -> bool {
        let s = &self.case["srv"];
        match r {
            "ok" => self.reply(exchange, "ok", vec![net::ok_packet()], *seq),
            "switch" => {
                let mut p = vec![0xFE];
                p.extend(bytes(&s["plugin2_name"]));
                p.push(0);
                let sc = bytes(&s["scramble2"]);
                p.extend_from_slice(&sc);
                p.push(0);
                self.chal.push(sc);
                self.reply(exchange, "switch", vec![p], *seq);
                *seq += 2;
            }
            "fast" => {
                self.reply(exchange, "fast", vec![vec![1, 3]], *seq);
                if !self.dead {
                    self.hold();
                    self.reply("fast", "ok", vec![net::ok_packet()], *seq + 1);
                }
            }
            "full" => {
                self.reply(exchange, "full", vec![vec![1, 4]], *seq);
                if self.dead {
                    self.listen_on();
                    return false;
                }
                *seq += 2;
                let p = match self.recv() {
                    Msg::Got(p) => p,
                    Msg::Gone => return false,
                };
                self.client(if p == [2] { "keyreq" } else { "other" }, json!({}));
                self.reply("keyreq", "key", vec![key_packet()], *seq);
                if self.dead {
                    self.listen_on();
                    return false;
                }
                *seq += 2;
                let p = match self.recv() {
                    Msg::Got(p) => p,
                    Msg::Gone => return false,
                };
                let mut out = vec![0u8; 512];
                let got = match key().private_decrypt(&p, &mut out, Padding::PKCS1_OAEP) {
                    Ok(n) => out[..n].to_vec(),
                    Err(_) => vec![],
                };
                let mut proof = json!({"p": "wrong", "n": 0});
                let mut pw = self.pw.clone();
                pw.push(0);
                for (i, c) in self.chal.iter().enumerate() {
                    let x: Vec<u8> = pw.iter().enumerate().map(|(k, b)| b ^ c[k % c.len()]).collect();
                    if x == got {
                        proof = json!({"p": "rsa", "n": i + 1});
                    }
                }
                self.client("rsa", json!({ "proof": proof }));
                self.reply("rsa", "ok", vec![net::ok_packet()], *seq);
            }
            _ => unreachable!(),
        }
        if self.dead {
            self.listen_on();
            return false;
        }
        true
    }
}

fn lenenc(n: usize) -> Vec<u8> {
    if n < 251 {
        vec![n as u8]
    } else if n < 65536 {
        vec![0xFC, n as u8, (n >> 8) as u8]
    } else {
        vec![0xFD, n as u8, (n >> 8) as u8, (n >> 16) as u8]
    }
}

/// A result set of one row.
pub fn set_of(cols: &[&str], cells: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut out = net::result_set(cols, &[]);
    let mut row = Vec::new();
    for c in cells {
        row.extend(lenenc(c.len()));
        row.extend_from_slice(c);
    }
    let n = out.len();
    out.insert(n - 1, row);
    out
}

pub fn client_options(o: &Value, port: u16) -> Result<ReplicaOptions, String> {
    let text = |v: &Value| String::from_utf8(bytes(v)).unwrap();
    let binlog = match o["strat"].as_str().unwrap() {
        "start" => BinlogOptions::from_start(),
        "end" => BinlogOptions::from_end(),
        "pos" => BinlogOptions::from_position(text(&o["file"]), o["pos"].as_u64().unwrap() as u32),
        "gset" => BinlogOptions::from_mysql_gtid(
            GtidSet::parse(o["gtid"].as_str().unwrap()).map_err(|e| format!("{:?}", e))?,
        ),
        "glist" => BinlogOptions::from_mariadb_gtid(
            GtidList::parse(o["gtid"].as_str().unwrap()).map_err(|e| format!("{:?}", e))?,
        ),
        x => panic!("strategy {}", x),
    };
    Ok(ReplicaOptions {
        hostname: "127.0.0.1".into(),
        port,
        ssl_mode: match o["ssl"].as_u64().unwrap_or(0) {
            0 => SslMode::Disabled,
            1 => SslMode::IfAvailable,
            2 => SslMode::Require,
            3 => SslMode::RequireVerifyCa,
            _ => SslMode::RequireVerifyFull,
        },
        username: text(&o["user"]),
        password: text(&o["pw"]),
        database: if o["db"].is_null() { None } else { Some(text(&o["db"])) },
        server_id: o["server_id"].as_u64().unwrap() as u32,
        blocking: o["blocking"] != false,
        heartbeat_interval: Duration::from_nanos(o["hb_ns"].as_str().unwrap().parse().unwrap()),
        binlog,
    })
}

fn unsupported(p: &str) -> bool {
    p.contains("not implemented") || p.contains("not supported")
}

pub fn run(case: &Value) -> Value {
    let (l, port) = net::listen();
    let o = match client_options(&case["opt"], port) {
        Ok(o) => o,
        Err(e) => return json!({ "options": e }),
    };
    let mut o = o;
    let mode = o.ssl_mode;
    if case["opt"]["late"] == true {
        o.ssl_mode = SslMode::Disabled;
    }
    let mut client = match guard(|| BinlogClient::new(o)) {
        Ok(c) => c,
        Err(p) if mode != SslMode::Disabled && unsupported(&p) => return json!({ "refused": p }),
        Err(p) => panic!("{}", p),
    };
    client.options.ssl_mode = mode;
    if case["opt"]["rec"].is_array() {
        // a position recorded since
        client.options.binlog.filename = String::from_utf8(bytes(&case["opt"]["rec"][0])).unwrap();
        client.options.binlog.position = case["opt"]["rec"][1].as_u64().unwrap() as u32;
    }
    let mut out = Vec::new();
    let mut l: Option<TcpListener> = Some(l);
    for s in case["sessions"].as_array().unwrap() {
        let listener = l.take().unwrap();
        let (c2, s2) = (case.clone(), s.clone());
        let h = std::thread::spawn(move || {
            let mut log = Vec::new();
            match net::accept(&listener) {
                None => log.push(json!({"d": "x", "m": "no connection"})),
                Some(conn) => {
                    let mut srv = Srv {
                        conn,
                        log: Vec::new(),
                        seq: 0,
                        case: &c2,
                        at: s2["at"].as_str().unwrap(),
                        how: s2["how"].as_str().unwrap(),
                        dead: false,
                        lenient: false,
                        spec: &s2,
                        raw: Vec::new(),
                        chal: Vec::new(),
                        pw: bytes(&c2["opt"]["pw"]),
                    };
                    srv.serve();
                    log = srv.log;
                }
            }
            (listener, log)
        });
        let r = match guard(|| client.replicate()) {
            Ok(Ok(_)) => json!(["stream"]),
            Ok(Err(e)) => json!(["error", format!("{:?}", e)]),
            // a part of the library that declares itself missing
            Err(p) if mode != SslMode::Disabled && unsupported(&p) => json!(["error", p]),
            Err(p) => json!(["panic", p]),
        };
        let (l2, log) = h.join().unwrap();
        l = Some(l2);
        let b = &client.options.binlog;
        out.push(json!({"log": log, "res": r, "rec": [proj::b(b.filename.as_bytes()), b.position]}));
    }
    json!({ "sessions": out })
}
