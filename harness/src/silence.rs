//! A server that goes silent, or is slow, at one stage of a session, in real
//! time (Silence.tla).
use crate::net::{self, Recv};
use crate::pool::{bytes, guard};
use crate::session::{client_options, key_packet, set_of};
use mysql_cdc::binlog_client::BinlogClient;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

struct Srv {
    conn: net::Conn,
    at: String,
    gap: Option<Duration>,
    from: usize,
    /// no byte was sent after this moment
    quiet: Option<Instant>,
    /// none was sent between this moment and that
    since: Instant,
    over: bool,
}

impl Srv {
    /// Sends the packets of a stage; at the stage of the case in three pieces.
    fn say(&mut self, stage: &str, packets: &[Vec<u8>], seq: Option<u8>) {
        if let Some(s) = seq {
            self.conn.seq = s;
        }
        let mut buf = Vec::new();
        for p in packets {
            buf.extend(self.conn.frame(p));
        }
        if stage != self.at {
            self.since = Instant::now();
            let _ = self.conn.stream.write_all(&buf);
            return;
        }
        // the second piece ends inside the last packet
        let n = buf.len();
        let cuts = [0, 2, n - 1, n];
        for i in 1..4 {
            if i >= self.from {
                match self.gap {
                    None => {
                        self.quiet = Some(Instant::now());
                        self.over = true;
                        let _ = self.conn.stream.set_read_timeout(Some(Duration::from_secs(40)));
                        // until the client goes away
                        let mut b = [0u8; 64];
                        while let Ok(k) = self.conn.stream.read(&mut b) {
                            if k == 0 {
                                break;
                            }
                        }
                        return;
                    }
                    Some(g) => std::thread::sleep(g),
                }
            }
            self.since = Instant::now();
            let _ = self.conn.stream.write_all(&buf[cuts[i - 1]..cuts[i]]);
        }
    }

    fn hear(&mut self) -> Option<Vec<u8>> {
        if self.over {
            return None;
        }
        match self.conn.recv() {
            Recv::Packet(p, _) => Some(p),
            _ => None,
        }
    }

    fn serve(&mut self, case: &Value) -> Option<()> {
        let s = &case["srv"];
        self.say("greet", &[bytes(&s["greet"])], None);
        self.hear()?;
        let (r1, r2) = (s["r1"].as_str().unwrap(), s["r2"].as_str().unwrap());
        let mut last = r1;
        if r1 == "switch" {
            let mut p = vec![0xFE];
            p.extend(bytes(&s["plugin2_name"]));
            p.push(0);
            p.extend(bytes(&s["scramble2"]));
            p.push(0);
            self.say("auth", &[p], None);
            self.hear()?;
            last = r2;
        }
        let stage = if r1 == "switch" { "switch" } else { "auth" };
        match last {
            "fast" => {
                self.say(stage, &[vec![1, 3]], None);
                self.say("fast", &[net::ok_packet()], None);
            }
            "full" => {
                self.say(stage, &[vec![1, 4]], None);
                self.hear()?;
                self.say("keyreq", &[key_packet()], None);
                self.hear()?;
                self.say("rsa", &[net::ok_packet()], None);
            }
            _ => self.say(stage, &[net::ok_packet()], None),
        }
        loop {
            let p = self.hear()?;
            let n = net::norm(&String::from_utf8_lossy(&p[1.min(p.len())..]));
            if p[0] == 18 || p[0] == 30 {
                break;
            }
            let (name, reply) = if p[0] == 21 {
                ("register", vec![net::ok_packet()])
            } else if n.starts_with("show") {
                (
                    "status",
                    set_of(
                        &["File", "Position", "Binlog_Do_DB", "Binlog_Ignore_DB"],
                        &[b"mysql-bin.000003".to_vec(), b"4711".to_vec(), vec![], vec![]],
                    ),
                )
            } else if n.starts_with("select") {
                ("ckget", set_of(&["@master_binlog_checksum"], &[b"NONE".to_vec()]))
            } else if n.contains("heartbeat_period") {
                ("hb", vec![net::ok_packet()])
            } else if n.contains("binlog_checksum") {
                ("ckset", vec![net::ok_packet()])
            } else if n.contains("mariadb_slave_capability") {
                ("cap", vec![net::ok_packet()])
            } else if n.contains("connect_state") {
                ("cstate", vec![net::ok_packet()])
            } else {
                ("other", vec![net::ok_packet()])
            };
            self.say(name, &reply, None);
        }
        // the stream
        let ev = |k: &str| -> Vec<u8> {
            let mut p = vec![0u8];
            p.extend(bytes(&case["ev"][k]));
            p
        };
        self.conn.seq = 1;
        self.say("first", &[ev("event")], None);
        if self.over {
            return None;
        }
        self.say("later", &[ev("event")], None);
        if self.over {
            return None;
        }
        if self.at == "beats" {
            // nothing but heartbeats
            for i in 1..4 {
                if i >= self.from {
                    match self.gap {
                        Some(g) => std::thread::sleep(g),
                        None => {
                            self.quiet = Some(Instant::now());
                            let _ = self.conn.stream.set_read_timeout(Some(Duration::from_secs(40)));
                            let mut b = [0u8; 64];
                            while let Ok(k) = self.conn.stream.read(&mut b) {
                                if k == 0 {
                                    break;
                                }
                            }
                            return None;
                        }
                    }
                }
                self.since = Instant::now();
                let p = self.conn.frame(&ev("hb"));
                let _ = self.conn.stream.write_all(&p);
            }
        }
        let p = self.conn.frame(&ev("event"));
        let _ = self.conn.stream.write_all(&p);
        let p = self.conn.frame(&net::eof_packet());
        let _ = self.conn.stream.write_all(&p);
        let _ = self.conn.stream.set_read_timeout(Some(Duration::from_secs(5)));
        let mut b = [0u8; 1];
        let _ = self.conn.stream.read(&mut b);
        Some(())
    }
}

pub fn run(case: &Value) -> Value {
    let (l, port) = net::listen();
    let o = client_options(&case["opt"], port).unwrap();
    let mut client = BinlogClient::new(o);
    let c2 = case.clone();
    let t0 = Instant::now();
    let h = std::thread::spawn(move || {
        let conn = net::accept(&l).unwrap();
        let _ = conn.stream.set_read_timeout(Some(Duration::from_secs(40)));
        let mut s = Srv {
            conn,
            at: c2["at"].as_str().unwrap().to_string(),
            gap: c2["gap_ms"].as_u64().map(Duration::from_millis),
            from: c2["from"].as_u64().unwrap() as usize,
            quiet: None,
            since: t0,
            over: false,
        };
        s.serve(&c2);
        (s.quiet, s.since)
    });
    let mut items = 0;
    let mut res = json!("none");
    let r = guard(|| client.replicate());
    let mut back = Instant::now();
    match r {
        Err(p) => res = json!(["panic", p]),
        Ok(Err(e)) => res = json!(["error", format!("{:?}", e)]),
        Ok(Ok(mut events)) => {
            for _ in 0..12 {
                let x = guard(|| events.next());
                back = Instant::now();
                match x {
                    Err(p) => res = json!(["panic", p]),
                    Ok(None) => res = json!(["end"]),
                    Ok(Some(Err(e))) => res = json!(["error", format!("{:?}", e)]),
                    Ok(Some(Ok(_))) => {
                        items += 1;
                        continue;
                    }
                }
                break;
            }
        }
    }
    let (quiet, since) = h.join().unwrap_or((None, t0));
    let ms = |q: Instant| back.saturating_duration_since(q).as_millis() as u64;
    json!({"res": res, "items": items, "silent_ms": quiet.map(ms), "since_ms": ms(since)})
}
