// A small scripted server for the demonstration.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

pub struct Conn { pub s: TcpStream, pub seq: u8 }
impl Conn {
    pub fn send(&mut self, p: &[u8]) {
        let mut v = vec![p.len() as u8, (p.len() >> 8) as u8, (p.len() >> 16) as u8, self.seq];
        self.seq = self.seq.wrapping_add(1);
        v.extend_from_slice(p);
        let _ = self.s.write_all(&v);
    }
    pub fn recv(&mut self) -> Option<Vec<u8>> {
        let mut h = [0u8; 4];
        self.s.read_exact(&mut h).ok()?;
        let mut p = vec![0u8; h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16];
        self.s.read_exact(&mut p).ok()?;
        self.seq = h[3].wrapping_add(1);
        Some(p)
    }
    pub fn event(&mut self, ev: &[u8]) { let mut p = vec![0]; p.extend_from_slice(ev); self.send(&p); }
}
pub fn listen() -> (TcpListener, u16) { let l = TcpListener::bind("127.0.0.1:0").unwrap(); let p = l.local_addr().unwrap().port(); (l, p) }
pub fn accept(l: &TcpListener) -> Conn {
    let (s, _) = l.accept().unwrap();
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    Conn { s, seq: 0 }
}
pub const OK: [u8; 7] = [0, 0, 0, 2, 0, 0, 0];
pub const EOF: [u8; 5] = [0xfe, 0, 0, 2, 0];
pub fn err(code: u16, state: &str, msg: &str) -> Vec<u8> { let mut v = vec![0xff, code as u8, (code >> 8) as u8, b'#']; v.extend(state.bytes()); v.extend(msg.bytes()); v }
pub fn handshake(version: &str, scramble: &[u8; 20], plugin: &str) -> Vec<u8> {
    let mut v = vec![10u8];
    v.extend(version.bytes()); v.push(0); v.extend([7, 0, 0, 0]); v.extend(&scramble[..8]); v.push(0);
    v.extend([0xff, 0xf7, 45, 2, 0, 0xff, 0x81, 21]); v.extend([0; 10]); v.extend(&scramble[8..]); v.push(0);
    v.extend(plugin.bytes()); v.push(0);
    v
}
pub fn result(cols: &[&str], rows: &[Vec<&str>]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![cols.len() as u8]];
    for c in cols {
        let mut d = Vec::new();
        for f in ["def", "", "", "", c, ""] { d.push(f.len() as u8); d.extend(f.bytes()); }
        d.extend([0x0c, 33, 0, 0x40, 0, 0, 0, 253, 0, 0, 0, 0, 0]);
        out.push(d);
    }
    out.push(EOF.to_vec());
    for r in rows { let mut d = Vec::new(); for c in r { d.push(c.len() as u8); d.extend(c.bytes()); } out.push(d); }
    out.push(EOF.to_vec());
    out
}
/// Serves one connection up to the request for events; returns it, the request and the queries before it.
pub fn serve(l: &TcpListener, maria: bool, checksum: &str, end: (&str, &str)) -> (Conn, Option<Vec<u8>>, Vec<String>) {
    let mut c = accept(l);
    c.send(&handshake(if maria { "5.5.5-10.6.12-MariaDB" } else { "8.0.32" }, b"aB3$x_9!QwErTyUiOp12", "mysql_native_password"));
    let mut qs = Vec::new();
    if c.recv().is_none() { return (c, None, qs); }
    c.send(&OK);
    while let Some(p) = c.recv() {
        match p[0] {
            18 | 30 => return (c, Some(p), qs),
            21 => c.send(&OK),
            _ => {
                let q = String::from_utf8_lossy(&p[1..]).to_string();
                let n = q.to_lowercase();
                if n.starts_with("show") { for x in result(&["File", "Position", "a", "b", "c"], &[vec![end.0, end.1, "", "", ""]]) { c.send(&x) } }
                else if n.starts_with("select") { for x in result(&["x"], &[vec![checksum]]) { c.send(&x) } }
                else { c.send(&OK) }
                qs.push(q);
            }
        }
    }
    (c, None, qs)
}
/// An event without checksum.
pub fn ev(ty: u8, np: u32, body: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 2, 3, 4, ty, 1, 0, 0, 0];
    v.extend((19 + body.len() as u32).to_le_bytes()); v.extend(np.to_le_bytes()); v.extend([0, 0]);
    v.extend_from_slice(body);
    v
}
pub fn query(np: u32, sql: &str) -> Vec<u8> { let mut b = vec![1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, b'd', 0]; b.extend(sql.bytes()); ev(2, np, &b) }
pub fn rotate(np: u32, pos: u64, name: &str) -> Vec<u8> { let mut b = pos.to_le_bytes().to_vec(); b.extend(name.bytes()); ev(4, np, &b) }
pub fn gtid(np: u32, uuid: u8, n: u64) -> Vec<u8> { let mut b = vec![0]; b.extend([uuid; 16]); b.extend(n.to_le_bytes()); ev(33, np, &b) }
pub fn mgtid(np: u32, domain: u32, n: u64, flags: u8) -> Vec<u8> { let mut b = n.to_le_bytes().to_vec(); b.extend(domain.to_le_bytes()); b.push(flags); b.extend([0; 6]); ev(162, np, &b) }
/// A table of INT columns.
pub fn tmap(np: u32, id: u8, cols: usize) -> Vec<u8> {
    let mut b = vec![id, 0, 0, 0, 0, 0, 1, 0, 1, b'd', 0, 1, b't', 0, cols as u8];
    b.extend(vec![3; cols]); b.push(0); b.extend(vec![0xff; (cols + 7) / 8]);
    ev(19, np, &b)
}
/// INSERT (version 2) of one row of INT columns.
pub fn write_rows(np: u32, id: u8, flags: u8, vals: &[i32]) -> Vec<u8> {
    let n = vals.len();
    let mut b = vec![id, 0, 0, 0, 0, 0, flags, 0, 2, 0, n as u8];
    let mut present = vec![0u8; (n + 7) / 8];
    for i in 0..n { present[i / 8] |= 1 << (i % 8); }
    b.extend(&present); b.extend(vec![0u8; (n + 7) / 8]);
    for v in vals { b.extend(v.to_le_bytes()); }
    ev(30, np, &b)
}
/// A binlog file in a scratch place; removed by the caller.
pub fn file(bytes: &[u8]) -> std::fs::File {
    let p = std::env::temp_dir().join(format!("demo-{}-{}", std::process::id(), bytes.len()));
    std::fs::write(&p, bytes).unwrap();
    let f = std::fs::File::open(&p).unwrap();
    std::fs::remove_file(&p).unwrap();
    f
}
