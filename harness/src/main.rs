//! Conformance harness: executes behaviours generated from the TLA+
//! specifications against the real mysql_cdc crate and writes what it saw.
mod decode;
mod gtid;
mod life;
mod net;
mod pool;
mod proj;
mod replica;
mod session;
mod silence;
mod stream;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: cdcheck MODE IN.jsonl OUT.jsonl [THREADS]");
        std::process::exit(2);
    }
    let threads = args.get(4).and_then(|x| x.parse().ok()).unwrap_or(8);
    pool::quiet_panics();
    let f: fn(&serde_json::Value) -> serde_json::Value = match args[1].as_str() {
        "decode" => decode::run,
        "replica" => replica::run,
        "life" => life::run,
        "gtid" => gtid::run,
        "session" => session::run,
        "silence" => silence::run,
        "stream" => stream::run,
        m => {
            eprintln!("unknown mode {}", m);
            std::process::exit(2);
        }
    };
    if args[1] == "session" || args[1] == "silence" {
        session::key_packet(); // takes a while
    }
    pool::run_all(&args[2], &args[3], threads, f);
}
