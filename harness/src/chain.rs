//! Chain <-> specs/Chain.tla
use crate::common::*;
use serde_json::{json, Value};
use std::io::{Cursor, Read, Seek, SeekFrom};
use unreal_asset::containers::chain::Chain;

fn byte(p: u64) -> u8 { (p.wrapping_mul(37) ^ (p >> 3)) as u8 }

struct Sut { c: Chain<Cursor<Vec<u8>>> }
impl Sut {
    fn open(l1: i64, l2: i64) -> Self {
        let a: Vec<u8> = (0..l1 as u64).map(byte).collect();
        let b = (l2 >= 0).then(|| (l1 as u64..(l1 + l2) as u64).map(byte).collect::<Vec<u8>>());
        Sut { c: Chain::new(Cursor::new(a), b.map(Cursor::new)) }
    }
    /// Returns what the specification calls `ret`; a byte mismatch shows as an impossible answer.
    fn step(&mut self, op: &str, n: i64) -> Result<Value, String> {
        let c = &mut self.c;
        let sk = |r: std::io::Result<u64>| json!([r.map(|x| x as i64).unwrap_or(-1)]);
        Ok(match op {
            "start" => sk(c.seek(SeekFrom::Start(n as u64))),
            "cur" => sk(c.seek(SeekFrom::Current(n))),
            "end" => sk(c.seek(SeekFrom::End(n))),
            "read" => {
                let from = c.stream_position().map_err(|e| e.to_string())?;
                let mut got = vec![];
                let mut buf = vec![0u8; n as usize];
                while got.len() < n as usize {
                    let want = n as usize - got.len();
                    let k = c.read(&mut buf[..want]).map_err(|e| format!("read error {e}"))?;
                    if k > want { return Err(format!("read returned {k} > {want}")); }
                    if k == 0 { break; }
                    got.extend_from_slice(&buf[..k]);
                }
                for (j, b) in got.iter().enumerate() {
                    if *b != byte(from + j as u64) {
                        return Err(format!("read({n}) at {from} returned {got:?}: byte {j} is not byte {} of the file", from + j as u64));
                    }
                }
                json!([from, from + got.len() as u64])
            }
            _ => json!([]),
        })
    }
    fn pos(&mut self) -> i64 { self.c.stream_position().map(|x| x as i64).unwrap_or(-2) }
}

pub fn replay(file: &str) {
    let mut r = Report::new();
    for tr in lines(file) {
        r.cases += 1;
        let ev = tr.as_array().unwrap();
        let mut sut = Sut::open(i(&ev[0], "n"), ev[0]["ret"][0].as_i64().unwrap());
        for (n, e) in ev.iter().enumerate().skip(1) {
            let op = s(e, "op");
            if op == "fin" { continue; }
            r.steps += 1;
            let got = guard(|| { let x = sut.step(op, i(e, "n")); let p = sut.pos(); (x, p) });
            let bad = match got {
                Err(p) => Some(format!("panic: {p}")),
                Ok((Err(x), _)) => Some(x),
                Ok((Ok(ret), pos)) => {
                    if ret != e["ret"] { Some(format!("returned {ret}, specification {}", e["ret"])) }
                    else if pos != i(e, "pos") { Some(format!("position {pos}, specification {}", e["pos"])) }
                    else { None }
                }
            };
            if let Some(w) = bad {
                r.violation(&format!("chain:{op}"), format!("step {n} ({op} {}): {w}", e["n"]), &tr);
                break;
            }
        }
    }
    r.finish();
}

pub fn drive(seed: &str, n: &str, len: &str) {
    let mut rng = Rng::new(seed.parse().unwrap());
    let (n, len): (u64, u64) = (n.parse().unwrap(), len.parse().unwrap());
    for _ in 0..n {
        let l1 = rng.below(40) as i64;
        let l2 = rng.below(60) as i64 - 1;
        let mut sut = Sut::open(l1, l2);
        println!("{}", json!({"op": "open", "n": l1, "ret": [l2], "pos": 0}));
        for _ in 0..len {
            let t = l1 + l2.max(0);
            let (op, n) = match rng.below(6) {
                0 => ("start", rng.below(t as u64 + 5) as i64),
                1 => ("cur", rng.range(-t - 2, t + 2)),
                2 => ("end", rng.range(-t - 3, 2)),
                _ => ("read", rng.below(30) as i64),
            };
            let got = guard(|| { let x = sut.step(op, n); let p = sut.pos(); (x, p) });
            let (ret, pos) = match got { Ok((Ok(v), p)) => (v, p), Ok((Err(_), p)) => (json!([-9, -9, -9]), p), Err(_) => (json!([-8, -8, -8]), -8) };
            println!("{}", json!({"op": op, "n": n, "ret": ret, "pos": pos}));
        }
    }
}
