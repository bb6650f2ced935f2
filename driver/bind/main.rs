// Drives the Rust binding.
use futures::task::noop_waker;
use futures::Stream;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use wtr_watcher::*;

fn hx(s: &str) -> String {
    s.as_bytes().iter().map(|b| format!("{:02x}", b)).collect()
}
fn unhx(s: &str) -> String {
    String::from_utf8((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()
}

fn main() {
    let mut log = std::fs::OpenOptions::new().append(true).open(std::env::var("STUB_LOG").unwrap()).unwrap();
    let mut put = |v: Value| log.write_all(format!("{}\n", v).as_bytes()).unwrap();
    let mut objs: HashMap<i64, Watch> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let c: Vec<&str> = line.split(' ').collect();
        let b: i64 = c.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        match c[0] {
            "open" => match Watch::try_new(&unhx(c[2])) {
                Ok(w) => {
                    objs.insert(b, w);
                    put(json!({"k": "bopened", "b": b, "ok": true}));
                }
                Err(_) => put(json!({"k": "bopened", "b": b, "ok": false})),
            },
            "close" => {
                let r = objs[&b].close().is_ok();
                put(json!({"k": "ended", "b": b, "how": "close", "r": r}));
            }
            "drop" => {
                drop(objs.remove(&b));
                put(json!({"k": "ended", "b": b, "how": "drop", "r": false}));
            }
            "look" => {
                let n: usize = c[2].parse().unwrap();
                let t0 = Instant::now();
                let limit = Duration::from_millis(c[3].parse().unwrap());
                let waker = noop_waker();
                let mut cx = Context::from_waker(&waker);
                let mut got = 0;
                let mut spare = 2;
                loop {
                    match Pin::new(objs.get_mut(&b).unwrap()).poll_next(&mut cx) {
                        Poll::Ready(Some(ev)) => {
                            got += 1;
                            let e = match ev.effect_type {
                                EffectType::Rename => "rename",
                                EffectType::Modify => "modify",
                                EffectType::Create => "create",
                                EffectType::Destroy => "destroy",
                                EffectType::Owner => "owner",
                                EffectType::Other => "other",
                            };
                            let k = match ev.path_type {
                                PathType::Dir => "dir",
                                PathType::File => "file",
                                PathType::HardLink => "hard_link",
                                PathType::SymLink => "sym_link",
                                PathType::Watcher => "watcher",
                                PathType::Other => "other",
                            };
                            let a = ev.associated_path_name.clone();
                            let v = json!({"t": ev.effect_time, "p": hx(&ev.path_name), "has": a.is_some(), "a": a.map(|x| hx(&x)).unwrap_or_default(), "e": e, "k": k});
                            let d = serde_json::from_str::<Value>(&serde_json::to_string(&ev).unwrap()).unwrap();
                            let j = match d.as_object().map(|o| o.len()) {
                                Some(5) => json!({"t": d["effect_time"], "p": d["path_name"].as_str().map(hx), "has": !d["associated_path_name"].is_null(),
                                    "a": d["associated_path_name"].as_str().map(hx).unwrap_or_default(), "e": d["effect_type"], "k": d["path_type"]}),
                                _ => json!({"bad": "members"}),
                            };
                            put(json!({"k": "bev", "b": b, "v": v, "j": j}));
                        }
                        Poll::Ready(None) => {
                            put(json!({"k": "bad", "what": "the stream ended"}));
                            break;
                        }
                        Poll::Pending => {
                            if got >= n || t0.elapsed() > limit {
                                spare -= 1;
                                if spare == 0 {
                                    break;
                                }
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    }
                }
                put(json!({"k": "looked", "b": b}));
            }
            "reset" => objs.clear(),
            _ => {}
        }
        println!("ok");
    }
}
