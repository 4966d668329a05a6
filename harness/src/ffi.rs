//! Calls of the exported C functions, with canaries around every output buffer,
//! and scripts of such calls on several threads with start/end tickets.
use std::{
    collections::HashMap,
    os::raw::{c_char, c_int},
    sync::{
        atomic::{AtomicU64, Ordering},
        Barrier, Mutex,
    },
};

use cosmian_abe_gpsw::interfaces::ffi::{
    error::{get_last_error, set_error},
    generate_gpsw_keys::{h_generate_master_keys, h_generate_user_private_key, h_rotate_attributes},
    hybrid_gpsw_aes::*,
};
use serde_json::{json, Map, Value};

use crate::store::{bytes, Blobs};

const GUARD: usize = 1 << 16;

fn canary(i: usize) -> u8 {
    ((i * 37 + 11) ^ (i >> 8)) as u8
}

/// an output buffer of `cap` announced bytes, followed by a guard zone
struct Out {
    buf: Vec<u8>,
    cap: c_int,
    len: c_int,
    null: bool,
    nolen: bool,
}

impl Out {
    fn new(v: &Value) -> Self {
        let cap = v["cap"].as_i64().unwrap_or(0) as c_int;
        let n = if cap < 0 { 0 } else { cap as usize } + GUARD;
        Out {
            buf: (0..n).map(canary).collect(),
            cap,
            len: cap,
            null: v["null"].as_bool() == Some(true) || v.is_null(),
            nolen: v["nolen"].as_bool() == Some(true),
        }
    }
    fn p(&mut self) -> *mut c_char {
        if self.null {
            std::ptr::null_mut()
        } else {
            self.buf.as_mut_ptr().cast()
        }
    }
    fn l(&mut self) -> *mut c_int {
        if self.nolen {
            std::ptr::null_mut()
        } else {
            &mut self.len
        }
    }
    fn report(&self, spec: &Value, rc: i64, name: &str, stores: &mut Vec<(String, Vec<u8>)>) -> Value {
        let cap = self.cap.max(0) as usize;
        let touched = self.buf[..cap].iter().enumerate().filter(|(i, b)| **b != canary(*i)).map(|(i, _)| i).last();
        let over = self.buf[cap..].iter().enumerate().any(|(i, b)| *b != canary(cap + i));
        let n = self.len.max(0) as usize;
        let mut r = json!({"cap":self.cap,"len":self.len,"over":over,"touched":touched.map_or(0, |i| i + 1)});
        if rc == 0 && n <= cap && !self.null {
            let data = &self.buf[..n];
            // bytes written past the reported length but inside the capacity
            r["tail"] = json!(touched.map_or(0, |i| i + 1) > n);
            if spec["hex"].as_bool() != Some(false) && n <= (1 << 18) {
                r["hex"] = json!(hex::encode(data));
            }
            if spec["text"].as_bool() == Some(true) {
                r["text"] = json!(String::from_utf8_lossy(data));
            }
            if let Some(id) = spec["store"].as_str() {
                stores.push((id.to_string(), data.to_vec()));
            }
        }
        if spec["raw"].as_bool() == Some(true) {
            r["raw"] = json!(hex::encode(&self.buf[..cap]));
        }
        let _ = name;
        r
    }
}

/// an input: bytes, null, or a non-null pointer announced with another length
struct In {
    data: Vec<u8>,
    len: c_int,
    null: bool,
}
impl In {
    fn new(blobs: &Blobs, v: &Value) -> Self {
        let data = if v["null"].as_bool() == Some(true) { Some(vec![0; 16]) } else { bytes(blobs, v) };
        let null = data.is_none() || v["null"].as_bool() == Some(true);
        let mut data = data.unwrap_or_default();
        let len = v["len"].as_i64().map_or(data.len() as c_int, |n| n as c_int);
        data.push(0);
        // exact allocation: reads past the end are visible to sanitizers
        data.shrink_to_fit();
        In { data, len, null }
    }
    fn p(&self) -> *const c_char {
        if self.null {
            std::ptr::null()
        } else {
            self.data.as_ptr().cast()
        }
    }
}

struct Handle {
    v: c_int,
    null: bool,
}

fn one(blobs: &Blobs, c: &Value, handle: c_int, stores: &mut Vec<(String, Vec<u8>)>, tick: &dyn Fn() -> u64) -> Value {
    let i = |k: &str| In::new(blobs, &c["in"][k]);
    let mut names: Vec<&str> = vec![];
    let mut outs: Vec<Out> = vec![];
    let mut o = |k: &'static str| {
        names.push(k);
        outs.push(Out::new(&c["out"][k]));
    };
    let f = c["fn"].as_str().expect("harness: fn");
    let mut h = Handle { v: handle, null: c["nohandle"].as_bool() == Some(true) };
    let hp: *mut c_int = if h.null { std::ptr::null_mut() } else { &mut h.v };
    let num = c["num"].as_i64().unwrap_or(0) as c_int;
    let rc: i64;
    let (start, end);
    macro_rules! timed {
        ($e:expr) => {{
            start = tick();
            rc = i64::from(unsafe { $e });
            end = tick();
        }};
    }
    match f {
        "create_enc" => {
            let (p, k) = (i("policy"), i("pk"));
            timed!(h_aes_create_encryption_cache(hp, p.p(), k.p(), k.len));
        }
        "destroy_enc" => timed!(h_aes_destroy_encryption_cache(handle)),
        "enc_header_cache" => {
            o("sk");
            o("hdr");
            let (a, u, d) = (i("attrs"), i("uid"), i("ad"));
            let (s, t) = outs.split_at_mut(1);
            timed!(h_aes_encrypt_header_using_cache(
                s[0].p(), s[0].l(), t[0].p(), t[0].l(), handle, a.p(), u.p(), u.len, d.p(), d.len
            ));
        }
        "enc_header" => {
            o("sk");
            o("hdr");
            let (p, k, a, u, d) = (i("policy"), i("pk"), i("attrs"), i("uid"), i("ad"));
            let (s, t) = outs.split_at_mut(1);
            timed!(h_aes_encrypt_header(
                s[0].p(), s[0].l(), t[0].p(), t[0].l(), p.p(), k.p(), k.len, a.p(), u.p(), u.len, d.p(), d.len
            ));
        }
        "create_dec" => {
            let k = i("key");
            timed!(h_aes_create_decryption_cache(hp, k.p(), k.len));
        }
        "destroy_dec" => timed!(h_aes_destroy_decryption_cache(handle)),
        "dec_header_cache" | "dec_header" => {
            o("sk");
            o("uid");
            o("ad");
            let (b, k) = (i("hdr"), i("key"));
            let (s, t) = outs.split_at_mut(1);
            let (u, a) = t.split_at_mut(1);
            if f == "dec_header" {
                timed!(h_aes_decrypt_header(
                    s[0].p(), s[0].l(), u[0].p(), u[0].l(), a[0].p(), a[0].l(), b.p(), b.len, k.p(), k.len
                ));
            } else {
                timed!(h_aes_decrypt_header_using_cache(
                    s[0].p(), s[0].l(), u[0].p(), u[0].l(), a[0].p(), a[0].l(), b.p(), b.len, handle
                ));
            }
        }
        "hdr_size" => {
            let b = i("data");
            timed!(h_get_encrypted_header_size(b.p(), b.len));
        }
        "overhead" => timed!(h_aes_symmetric_encryption_overhead()),
        "enc_block" | "dec_block" => {
            o("out");
            let (k, u, d) = (i("key"), i("uid"), i("data"));
            let s = &mut outs[0];
            if f == "enc_block" {
                timed!(h_aes_encrypt_block(s.p(), s.l(), k.p(), k.len, u.p(), u.len, num, d.p(), d.len));
            } else {
                timed!(h_aes_decrypt_block(s.p(), s.l(), k.p(), k.len, u.p(), u.len, num, d.p(), d.len));
            }
        }
        "master" => {
            o("out");
            let p = i("policy");
            timed!(h_generate_master_keys(outs[0].p(), outs[0].l(), p.p()));
        }
        "ukey" => {
            o("out");
            let (m, a, p) = (i("msk"), i("ap"), i("policy"));
            timed!(h_generate_user_private_key(outs[0].p(), outs[0].l(), m.p(), m.len, a.p(), p.p()));
        }
        "rotate" => {
            o("out");
            let (a, p) = (i("attrs"), i("policy"));
            timed!(h_rotate_attributes(outs[0].p(), outs[0].l(), a.p(), p.p()));
        }
        "set_error" => {
            let t = i("text");
            timed!(set_error(t.p()));
        }
        "get_error" => {
            o("out");
            timed!(get_last_error(outs[0].p(), outs[0].l()));
        }
        x => panic!("harness: ffi fn {x}"),
    }
    let mut om = Map::new();
    for (n, x) in names.iter().zip(&outs) {
        om.insert((*n).to_string(), x.report(&c["out"][*n], rc, n, stores));
    }
    json!({"res":"ok","rc":rc,"handle":h.v,"out":om,"s":start,"e":end})
}

fn handle_of(c: &Value, vars: &HashMap<String, c_int>) -> c_int {
    match c["handle"]["var"].as_str() {
        Some(v) => *vars.get(v).unwrap_or(&-7),
        None => c["handle"].as_i64().unwrap_or(-7) as c_int,
    }
}

fn last_error(blobs: &Blobs, tick: &dyn Fn() -> u64) -> Value {
    let r = one(blobs, &json!({"fn":"get_error","out":{"out":{"cap":4096,"text":true,"hex":false}}}), 0, &mut vec![], tick);
    r["out"]["out"]["text"].clone()
}

pub fn call(blobs: &mut Blobs, c: &Value) -> Value {
    let mut st = vec![];
    let h = handle_of(c, &HashMap::new());
    let zero = || 0u64;
    let mut r = one(blobs, c, h, &mut st, &zero);
    if c["err"].as_bool() == Some(true) {
        r["err"] = last_error(blobs, &zero);
    }
    blobs.extend(st);
    r
}

/// {"threads":[[step..]..]}: a step is an ffi call (op "ffi" fields) plus optional
/// "set" (name for the handle it returns), "bar" (meet all threads first), "at" (its place among
/// the numbered steps), "err"
pub fn conc(blobs: &mut Blobs, c: &Value) -> Value {
    let threads = c["threads"].as_array().expect("harness: threads");
    let n = threads.len();
    let nbar = threads
        .iter()
        .map(|t| t.as_array().unwrap().iter().filter(|s| s["bar"].as_bool() == Some(true)).count())
        .min()
        .unwrap_or(0);
    let bar = Barrier::new(n);
    let order = AtomicU64::new(0);
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    let vars: Mutex<HashMap<String, c_int>> = Mutex::new(HashMap::new());
    let shared: &Blobs = blobs;
    #[cfg(feature = "sched")]
    let planned = c["plan"].is_array();
    #[cfg(feature = "sched")]
    let monitor = planned.then(|| {
        let p = |v: &Value| (v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize);
        crate::sched::begin(n, c["plan"].as_array().unwrap().iter().map(p).collect());
        std::thread::spawn(|| match crate::sched::watch(std::time::Duration::from_secs(20)) {
            Some(x) => x,
            None => {
                println!("{}", json!({"res":"stuck"}));
                std::process::exit(0);
            }
        })
    });
    let res: Vec<(Vec<Value>, Vec<(String, Vec<u8>)>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = threads
            .iter()
            .enumerate()
            .map(|(me, steps)| {
                let (bar, tick, vars, order) = (&bar, &tick, &vars, &order);
                let _ = me;
                sc.spawn(move || {
                    let mut out = vec![];
                    let mut st = vec![];
                    let mut met = 0;
                    #[cfg(feature = "sched")]
                    if planned {
                        crate::sched::enter(me);
                    }
                    #[cfg(feature = "sched")]
                    let bar = (!planned).then_some(bar);
                    #[cfg(not(feature = "sched"))]
                    let bar = Some(bar);
                    if let Some(b) = bar {
                        b.wait();
                    }
                    for s in steps.as_array().unwrap() {
                        if s["bar"].as_bool() == Some(true) && met < nbar {
                            met += 1;
                            if let Some(b) = bar {
                                b.wait();
                            }
                        }
                        // steps with a number happen in that order, one at a time
                        if let Some(n) = s["at"].as_u64() {
                            while order.load(Ordering::Acquire) != n {
                                std::thread::yield_now();
                            }
                        }
                        let h = handle_of(s, &vars.lock().unwrap());
                        #[cfg(feature = "sched")]
                        let mut r = if planned {
                            crate::sched::during(me, || one(shared, s, h, &mut st, tick))
                        } else {
                            one(shared, s, h, &mut st, tick)
                        };
                        #[cfg(not(feature = "sched"))]
                        let mut r = one(shared, s, h, &mut st, tick);
                        r["used"] = json!(h);
                        if let Some(v) = s["set"].as_str() {
                            if r["rc"].as_i64() == Some(0) {
                                vars.lock().unwrap().insert(v.to_string(), r["handle"].as_i64().unwrap() as c_int);
                            }
                        }
                        if s["err"].as_bool() == Some(true) {
                            r["err"] = last_error(shared, tick);
                        }
                        if s["at"].is_u64() {
                            order.fetch_add(1, Ordering::AcqRel);
                        }
                        out.push(r);
                    }
                    #[cfg(feature = "sched")]
                    if planned {
                        crate::sched::leave(me);
                    }
                    (out, st)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
    });
    let mut all = vec![];
    for (o, st) in res {
        all.push(o);
        blobs.extend(st);
    }
    #[cfg(feature = "sched")]
    if let Some(m) = monitor {
        let (events, blocks) = m.join().unwrap();
        return json!({"res":"ok","out":all,"events":events,"blocks":blocks});
    }
    json!({"res":"ok","out":all})
}
