//! Command interpreter: one JSON command per line on stdin, one JSON result per
//! line on stdout. It executes the real cosmian_abe_gpsw code and reports what
//! was observed; it holds no expectation of its own.
mod ffi;
mod group;
mod msp;
#[cfg(feature = "sched")]
mod sched;
mod store;
mod toy;

use std::{
    io::{BufRead, Write},
    alloc::{GlobalAlloc, Layout, System},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

use serde_json::{json, Value};

/// the system allocator, remembering how much was asked for at once and in total
struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

fn main() {
    let quiet = std::env::var("HX_PANIC").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let backend = std::env::args().nth(1).unwrap_or_else(|| "bls".to_string());
    type Bls = cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381;
    use cosmian_abe_gpsw::core::gpsw::Gpsw;
    match backend.as_str() {
        "bls" => serve::<Gpsw<Bls>>(),
        "toys" => serve::<Gpsw<toy::ToyS>>(),
        "toyl" => serve::<Gpsw<toy::ToyL>>(),
        _ => {
            eprintln!("unknown backend");
            std::process::exit(2)
        }
    }
}

fn serve<S>()
where
    S: cosmian_abe_gpsw::core::gpsw::AbeScheme + Send + Sync + 'static,
    S::PlainText: PartialEq + Send + Sync,
    S::MasterPrivateKey: Send + Sync,
    S::MasterPublicKey: Send + Sync,
    S::MasterPublicDelegationKey: Send + Sync,
    S::UserDecryptionKey: Send + Sync,
    S::CipherText: Send + Sync,
{
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut st = store::Store::<S>::new();
    let mut grp = group::Regs::new();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.trim().is_empty() {
            continue;
        }
        let cmd: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                let _ = writeln!(out, "{}", json!({"res":"badcmd","msg":e.to_string()}));
                let _ = out.flush();
                continue;
            }
        };
        let r = if cmd["op"] == "batch" {
            let out: Vec<Value> =
                cmd["cmds"].as_array().map_or(vec![], |l| l.iter().map(|c| one(&mut st, &mut grp, c)).collect());
            json!({"res":"ok","out":out})
        } else {
            one(&mut st, &mut grp, &cmd)
        };
        let _ = writeln!(out, "{r}");
        let _ = out.flush();
    }
}

fn one<S>(st: &mut store::Store<S>, grp: &mut group::Regs, cmd: &Value) -> Value
where
    S: cosmian_abe_gpsw::core::gpsw::AbeScheme + Send + Sync + 'static,
    S::PlainText: PartialEq + Send + Sync,
    S::MasterPrivateKey: Send + Sync,
    S::MasterPublicKey: Send + Sync,
    S::MasterPublicDelegationKey: Send + Sync,
    S::UserDecryptionKey: Send + Sync,
    S::CipherText: Send + Sync,
{
    let op = cmd["op"].as_str().unwrap_or("").to_string();
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| match op.as_str() {
        "ffi" => ffi::call(&mut st.blobs, cmd),
        "conc" => ffi::conc(&mut st.blobs, cmd),
        "g" => grp.exec(cmd),
        "msp" | "parse" | "span_s" | "span_b" => msp::exec(cmd),
        "together" => st.together(cmd),
        _ => st.exec(&op, cmd),
    }));
    let peak = PEAK.load(Relaxed).saturating_sub(before);
    match r {
        Ok(mut v) => {
            if cmd["alloc"].as_bool() == Some(true) {
                v["alloc"] = json!(peak);
            }
            v
        }
        Err(e) => {
            panicked(&*e)
        }
    }
}

/// what a panic amounts to
pub fn panicked(e: &(dyn std::any::Any + Send)) -> Value {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
        .unwrap_or_default();
    if m.starts_with("harness: no blob") {
        return json!({"res":"skip","msg":m});
    }
    json!({"res":"panic","msg":m})
}
