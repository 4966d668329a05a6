use std::{
    collections::HashMap,
    sync::{Arc, Barrier},
};

use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::{
    core::{
        gpsw::{AbeScheme, AsBytes},
        Engine,
    },
    interfaces::hybrid_crypto as hc,
};
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, Metadata, SymKey, SymmetricCrypto},
    KeyTrait,
};
use serde_json::{json, Value};

pub type Blobs = HashMap<String, Vec<u8>>;
type Key = <Aes as SymmetricCrypto>::Key;

pub fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or_else(|| panic!("harness: missing {k} in {v}")).to_string()
}
pub fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("harness: missing {k} in {v}")) as usize
}

/// a position in b: an integer (negative: from the end), or "e+3" / "e-1", counted from
/// the end of a length-prefixed first section; clamped to b
fn pos(b: &[u8], v: &Value) -> usize {
    let base = |s: &str| -> i64 {
        let e = if b.len() >= 4 { 4 + i64::from(u32::from_be_bytes(b[..4].try_into().unwrap())) } else { 0 };
        e + if s.len() > 1 { s[1..].parse::<i64>().expect("harness: pos") } else { 0 }
    };
    let n = b.len() as i64;
    let p = match v.as_str() {
        Some(s) => base(s),
        None => {
            let i = v.as_i64().expect("harness: pos");
            if i < 0 { n + i } else { i }
        }
    };
    p.clamp(0, n) as usize
}

/// bytes given as {"ref":name} | {"hex":..} | {"text":..} | {"fill":n} | {"cat":[..]},
/// then optionally cut ("from","to") and altered ("xor":[[pos,mask]..])
pub fn bytes(blobs: &Blobs, v: &Value) -> Option<Vec<u8>> {
    let mut b = raw_bytes(blobs, v)?;
    let (from, to) = (
        if v["from"].is_null() { 0 } else { pos(&b, &v["from"]) },
        if v["to"].is_null() { b.len() } else { pos(&b, &v["to"]) },
    );
    if from > 0 || to < b.len() {
        b = b[from..to.max(from)].to_vec();
    }
    if let Some(l) = v["xor"].as_array() {
        for x in l {
            let i = pos(&b, &x[0]);
            if i < b.len() {
                b[i] ^= x[1].as_u64().expect("harness: mask") as u8;
            }
        }
    }
    Some(b)
}

fn raw_bytes(blobs: &Blobs, v: &Value) -> Option<Vec<u8>> {
    if v.is_null() {
        None
    } else if let Some(l) = v["cat"].as_array() {
        Some(l.iter().flat_map(|x| bytes(blobs, x).expect("harness: cat")).collect())
    } else if let Some(r) = v["ref"].as_str() {
        Some(blobs.get(r).unwrap_or_else(|| panic!("harness: no blob {r}")).clone())
    } else if let Some(h) = v["hex"].as_str() {
        Some(hex::decode(h).expect("harness: hex"))
    } else if let Some(n) = v["fill"].as_u64() {
        Some((0..n).map(|i| (i * 7 % 251) as u8).collect())
    } else {
        Some(v["text"].as_str().expect("harness: bytes").as_bytes().to_vec())
    }
}

pub fn attr(v: &Value) -> Attribute {
    Attribute::new(v[0].as_str().expect("attr"), v[1].as_str().expect("attr"))
}

/// ["attr",[axis,name]] | ["and",f,g] | ["or",f,g] | ["all"]
pub fn formula(v: &Value) -> AccessPolicy {
    match v[0].as_str().expect("formula") {
        "attr" => AccessPolicy::Attr(attr(&v[1])),
        "and" => AccessPolicy::And(Box::new(formula(&v[1])), Box::new(formula(&v[2]))),
        "or" => AccessPolicy::Or(Box::new(formula(&v[1])), Box::new(formula(&v[2]))),
        "all" => AccessPolicy::All,
        // ["chain", operators, attributes]: deep formulas without deep JSON
        "chain" => {
            let at = v[2].as_array().expect("attributes");
            let mut f = AccessPolicy::Attr(attr(&at[0]));
            for (o, a) in v[1].as_array().expect("operators").iter().zip(&at[1..]) {
                let (a, g) = (Box::new(AccessPolicy::Attr(attr(a))), Box::new(f));
                f = if o == "and" { AccessPolicy::And(a, g) } else { AccessPolicy::Or(a, g) };
            }
            f
        }
        x => panic!("harness: formula {x}"),
    }
}

pub struct Store<S: AbeScheme> {
    // shared between the stores of threads
    eng: Arc<Engine<S>>,
    pol: HashMap<String, Arc<Policy>>,
    msk: HashMap<String, Arc<S::MasterPrivateKey>>,
    mpk: HashMap<String, Arc<S::MasterPublicKey>>,
    mdk: HashMap<String, Arc<S::MasterPublicDelegationKey>>,
    key: HashMap<String, Arc<S::UserDecryptionKey>>,
    ct: HashMap<String, Arc<S::CipherText>>,
    msg: HashMap<String, Arc<S::PlainText>>,
    pub blobs: Blobs,
}

fn ok() -> Value {
    json!({"res":"ok"})
}
fn err<E: std::fmt::Display>(e: E) -> Value {
    json!({"res":"err","msg":e.to_string()})
}

fn reload<T: AsBytes>(x: &T) -> (Value, Option<T>) {
    let b = match x.try_into_bytes() {
        Ok(b) => b,
        Err(e) => return (json!({"res":"err","at":"ser","msg":e.to_string()}), None),
    };
    let n = x.len_bytes();
    match T::try_from_bytes(&b) {
        Err(e) => (json!({"res":"err","at":"de","msg":e.to_string()}), None),
        Ok(y) => {
            let b2 = y.try_into_bytes().unwrap_or_default();
            let v = json!({"res":"ok","len":n == b.len(),"same":b2 == b, "len2": y.len_bytes() == b.len(), "n": b.len()});
            (v, Some(y))
        }
    }
}

fn meta(blobs: &Blobs, v: &Value) -> Option<Metadata> {
    if v.is_null() {
        None
    } else {
        Some(Metadata {
            uid: bytes(blobs, &v["uid"]).unwrap_or_default(),
            additional_data: bytes(blobs, &v["ad"]),
        })
    }
}

impl<S> Store<S>
where
    S: AbeScheme + Send + Sync + 'static,
    S::PlainText: PartialEq + Send + Sync,
    S::MasterPrivateKey: Send + Sync,
    S::MasterPublicKey: Send + Sync,
    S::MasterPublicDelegationKey: Send + Sync,
    S::UserDecryptionKey: Send + Sync,
    S::CipherText: Send + Sync,
{
    pub fn new() -> Self {
        Self {
            eng: Arc::new(Engine::new()),
            pol: HashMap::new(),
            msk: HashMap::new(),
            mpk: HashMap::new(),
            mdk: HashMap::new(),
            key: HashMap::new(),
            ct: HashMap::new(),
            msg: HashMap::new(),
            blobs: HashMap::new(),
        }
    }

    /// a store of its own for another thread, with the same objects
    fn fork(&self) -> Self {
        Self {
            eng: self.eng.clone(),
            pol: self.pol.clone(),
            msk: self.msk.clone(),
            mpk: self.mpk.clone(),
            mdk: self.mdk.clone(),
            key: self.key.clone(),
            ct: self.ct.clone(),
            msg: self.msg.clone(),
            blobs: self.blobs.clone(),
        }
    }

    /// lists of commands, each on a thread of its own, on the same objects
    pub fn together(&self, c: &Value) -> Value {
        let lists: Vec<&Vec<Value>> = c["threads"].as_array().unwrap().iter().map(|l| l.as_array().unwrap()).collect();
        let bar = Barrier::new(lists.len());
        let out: Vec<Vec<Value>> = std::thread::scope(|sc| {
            let hs: Vec<_> = lists
                .iter()
                .map(|l| {
                    let (bar, mut st) = (&bar, self.fork());
                    sc.spawn(move || {
                        bar.wait();
                        l.iter()
                            .map(|x| {
                                let op = s(x, "op");
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| st.exec(&op, x)))
                                    .unwrap_or_else(|e| crate::panicked(&*e))
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        });
        json!({"res":"ok","out":out})
    }

    fn attrs(v: &Value) -> Vec<Attribute> {
        v.as_array().expect("attrs").iter().map(attr).collect()
    }

    /// a command naming an object that an earlier (refused) command did not produce
    fn missing(&self, op: &str, c: &Value) -> bool {
        let lacks = |f: &str| -> bool {
            let id = match c[f].as_str() {
                Some(x) => x,
                None => return false,
            };
            match f {
                "p" => !self.pol.contains_key(id),
                "m" => !self.msk.contains_key(id),
                "k" | "src" => !self.key.contains_key(id),
                "g" => !self.msg.contains_key(id),
                "c" => !self.ct.contains_key(id),
                _ => false,
            }
        };
        let uses: &[&str] = match op {
            "axis" | "rotate" | "copy_policy" | "policy_json" | "policy_dump" | "master" => &["p"],
            "ukey" | "symkey" | "hdr_enc" => &["p", "m"],
            "delegate" => &["p", "m", "src"],
            "encrypt" => &["p", "m", "g"],
            "decrypt" => &["c", "k"],
            "opensym" => {
                if !self.blobs.contains_key(&format!("{}.key", s(c, "c"))) {
                    return true;
                }
                &["k"]
            }
            "hdr_dec" => &["k"],
            "load" => {
                return c["from"]["ref"].as_str().is_some_and(|x| !self.blobs.contains_key(x));
            }
            "par" => &["p", "m", "k", "g"],
            "splice" => {
                return c["from"].as_array().unwrap().iter().any(|k| !self.key.contains_key(k.as_str().unwrap()));
            }
            "reload" | "bytes" | "kept" => {
                if op == "kept" && !self.blobs.contains_key(&s(c, "was")) {
                    return true;
                }
                let id = s(c, "id");
                return !match s(c, "kind").as_str() {
                    "msk" | "mpk" | "mdk" => self.msk.contains_key(&id),
                    "key" => self.key.contains_key(&id),
                    "ct" => self.ct.contains_key(&id),
                    "msg" => self.msg.contains_key(&id),
                    _ => self.blobs.contains_key(&id),
                };
            }
            _ => &[],
        };
        uses.iter().any(|f| lacks(f))
    }

    pub fn exec(&mut self, op: &str, c: &Value) -> Value {
        if self.missing(op, c) {
            return json!({"res":"skip"});
        }
        match op {
            "again" => {
                // the same operation many times: its answer, or the first one that differs
                let (n, x) = (u(c, "n"), &c["cmd"]);
                let o = s(x, "op");
                let same = |a: &Value, b: &Value| ["res", "g", "agree", "uid", "ad", "len", "same"].iter().all(|f| a[f] == b[f]);
                let first = self.exec(&o, x);
                for i in 1..n {
                    let mut y = self.exec(&o, x);
                    if !same(&first, &y) {
                        y["nth"] = json!(i + 1);
                        return y;
                    }
                }
                first
            }
            "reset" => {
                let blobs = std::mem::take(&mut self.blobs);
                *self = Self::new();
                if c["keep"].as_bool() == Some(true) {
                    self.blobs = blobs;
                }
                ok()
            }
            "policy" => {
                self.pol.insert(s(c, "p"), Arc::new(Policy::new(u(c, "max") as u32)));
                ok()
            }
            "axis" => {
                let attrs: Vec<String> =
                    c["attrs"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_string()).collect();
                let refs: Vec<&str> = attrs.iter().map(String::as_str).collect();
                let ax = PolicyAxis::new(&s(c, "name"), &refs, c["hier"].as_bool().unwrap());
                match Arc::make_mut(self.pol.get_mut(&s(c, "p")).unwrap()).add_axis(&ax) {
                    Ok(()) => ok(),
                    Err(e) => err(e),
                }
            }
            "rotate" => match Arc::make_mut(self.pol.get_mut(&s(c, "p")).unwrap()).rotate(&attr(&c["attr"])) {
                Ok(()) => ok(),
                Err(e) => err(e),
            },
            "copy_policy" => {
                let q = self.pol[&s(c, "p")].clone();
                self.pol.insert(s(c, "q"), q);
                ok()
            }
            "policy_json" => {
                let t = self.pol[&s(c, "p")].to_string();
                if let Some(n) = c["store"].as_str() {
                    self.blobs.insert(n.to_string(), t.as_bytes().to_vec());
                }
                json!({"res":"ok","text":t})
            }
            "policy_load" => {
                let b = bytes(&self.blobs, &c["from"]).unwrap();
                match serde_json::from_slice::<Policy>(&b) {
                    Ok(p) => {
                        self.pol.insert(s(c, "p"), Arc::new(p));
                        ok()
                    }
                    Err(e) => err(e),
                }
            }
            "policy_dump" => {
                let p = &self.pol[&s(c, "p")];
                let mut vals = vec![];
                for a in p.attributes() {
                    let mut v = p.attribute_values(&a).unwrap_or_default();
                    v.reverse();
                    vals.push(json!([[a.axis, a.name], v]));
                }
                vals.sort_by_key(|x| x.to_string());
                let mut axes: Vec<Value> =
                    p.axes.iter().map(|(n, (l, h))| json!([n, l, h])).collect();
                axes.sort_by_key(|x| x.to_string());
                json!({"res":"ok","last":p.last_attribute_value,"max":p.max_attribute_creations,"vals":vals,"axes":axes})
            }
            "ap_json" => {
                let t = serde_json::to_string(&formula(&c["ap"])).unwrap();
                if let Some(n) = c["store"].as_str() {
                    self.blobs.insert(n.to_string(), t.as_bytes().to_vec());
                }
                json!({"res":"ok","text":t})
            }
            "master" => match self.eng.generate_master_key(&self.pol[&s(c, "p")]) {
                Ok((a, b, d)) => {
                    let m = s(c, "m");
                    self.msk.insert(m.clone(), Arc::new(a));
                    self.mpk.insert(m.clone(), Arc::new(b));
                    self.mdk.insert(m, Arc::new(d));
                    ok()
                }
                Err(e) => err(e),
            },
            "ukey" => {
                match self.eng.generate_user_key(&self.pol[&s(c, "p")], &self.msk[&s(c, "m")], &formula(&c["ap"])) {
                    Ok(k) => {
                        self.key.insert(s(c, "k"), Arc::new(k));
                        ok()
                    }
                    Err(e) => err(e),
                }
            }
            "delegate" => match self.eng.delegate_user_key(
                &self.pol[&s(c, "p")],
                &self.mdk[&s(c, "m")],
                &self.key[&s(c, "src")],
                &formula(&c["ap"]),
            ) {
                Ok(k) => {
                    self.key.insert(s(c, "k"), Arc::new(k));
                    ok()
                }
                Err(e) => err(e),
            },
            "msg" => match self.eng.random_message() {
                Ok(g) => {
                    let w = g.try_into_bytes().map(hex::encode).unwrap_or_default();
                    self.msg.insert(s(c, "g"), Arc::new(g));
                    json!({"res":"ok","w":w})
                }
                Err(e) => err(e),
            },
            "msg_encode" => {
                let b = bytes(&self.blobs, &c["data"]).unwrap();
                match S::default().msg_encode(&b) {
                    Ok(g) => {
                        let w = g.try_into_bytes().map(hex::encode).unwrap_or_default();
                        self.msg.insert(s(c, "g"), Arc::new(g));
                        json!({"res":"ok","w":w})
                    }
                    Err(e) => err(e),
                }
            }
            "encrypt" => match self.eng.encrypt(
                &self.pol[&s(c, "p")],
                &self.mpk[&s(c, "m")],
                &Self::attrs(&c["attrs"]),
                &self.msg[&s(c, "g")],
            ) {
                Ok(x) => {
                    self.ct.insert(s(c, "c"), Arc::new(x));
                    ok()
                }
                Err(e) => err(e),
            },
            "decrypt" => match self.eng.decrypt(&self.ct[&s(c, "c")], &self.key[&s(c, "k")]) {
                Ok(None) => json!({"res":"none"}),
                Ok(Some(g)) => {
                    let mut ids: Vec<&String> =
                        self.msg.iter().filter(|(_, m)| ***m == g).map(|(i, _)| i).collect();
                    ids.sort();
                    match ids.first() {
                        Some(i) => json!({"res":"msg","g":i}),
                        None => json!({"res":"wrong"}),
                    }
                }
                Err(e) => err(e),
            },
            "symkey" => match self.eng.generate_symmetric_key(
                &self.pol[&s(c, "p")],
                &self.mpk[&s(c, "m")],
                &Self::attrs(&c["attrs"]),
                u(c, "len"),
            ) {
                Ok((k, e)) => {
                    let (kl, w) = (k.len(), hex::encode(&k));
                    self.blobs.insert(format!("{}.key", s(c, "c")), k);
                    self.blobs.insert(format!("{}.enc", s(c, "c")), e);
                    json!({"res":"ok","len":kl,"w":w})
                }
                Err(e) => err(e),
            },
            "opensym" => {
                let enc = match c.get("enc") {
                    Some(v) => bytes(&self.blobs, v).unwrap(),
                    None => self.blobs[&format!("{}.enc", s(c, "c"))].clone(),
                };
                match self.eng.decrypt_symmetric_key(&self.key[&s(c, "k")], &enc, u(c, "len")) {
                    Ok(k) => {
                        // how many bytes agree with the key generated for c
                        let gk = &self.blobs[&format!("{}.key", s(c, "c"))];
                        let agree = gk.iter().zip(&k).take_while(|(a, b)| a == b).count();
                        json!({"res":"ok","len":k.len(),"agree":agree,"w":hex::encode(&k)})
                    }
                    Err(e) => err(e),
                }
            }
            "reload" => {
                let id = s(c, "id");
                macro_rules! rl {
                    ($map:ident, $eq:expr) => {{
                        let (mut v, y) = reload(&*self.$map[&id]);
                        if let Some(y) = y {
                            let f: fn(&_, &_) -> bool = $eq;
                            v["eq"] = json!(f(&*self.$map[&id], &y));
                            self.$map.insert(id, Arc::new(y));
                        }
                        v
                    }};
                }
                match s(c, "kind").as_str() {
                    "msk" => rl!(msk, |a, b| a == b),
                    "mpk" => rl!(mpk, |a, b| a == b),
                    "mdk" => rl!(mdk, |a, b| a == b),
                    "key" => rl!(key, |a, b| a == b),
                    "ct" => rl!(ct, |_, _| true),
                    "msg" => rl!(msg, |a, b| a == b),
                    x => panic!("harness: kind {x}"),
                }
            }
            "bytes" => {
                let id = s(c, "id");
                let b = match s(c, "kind").as_str() {
                    "msk" => self.msk[&id].try_into_bytes(),
                    "mpk" => self.mpk[&id].try_into_bytes(),
                    "mdk" => self.mdk[&id].try_into_bytes(),
                    "key" => self.key[&id].try_into_bytes(),
                    "ct" => self.ct[&id].try_into_bytes(),
                    "msg" => self.msg[&id].try_into_bytes(),
                    "blob" => Ok(self.blobs[&id].clone()),
                    x => panic!("harness: kind {x}"),
                };
                match b {
                    Ok(b) => {
                        let v = if c["quiet"].as_bool() == Some(true) { json!("") } else { json!(hex::encode(&b)) };
                        if let Some(n) = c["store"].as_str() {
                            self.blobs.insert(n.to_string(), b.clone());
                        }
                        json!({"res":"ok","hex":v,"n":b.len()})
                    }
                    Err(e) => err(e),
                }
            }
            "load" => {
                let id = s(c, "id");
                let b = bytes(&self.blobs, &c["from"]).unwrap();
                macro_rules! ld {
                    ($map:ident, $ty:ty) => {
                        match <$ty>::try_from_bytes(&b) {
                            Ok(x) => {
                                self.$map.insert(id, Arc::new(x));
                                ok()
                            }
                            Err(e) => err(e),
                        }
                    };
                }
                match s(c, "kind").as_str() {
                    "msk" => ld!(msk, S::MasterPrivateKey),
                    "mpk" => ld!(mpk, S::MasterPublicKey),
                    "mdk" => ld!(mdk, S::MasterPublicDelegationKey),
                    "key" => ld!(key, S::UserDecryptionKey),
                    "ct" => ld!(ct, S::CipherText),
                    "msg" => ld!(msg, S::PlainText),
                    x => panic!("harness: kind {x}"),
                }
            }
            // is an object still what its bytes said when they were kept?
            "kept" => {
                let id = s(c, "id");
                let b = match s(c, "kind").as_str() {
                    "msk" => self.msk[&id].try_into_bytes(),
                    "mpk" => self.mpk[&id].try_into_bytes(),
                    "mdk" => self.mdk[&id].try_into_bytes(),
                    "key" => self.key[&id].try_into_bytes(),
                    "ct" => self.ct[&id].try_into_bytes(),
                    x => panic!("harness: kind {x}"),
                };
                match b {
                    Ok(b) => json!({"res":"ok","same":b == self.blobs[&s(c, "was")]}),
                    Err(e) => err(e),
                }
            }
            "ct_len" => json!({"res":"ok","n":S::ciphertext_len(u(c, "n"))}),
            // a key assembled from the shares of several keys, in the span program of one
            "splice" => {
                let es = u(c, "es");
                let base = s(c, "base");
                let raw = |k: &str| self.key[k].try_into_bytes().unwrap();
                let rd = |b: &[u8], i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                let mut b = raw(&base);
                let n = rd(&b, 0);
                let tail = 4 + n * es;
                for (i, r) in c["rows"].as_array().unwrap().iter().enumerate().take(n) {
                    let o = raw(r[0].as_str().unwrap());
                    let on = rd(&o, 0);
                    let j = r[1].as_u64().unwrap() as usize % on;
                    b[4 + i * es..4 + (i + 1) * es].copy_from_slice(&o[4 + j * es..4 + (j + 1) * es]);
                    let at = 4 + on * es + 8 + 4 * j;
                    let a: [u8; 4] = o[at..at + 4].try_into().unwrap();
                    b[tail + 8 + 4 * i..tail + 12 + 4 * i].copy_from_slice(&a);
                }
                match S::UserDecryptionKey::try_from_bytes(&b) {
                    Ok(k) => {
                        self.key.insert(s(c, "k"), Arc::new(k));
                        json!({"res":"ok","n":n})
                    }
                    Err(e) => err(e),
                }
            }
            "blob" => {
                let b = bytes(&self.blobs, &c["from"]).unwrap();
                let n = b.len();
                self.blobs.insert(s(c, "id"), b);
                json!({"res":"ok","n":n})
            }
            "show" => json!({"res":"ok","text":match s(c, "kind").as_str() {
                "key" => format!("{:?}", self.key[&s(c,"id")]).len(),
                _ => 0,
            }}),
            // ---- hybrid layer -------------------------------------------------
            "hdr_enc" => {
                let md = meta(&self.blobs, &c["meta"]);
                match hc::encrypt_hybrid_header::<S, Aes>(
                    &self.pol[&s(c, "p")],
                    &self.mpk[&s(c, "m")],
                    &Self::attrs(&c["attrs"]),
                    md,
                ) {
                    Ok(h) => {
                        let id = s(c, "h");
                        let (k, b) = (h.symmetric_key.as_bytes().to_vec(), h.encrypted_header_bytes.clone());
                        // the EncryptedHeader container itself must round-trip as well
                        let cont = match h.try_into_bytes().and_then(|x| hc::EncryptedHeader::<Aes>::try_from_bytes(&x)) {
                            Ok(h2) => {
                                h2.symmetric_key.as_bytes() == k.as_slice() && h2.encrypted_header_bytes == b
                            }
                            Err(_) => false,
                        };
                        let (w, n) = (hex::encode(&k), b.len());
                        self.blobs.insert(format!("{id}.key"), k);
                        self.blobs.insert(format!("{id}.hdr"), b);
                        let e = self.blobs[&format!("{id}.hdr")].get(..4).map_or(0, |x| 4 + u32::from_be_bytes(x.try_into().unwrap()) as usize);
                        json!({"res":"ok","w":w,"n":n,"e":e,"cont":cont})
                    }
                    Err(e) => err(e),
                }
            }
            "hdr_dec" => {
                let b = bytes(&self.blobs, &c["from"]).unwrap();
                match hc::decrypt_hybrid_header::<S, Aes>(&self.key[&s(c, "k")], &b) {
                    Ok(h) => {
                        let kb = h.symmetric_key.as_bytes().to_vec();
                        let md = h.meta_data.clone();
                        let cont = match h
                            .try_into_bytes()
                            .and_then(|x| hc::ClearTextHeader::<Aes>::try_from_bytes(&x))
                        {
                            Ok(h2) => h2.symmetric_key.as_bytes() == kb.as_slice() && h2.meta_data == md,
                            Err(_) => false,
                        };
                        json!({"res":"ok","w":hex::encode(&kb),"uid":hex::encode(&md.uid),
                               "ad":md.additional_data.as_ref().map(hex::encode),"cont":cont})
                    }
                    Err(e) => err(e),
                }
            }
            // parse an EncryptedHeader / ClearTextHeader container
            "hdr_parse" => {
                let b = bytes(&self.blobs, &c["from"]).unwrap();
                match s(c, "kind").as_str() {
                    "enc" => match hc::EncryptedHeader::<Aes>::try_from_bytes(&b) {
                        Ok(h) => json!({"res":"ok","w":hex::encode(h.symmetric_key.as_bytes()),"rest":hex::encode(&h.encrypted_header_bytes)}),
                        Err(e) => err(e),
                    },
                    _ => match hc::ClearTextHeader::<Aes>::try_from_bytes(&b) {
                        Ok(h) => json!({"res":"ok","w":hex::encode(h.symmetric_key.as_bytes()),"uid":hex::encode(&h.meta_data.uid),
                               "ad":h.meta_data.additional_data.as_ref().map(hex::encode)}),
                        Err(e) => err(e),
                    },
                }
            }
            "blk_enc" | "blk_dec" => {
                let kb = bytes(&self.blobs, &c["key"]).unwrap();
                let key = match Key::try_from_bytes(&kb) {
                    Ok(k) => k,
                    Err(e) => return err(e),
                };
                let uid = bytes(&self.blobs, &c["uid"]).unwrap_or_default();
                let data = bytes(&self.blobs, &c["data"]).unwrap_or_default();
                let num = c["num"].as_u64().unwrap_or(0) as usize;
                macro_rules! blk {
                    ($f:ident, $n:expr) => {
                        hc::$f::<S, Aes, { $n }>(&key, &uid, num, &data)
                    };
                }
                let max = c["max"].as_u64().unwrap_or(1 << 30);
                let r = if op == "blk_enc" {
                    match max {
                        16 => blk!(encrypt_hybrid_block, 16),
                        100 => blk!(encrypt_hybrid_block, 100),
                        _ => blk!(encrypt_hybrid_block, 1 << 30),
                    }
                } else {
                    match max {
                        16 => blk!(decrypt_hybrid_block, 16),
                        100 => blk!(decrypt_hybrid_block, 100),
                        _ => blk!(decrypt_hybrid_block, 1 << 30),
                    }
                };
                match r {
                    Ok(b) => {
                        let n = b.len();
                        let v = json!({"res":"ok","n":n,"hex":if n <= 4096 {hex::encode(&b)} else {String::new()},
                            "same": c.get("cmp").and_then(|x| bytes(&self.blobs, x)).map(|x| x == b)});
                        if let Some(id) = c["store"].as_str() {
                            self.blobs.insert(id.to_string(), b);
                        }
                        v
                    }
                    Err(e) => err(e),
                }
            }
            "overhead" => {
                json!({"res":"ok","n":hc::symmetric_encryption_overhead::<Aes, 100>(),"n2":hc::symmetric_encryption_overhead::<Aes, { 1 << 30 }>()})
            }
            // ---- freshness under concurrency: the same op on many threads -------
            "par" => {
                let n = u(c, "threads");
                let rep = u(c, "rep");
                let what = s(c, "what");
                let (pol, msk, mpk, mdk) = (
                    &self.pol[&s(c, "p")],
                    &self.msk[&s(c, "m")],
                    &self.mpk[&s(c, "m")],
                    &self.mdk[&s(c, "m")],
                );
                let attrs = Self::attrs(&c["attrs"]);
                let ap = formula(&c["ap"]);
                let key = c["k"].as_str().map(|k| &self.key[k]);
                let msg = c["g"].as_str().map(|g| &self.msg[g]);
                let bar = std::sync::Barrier::new(n);
                let out: Vec<Vec<String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|_| {
                            let (what, attrs, ap, bar) = (&what, &attrs, &ap, &bar);
                            sc.spawn(move || {
                                let eng = Engine::<S>::new();
                                bar.wait();
                                (0..rep)
                                    .map(|_| -> String {
                                        let b = match what.as_str() {
                                            "encrypt" => eng
                                                .encrypt(pol, mpk, attrs, msg.unwrap())
                                                .and_then(|x| x.try_into_bytes()),
                                            "ukey" => eng
                                                .generate_user_key(pol, msk, ap)
                                                .and_then(|x| x.try_into_bytes()),
                                            "delegate" => eng
                                                .delegate_user_key(pol, mdk, key.unwrap(), ap)
                                                .and_then(|x| x.try_into_bytes()),
                                            "msg" => eng.random_message().and_then(|x| x.try_into_bytes()),
                                            "master" => eng
                                                .generate_master_key(pol)
                                                .and_then(|x| x.0.try_into_bytes()),
                                            "hdr" => hc::encrypt_hybrid_header::<S, Aes>(pol, mpk, attrs, Some(Metadata{uid: vec![1], additional_data: Some(vec![2])}))
                                                .and_then(|h| h.try_into_bytes()),
                                            "blk" => {
                                                let k = Key::try_from_bytes(&[7u8; 32]).unwrap();
                                                hc::encrypt_hybrid_block::<S, Aes, 100>(&k, &[1], 2, &[3, 4, 5])
                                            }
                                            _ => panic!("harness: par"),
                                        };
                                        b.map(hex::encode).unwrap_or_else(|e| format!("err {e}"))
                                    })
                                    .collect()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["panic".into()])).collect()
                });
                json!({"res":"ok","out":out})
            }
            x => panic!("harness: unknown op {x}"),
        }
    }
}
