//! Register machine over the operations of the real BLS12-381 backend.
use std::collections::HashMap;

use cosmian_abe_gpsw::core::{
    bilinear_map::{
        bls12_381::{Bls12_381, Scalar},
        BilinearMap,
    },
    gpsw::AsBytes,
};
use serde_json::{json, Value};

use crate::store::{bytes, s, Blobs};

type B = Bls12_381;
type G1 = <B as BilinearMap>::G1;
type G2 = <B as BilinearMap>::G2;
type G3 = <B as BilinearMap>::G3;
type Gt = <B as BilinearMap>::Gt;

pub struct Regs {
    sc: HashMap<String, Scalar>,
    g1: HashMap<String, G1>,
    g2: HashMap<String, G2>,
    g3: HashMap<String, G3>,
    gt: HashMap<String, Gt>,
}

fn hx<T: AsBytes>(x: &T) -> String {
    x.try_into_bytes().map(hex::encode).unwrap_or_else(|e| format!("err {e}"))
}

impl Regs {
    pub fn new() -> Self {
        Self { sc: HashMap::new(), g1: HashMap::new(), g2: HashMap::new(), g3: HashMap::new(), gt: HashMap::new() }
    }

    pub fn exec(&mut self, c: &Value) -> Value {
        let b = B::default();
        let d = c["d"].as_str().unwrap_or("").to_string();
        let a = || s(c, "a");
        let x = || s(c, "x");
        macro_rules! put {
            ($m:ident, $e:expr) => {{
                let v = $e;
                let h = hx(&v);
                self.$m.insert(d, v);
                json!({"res":"ok","w":h})
            }};
        }
        match s(c, "f").as_str() {
            "reset" => {
                *self = Self::new();
                json!({"res":"ok"})
            }
            // scalars
            "int" => put!(sc, Scalar::from(c["i"].as_i64().unwrap() as i32)),
            "sc_one" => put!(sc, <B as BilinearMap>::ONE),
            "sc_zero" => put!(sc, <B as BilinearMap>::ZERO),
            "sc_add" => put!(sc, self.sc[&a()].clone() + &self.sc[&x()]),
            "sc_sub" => put!(sc, self.sc[&a()].clone() - &self.sc[&x()]),
            "sc_mul" => put!(sc, self.sc[&a()].clone() * &self.sc[&x()]),
            "sc_div" => put!(sc, self.sc[&a()].clone() / &self.sc[&x()]),
            "sc_neg" => put!(sc, -self.sc[&a()].clone()),
            // many at once, on many threads: the first bytes of each
            "bulk" => {
                let (what, n, threads) = (s(c, "what"), c["n"].as_u64().unwrap() as usize, c["threads"].as_u64().unwrap() as usize);
                let short = |mut h: String| {
                    h.truncate(40);
                    h
                };
                let out: Vec<Vec<String>> = std::thread::scope(|sp| {
                    let hs: Vec<_> = (0..threads)
                        .map(|_| {
                            let what = &what;
                            sp.spawn(move || {
                                let b = B::default();
                                (0..n)
                                    .flat_map(|_| match what.as_str() {
                                        "sc" => vec![short(hx(&b.gen_random_scalar().unwrap()))],
                                        "vec" => b.gen_random_scalar_vector(4).unwrap().iter().map(|x| short(hx(x))).collect(),
                                        "gt" => vec![short(hx(&b.gen_random_msg_in_gt().unwrap()))],
                                        _ => panic!("harness: bulk"),
                                    })
                                    .collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                json!({"res":"ok","out":out.concat()})
            }
            "sc_rand" => put!(sc, b.gen_random_scalar().unwrap()),
            // G2 (ciphertext side)
            "g2_gen" => put!(g2, b.g2_gen_exp(&self.sc[&x()])),
            "g2_gen_vec" => put!(g2, b.g2_gen_exp_vector(&[self.sc[&x()].clone()]).remove(0)),
            // one element of a vector of them
            "g2_gens" | "g3_gens" => {
                let xs: Vec<Scalar> = c["xs"].as_array().unwrap().iter().map(|v| self.sc[v.as_str().unwrap()].clone()).collect();
                let at = c["at"].as_u64().unwrap() as usize - 1;
                let (mut r, n) = if s(c, "f") == "g2_gens" {
                    let mut v = b.g2_gen_exp_vector(&xs);
                    let n = v.len();
                    (if at < n { put!(g2, v.swap_remove(at)) } else { json!({"res":"none"}) }, n)
                } else {
                    let mut v = b.g3_gen_exp_vector(&xs);
                    let n = v.len();
                    (if at < n { put!(g3, v.swap_remove(at)) } else { json!({"res":"none"}) }, n)
                };
                r["n"] = json!(n);
                r
            }
            "g2_exp" => put!(g2, b.g2_exp(&self.g2[&a()], &self.sc[&x()])),
            // G3 / G1 (key side)
            "g3_gen" => put!(g3, b.g3_gen_exp(&self.sc[&x()])),
            "g3_gen_vec" => put!(g3, b.g3_gen_exp_vector(&[self.sc[&x()].clone()]).remove(0)),
            "g3_exp" => put!(g3, b.g3_exp(&self.g3[&a()], &self.sc[&x()])),
            "g1_gen" => {
                let (p, q) = b.g1_gen_exp(&self.sc[&x()]);
                self.g1.insert(d.clone(), p);
                put!(g3, q)
            }
            "g3_mul" => {
                let (p, q) = b.g3_mul(&self.g3[&a()], &self.g3[&x()]);
                self.g1.insert(d.clone(), p);
                put!(g3, q)
            }
            "g3_to_g1" => {
                let p = B::g3_to_g1(&self.g3[&a()]);
                self.g1.insert(d.clone(), p);
                let q = self.g3[&a()];
                put!(g3, q)
            }
            // Gt
            "gt_gen" => put!(gt, b.gt_gen_exp(&self.sc[&x()])),
            "gt_exp" => put!(gt, b.gt_exp(&self.gt[&a()], &self.sc[&x()])),
            "gt_mul" => put!(gt, b.gt_mul(&self.gt[&a()], &self.gt[&x()])),
            "gt_div" => put!(gt, b.gt_div(&self.gt[&a()], &self.gt[&x()])),
            "gt_rand" => put!(gt, b.gen_random_msg_in_gt().unwrap()),
            "msg_to_gt" => {
                let m = bytes(&Blobs::new(), &c["data"]).unwrap();
                match b.msg_to_gt(&m) {
                    Ok(v) => put!(gt, v),
                    Err(e) => json!({"res":"err","msg":e.to_string()}),
                }
            }
            "msg_to_sc" => {
                let m = bytes(&Blobs::new(), &c["data"]).unwrap();
                match b.msg_to_scalar(&m) {
                    Ok(v) => put!(sc, v),
                    Err(e) => json!({"res":"err","msg":e.to_string()}),
                }
            }
            "pair" => {
                let l = |k: &str| -> Vec<String> {
                    c[k].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect()
                };
                let (ds, es, xs) = (l("ds"), l("es"), l("xs"));
                let dv: Vec<&G1> = ds.iter().map(|i| &self.g1[i]).collect();
                let ev: Vec<&G2> = es.iter().map(|i| &self.g2[i]).collect();
                let av: Vec<&Scalar> = xs.iter().map(|i| &self.sc[i]).collect();
                put!(gt, b.prod_gt_exp(&dv, &ev, &av))
            }
            // encodings
            "codec" => {
                macro_rules! cd {
                    ($m:ident, $t:ty) => {{
                        let v = &self.$m[&a()];
                        let by = v.try_into_bytes().unwrap();
                        let mut long = by.clone();
                        long.extend_from_slice(&[0xEE; 5]);
                        match (<$t>::try_from_bytes(&by), <$t>::try_from_bytes(&long)) {
                            (Ok(y), Ok(z)) => json!({"res":"ok","w":hex::encode(&by),"w2":hx(&y),"w3":hx(&z),"eq":y == *v && z == *v,
                                "len":v.len_bytes() == by.len(),"short":<$t>::try_from_bytes(&by[..by.len()-1]).is_err()
                                  && <$t>::try_from_bytes(&[]).is_err()}),
                            _ => json!({"res":"err"}),
                        }
                    }};
                }
                match s(c, "t").as_str() {
                    "sc" => cd!(sc, Scalar),
                    "g2" => cd!(g2, G2),
                    "g3" => cd!(g3, G3),
                    _ => cd!(gt, Gt),
                }
            }
            "decode" => {
                let m = bytes(&Blobs::new(), &c["data"]).unwrap();
                macro_rules! de {
                    ($m:ident, $t:ty) => {
                        match <$t>::try_from_bytes(&m) {
                            Ok(v) => put!($m, v),
                            Err(e) => json!({"res":"err","msg":e.to_string()}),
                        }
                    };
                }
                match s(c, "t").as_str() {
                    "sc" => de!(sc, Scalar),
                    "g2" => de!(g2, G2),
                    "g3" => de!(g3, G3),
                    _ => de!(gt, Gt),
                }
            }
            "eq" => {
                let r = match s(c, "t").as_str() {
                    "sc" => self.sc[&a()] == self.sc[&x()],
                    "g2" => self.g2[&a()] == self.g2[&x()],
                    "g3" => self.g3[&a()] == self.g3[&x()],
                    _ => self.gt[&a()] == self.gt[&x()],
                };
                json!({"res":"ok","eq":r})
            }
            y => panic!("harness: group op {y}"),
        }
    }
}
