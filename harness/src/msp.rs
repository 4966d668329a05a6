use cosmian_abe_gpsw::core::{
    bilinear_map::bls12_381::{Bls12_381, Scalar},
    gpsw::{AsBytes, Gpsw},
    msp::{MonotoneSpanProgram, Node},
};
use serde_json::{json, Value};

use crate::{
    store::s,
    toy::{Toy, E},
};

fn tree(n: &Node) -> Value {
    match n {
        Node::And(a, b) => json!(["and", tree(a), tree(b)]),
        Node::Or(a, b) => json!(["or", tree(a), tree(b)]),
        Node::Leaf(v) => json!(["v", v]),
    }
}

fn node(v: &Value) -> Node {
    match v[0].as_str().expect("node") {
        "and" => Node::And(Box::new(node(&v[1])), Box::new(node(&v[2]))),
        "or" => Node::Or(Box::new(node(&v[1])), Box::new(node(&v[2]))),
        _ => Node::Leaf(v[1].as_u64().expect("leaf") as u32),
    }
}

fn dump(m: &MonotoneSpanProgram<i32>) -> Value {
    let attrs: Vec<u32> = (0..m.rows()).map(|i| m.get_attr_from_row(i)).collect();
    let back: Vec<Value> = attrs.iter().map(|a| json!(m.get_row_from_attr(*a))).collect();
    json!({"res":"ok","rows":m.rows(),"cols":m.cols(),"matrix":m.matrix(),"attrs":attrs,"back":back})
}

fn span<const P: u64>(m: &Value) -> Value {
    let mut mat: Vec<Vec<E<P>>> = m
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r.as_array().unwrap().iter().map(|x| E::<P>::from(x.as_i64().unwrap() as i32)).collect())
        .collect();
    match Gpsw::<Toy<P>>::span_coefs(&mut mat) {
        Ok(Some(a)) => json!({"res":"some","a":a.iter().map(|x| x.0).collect::<Vec<_>>()}),
        Ok(None) => json!({"res":"none"}),
        Err(e) => json!({"res":"err","msg":e.to_string()}),
    }
}

pub fn exec(c: &Value) -> Value {
    // on a thread with a stack of so many megabytes
    if let Some(mb) = c["stack"].as_u64() {
        let mut c2 = c.clone();
        c2["stack"] = Value::Null;
        return std::thread::Builder::new()
            .stack_size((mb as usize) << 20)
            .spawn(move || exec(&c2))
            .unwrap()
            .join()
            .unwrap_or_else(|_| json!({"res":"panic","msg":"in thread"}));
    }
    match c["op"].as_str().unwrap() {
        "parse" => match Node::parse(&s(c, "text")) {
            Ok(n) => {
                let m = MonotoneSpanProgram::<i32>::parse(&s(c, "text"));
                if c["quiet"].as_bool() == Some(true) {
                    return json!({"res":"ok","msp":m.is_ok()});
                }
                json!({"res":"ok","tree":tree(&n),"shown":n.to_string(),"msp":m.is_ok()})
            }
            Err(e) => {
                let m = MonotoneSpanProgram::<i32>::parse(&s(c, "text"));
                json!({"res":"err","msg":e.to_string(),"msp":m.is_ok()})
            }
        },
        "msp" => match node(&c["node"]).to_msp() {
            Ok(m) => {
                let mut d = dump(&m);
                d["shown"] = json!(node(&c["node"]).to_string());
                d
            }
            Err(e) => json!({"res":"err","msg":e.to_string()}),
        },
        "span_s" => {
            let m = &c["m"];
            match c["q"].as_u64().unwrap() {
                2 => span::<2>(m),
                3 => span::<3>(m),
                5 => span::<5>(m),
                7 => span::<7>(m),
                32749 => span::<32749>(m),
                x => panic!("harness: field {x}"),
            }
        }
        // the same through the BLS12-381 scalar field; solutions checked by small integers
        "span_b" => {
            let mut mat: Vec<Vec<Scalar>> = c["m"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| r.as_array().unwrap().iter().map(|x| Scalar::from(x.as_i64().unwrap() as i32)).collect())
                .collect();
            let orig = mat.clone();
            match Gpsw::<Bls12_381>::span_coefs(&mut mat) {
                Ok(Some(a)) => {
                    // residual of a*M - (1..1), as canonical bytes: observation, not verdict
                    let mut res = vec![];
                    for c in 0..orig[0].len() {
                        let mut t = Scalar::from(0);
                        for (r, row) in orig.iter().enumerate() {
                            t = t + &(row[c].clone() * &a[r]);
                        }
                        res.push(hex::encode((t - &Scalar::from(1)).try_into_bytes().unwrap()));
                    }
                    json!({"res":"some","n":a.len(),"residual":res})
                }
                Ok(None) => json!({"res":"none"}),
                Err(e) => json!({"res":"err","msg":e.to_string()}),
            }
        }
        _ => unreachable!(),
    }
}
