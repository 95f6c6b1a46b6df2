//! C20: emits, one JSON document per line, the schemas the crate produces and the serialized
//! values of every enumerated hash; tools/schema_check.py evaluates them exhaustively.
use mc::subjects::Tg;
use mc::vals::{back, Val, BACKS};
use schemars::gen::SchemaSettings;
use schemars::JsonSchema;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn schemas<T: JsonSchema>() -> Vec<Value> {
    [SchemaSettings::draft07(), SchemaSettings::draft2019_09(), SchemaSettings::openapi3(), SchemaSettings::draft07().with(|s| s.inline_subschemas = true)]
        .into_iter()
        .map(|s| serde_json::to_value(s.into_generator().into_root_schema_for::<T>()).unwrap())
        .collect()
}

fn one<T: Val + JsonSchema + Serialize>(tier: &str) {
    println!("{}", json!({"kind": "type", "name": T::NAME, "n": T::N, "schemas": schemas::<T>()}));
    let backs = if tier == "thorough" { BACKS } else if T::N > 64 { 1 } else { 2 };
    for k in 0..backs {
        for p in 0..T::N {
            let mut vals = Vec::with_capacity(256);
            for v in (0..=255u8).filter(|v| tier == "thorough" || T::N <= 64 || v % 51 == 0) {
                let mut b = back(k, T::N);
                b[p] = v;
                vals.push(serde_json::to_value(T::of(&b)).unwrap());
            }
            println!("{}", json!({"kind": "values", "name": T::NAME, "back": k, "pos": p, "values": vals}));
        }
    }
    // Inside containers.
    let x = T::of(&back(0, T::N));
    let mut m = BTreeMap::new();
    m.insert("k".to_string(), x);
    let docs = [
        ("option", schemas::<Option<T>>(), serde_json::to_value(Some(x)).unwrap()),
        ("vec", schemas::<Vec<T>>(), serde_json::to_value(vec![x, x]).unwrap()),
        ("array", schemas::<[T; 3]>(), serde_json::to_value([x, x, x]).unwrap()),
        ("box", schemas::<Box<T>>(), serde_json::to_value(Box::new(x)).unwrap()),
        ("map", schemas::<BTreeMap<String, T>>(), serde_json::to_value(&m).unwrap()),
    ];
    for (how, s, v) in docs {
        println!("{}", json!({"kind": "wrap", "name": T::NAME, "n": T::N, "how": how, "schemas": s, "value": v}));
    }
}

fn pair<A: Val + JsonSchema + Serialize, B: Val + JsonSchema + Serialize>() {
    let (a, b) = (A::of(&back(0, A::N)), B::of(&back(3, B::N)));
    println!(
        "{}",
        json!({"kind": "pair", "a": A::NAME, "b": B::NAME, "na": A::N, "nb": B::N, "schemas": schemas::<(A, B)>(), "value": serde_json::to_value((a, b)).unwrap(),
               "swapped": serde_json::to_value((b, a)).unwrap()})
    );
}

macro_rules! types {
    ($m:ident ! ($($x:tt)*)) => { $m!(($($x)*) chf::sha1::Hash, chf::sha256::Hash, chf::sha384::Hash, chf::sha512::Hash, chf::sha512_256::Hash, chf::ripemd160::Hash, chf::siphash24::Hash, chf::sha256t::Hash<Tg>,
        chf::hmac::Hash<1>, chf::hmac::Hash<2>, chf::hmac::Hash<3>, chf::hmac::Hash<8>, chf::hmac::Hash<20>, chf::hmac::Hash<32>, chf::hmac::Hash<48>, chf::hmac::Hash<64>) };
}
macro_rules! ones { (($t:expr) $($ty:ty),*) => { $( one::<$ty>($t); )* } }
macro_rules! with_a { (($a:ty) $($b:ty),*) => { $( pair::<$a, $b>(); )* } }
macro_rules! pairs { (() $($a:ty),*) => { $( types!(with_a!($a)); )* } }

fn main() {
    let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
    types!(ones!(tier.as_str()));
    // Further lengths of HMAC outputs.
    ones!((tier.as_str()) chf::hmac::Hash<5>, chf::hmac::Hash<16>, chf::hmac::Hash<100>, chf::hmac::Hash<128>, chf::hmac::Hash<129>, chf::hmac::Hash<300>);
    types!(pairs!());
}
