//! Monitors for serialization, totality, determinism and concurrency, single precision.
use cavalier_contours::core::Control;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavc_monitor::ensure;
use cavc_monitor::gen_::*;
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::fmt::Debug;

// ---------------------------------------------------------------- C24

/// finite numbers of every kind
fn number(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.int(-1000, 1000) as f64,
        2 | 3 => r.range(-100.0, 100.0),
        4 => r.sign() * r.logrange(1e-300, 1e300),
        5 => r.pick(&[-0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.1, 1.0 / 3.0, 1e22, 9007199254740993.0, -1e-310]),
        _ => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                break x;
            }
        },
    }
}
fn number32(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => r.pick(&[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0]),
        1 => r.int(-1000, 1000) as f32,
        2 => r.range(-100.0, 100.0) as f32,
        _ => loop {
            let x = f32::from_bits(r.u64() as u32);
            if x.is_finite() {
                break x;
            }
        },
    }
}
/// same structure and numbers, the latter in the precision of the values
fn alike(a: &Value, b: &Value, single: bool) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || matches!((x.as_f64(), y.as_f64()), (Some(x), Some(y)) if x == y || (single && x as f32 == y as f32))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y, single)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, x)| y.get(k).is_some_and(|y| alike(x, y, single))),
        _ => a == b,
    }
}
trait Bits {
    fn bits(&self) -> Vec<u64>;
}
macro_rules! impl_bits {
    ($t:ty) => {
        impl Bits for Vector2<$t> {
            fn bits(&self) -> Vec<u64> {
                vec![self.x.to_bits() as u64, self.y.to_bits() as u64]
            }
        }
        impl Bits for PlineVertex<$t> {
            fn bits(&self) -> Vec<u64> {
                vec![self.x.to_bits() as u64, self.y.to_bits() as u64, self.bulge.to_bits() as u64]
            }
        }
        impl Bits for Polyline<$t> {
            fn bits(&self) -> Vec<u64> {
                let mut b = vec![self.is_closed() as u64, self.vertex_count() as u64];
                for i in 0..self.vertex_count() {
                    b.extend(self.at(i).bits());
                }
                b
            }
        }
        impl Bits for PlineViewData<$t> {
            fn bits(&self) -> Vec<u64> {
                let mut b = vec![self.start_index as u64, self.end_index_offset as u64, self.inverted_direction as u64];
                b.extend(self.updated_start.bits());
                b.push(self.updated_end_bulge.to_bits() as u64);
                b.extend(self.end_point.bits());
                b
            }
        }
        impl Bits for BooleanPlineSlice<$t> {
            fn bits(&self) -> Vec<u64> {
                let mut b = self.view_data.bits();
                b.extend([self.source_is_pline1 as u64, self.overlapping as u64]);
                b
            }
        }
        impl Bits for BooleanResultPline<Polyline<$t>> {
            fn bits(&self) -> Vec<u64> {
                let mut b = self.pline.bits();
                b.push(self.subslices.len() as u64);
                for s in &self.subslices {
                    b.extend(s.bits());
                }
                b
            }
        }
    };
}
impl_bits!(f64);
impl_bits!(f32);

fn cbor<T: Serialize>(x: &T) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    ciborium::into_writer(x, &mut b).map_err(|e| e.to_string())?;
    Ok(b)
}
/// value -> bytes -> value for each format, plus the shape of the self describing ones
fn round<T: Serialize + DeserializeOwned + Bits>(c: &mut Case, what: &str, x: &T, shape: &Value) -> R {
    let single = c.class == "f32";
    let b = x.bits();
    let err = |f: &str, e: String| Fail { kind: "serde".into(), msg: format!("{what} through {f}: {e}") };
    // text
    let s = serde_json::to_string(x).map_err(|e| err("JSON", e.to_string()))?;
    let y: T = serde_json::from_str(&s).map_err(|e| err("JSON", e.to_string()))?;
    ensure!(y.bits() == b, "round-trip", "{what} came back different through JSON: {s}");
    let v: Value = serde_json::from_str(&s).map_err(|e| err("JSON", e.to_string()))?;
    ensure!(alike(&v, shape, single), "format", "{what} is written as {s}, expected the structure {shape}");
    let y: T = serde_json::from_value(shape.clone()).map_err(|e| err("a JSON value", e.to_string()))?;
    ensure!(y.bits() == b, "round-trip", "{what} read from {shape} came back different");
    let y: T = serde_json::from_str(&serde_json::to_string_pretty(x).unwrap()).map_err(|e| err("pretty JSON", e.to_string()))?;
    ensure!(y.bits() == b, "round-trip", "{what} came back different through pretty JSON");
    // self describing binary with declared lengths
    let m = cbor(x).map_err(|e| err("CBOR", e))?;
    let mut rd = &m[..];
    let y: T = ciborium::from_reader(&mut rd).map_err(|e| err("CBOR", e.to_string()))?;
    ensure!(rd.is_empty(), "round-trip", "{what} through CBOR left {} bytes", rd.len());
    ensure!(y.bits() == b, "round-trip", "{what} came back different through CBOR");
    // compact binary
    let m2 = bincode::serialize(x).map_err(|e| err("bincode", e.to_string()))?;
    let y: T = bincode::deserialize(&m2).map_err(|e| err("bincode", e.to_string()))?;
    ensure!(y.bits() == b, "round-trip", "{what} came back different through bincode");
    ensure!(bincode::serialized_size(x).ok() == Some(m2.len() as u64), "round-trip", "{what}: bincode size differs");
    // several values one after another
    let pair = (x, 7u32, x);
    let m3 = bincode::serialize(&pair).map_err(|e| err("bincode", e.to_string()))?;
    let (y, k, z): (T, u32, T) = bincode::deserialize(&m3).map_err(|e| err("bincode in sequence", e.to_string()))?;
    ensure!(k == 7 && y.bits() == b && z.bits() == b, "round-trip", "{what} in a bincode sequence came back different");
    let m4 = cbor(&pair).map_err(|e| err("CBOR", e))?;
    let (y, k, z): (T, u32, T) = ciborium::from_reader(&m4[..]).map_err(|e| err("CBOR in sequence", e.to_string()))?;
    ensure!(k == 7 && y.bits() == b && z.bits() == b, "round-trip", "{what} in a CBOR sequence came back different");
    c.ev("round_trips", 8);
    // cut short
    for _ in 0..3 {
        let (k1, k2, k3) = (c.rng.below(s.len()), c.rng.below(m.len()), c.rng.below(m2.len()));
        let cut = s.is_char_boundary(k1) && serde_json::from_str::<T>(&s[..k1]).is_ok();
        ensure!(!cut, "malformed", "{what} cut short is accepted from JSON: {}", &s[..k1]);
        ensure!(ciborium::from_reader::<T, _>(&m[..k2]).is_err(), "malformed", "{what} cut short is accepted from CBOR");
        ensure!(bincode::deserialize::<T>(&m2[..k3]).is_err(), "malformed", "{what} cut short is accepted from bincode");
        c.ev("refusals", 3);
    }
    // damaged bytes: any answer but a failure; an accepted value writes and reads back as itself
    for _ in 0..4 {
        let mut d = if c.rng.chance(0.5) { m.clone() } else { s.clone().into_bytes() };
        for _ in 0..c.rng.int(1, 3) {
            let k = c.rng.below(d.len());
            d[k] = c.rng.u64() as u8;
        }
        let a: Option<T> = ciborium::from_reader(&d[..]).ok();
        let t: Option<T> = serde_json::from_slice(&d).ok();
        if let Some(a) = a {
            let w = cbor(&a).map_err(|e| err("CBOR", e))?;
            let z: T = ciborium::from_reader(&w[..]).map_err(|e| err("CBOR", e.to_string()))?;
            ensure!(same_or_nan(&z.bits(), &a.bits()), "round-trip", "{what} read from damaged CBOR does not survive a round trip");
            c.ev("damaged_accepted", 1);
        }
        if let Some(t) = t {
            let z: T = serde_json::from_str(&serde_json::to_string(&t).unwrap()).map_err(|e| err("JSON", e.to_string()))?;
            ensure!(z.bits() == t.bits(), "round-trip", "{what} read from damaged JSON does not survive a round trip");
            c.ev("damaged_accepted", 1);
        }
        c.ev("damaged_inputs", 1);
    }
    Ok(())
}
fn same_or_nan(a: &[u64], b: &[u64]) -> bool {
    // payloads of NaNs may change through a conversion of width
    let nan = |x: u64| f64::from_bits(x).is_nan() || f32::from_bits(x as u32).is_nan();
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (nan(*x) && nan(*y)))
}
fn refused<T: DeserializeOwned + Debug>(c: &mut Case, what: &str, v: &Value) -> R {
    let r = serde_json::from_value::<T>(v.clone());
    ensure!(r.is_err(), "malformed", "{what} is accepted from {v}: {r:?}");
    let r = serde_json::from_str::<T>(&v.to_string());
    ensure!(r.is_err(), "malformed", "{what} is accepted from the text {v}: {r:?}");
    let m = cbor(v).unwrap();
    let r = ciborium::from_reader::<T, _>(&m[..]);
    ensure!(r.is_err(), "malformed", "{what} is accepted from the CBOR form of {v}");
    c.ev("refusals", 3);
    Ok(())
}
macro_rules! c24_body {
    ($t:ty, $num:ident, $c:expr) => {{
        let c: &mut Case = $c;
        let v = Vector2::<$t>::new($num(&mut c.rng), $num(&mut c.rng));
        let q = PlineVertex::<$t>::new($num(&mut c.rng), $num(&mut c.rng), $num(&mut c.rng));
        let n = c.rng.pick(&[0usize, 1, 2, 3, 7, 23, 24, 25, 60, 256]);
        let mut pl = Polyline::<$t>::with_capacity(n, c.rng.chance(0.5));
        for _ in 0..n {
            pl.add($num(&mut c.rng), $num(&mut c.rng), $num(&mut c.rng));
        }
        c.input(format!("{} {v:?} {q:?} polyline of {n} {:?}", stringify!($t), pl.vertex_data.first()));
        round(c, "Vector2", &v, &json!([v.x, v.y]))?;
        round(c, "PlineVertex", &q, &json!([q.x, q.y, q.bulge]))?;
        let rows = |pl: &Polyline<$t>| pl.vertex_data.iter().map(|q| json!([q.x, q.y, q.bulge])).collect::<Vec<_>>();
        round(c, "Polyline", &pl, &json!({"vertexes": rows(&pl), "isClosed": pl.is_closed()}))?;
        let d = PlineViewData::<$t> {
            start_index: c.rng.u64() as usize >> c.rng.below(60),
            end_index_offset: c.rng.u64() as usize >> c.rng.below(60),
            updated_start: q,
            updated_end_bulge: $num(&mut c.rng),
            end_point: v,
            inverted_direction: c.rng.chance(0.5),
        };
        let dj = json!({"startIndex": d.start_index, "endIndexOffset": d.end_index_offset, "updatedStart": [q.x, q.y, q.bulge],
            "updatedEndBulge": d.updated_end_bulge, "endPoint": [v.x, v.y], "invertedDirection": d.inverted_direction});
        round(c, "PlineViewData", &d, &dj)?;
        // a struct of the library's own result type, filled with any values
        let sl = BooleanPlineSlice::<$t> { view_data: d, source_is_pline1: c.rng.chance(0.5), overlapping: c.rng.chance(0.5) };
        let sj = json!({"viewData": dj, "sourceIsPline1": sl.source_is_pline1, "overlapping": sl.overlapping});
        round(c, "BooleanPlineSlice", &sl, &sj)?;
        let k = c.rng.below(4);
        let rp = BooleanResultPline { pline: pl.clone(), subslices: (0..k).map(|_| sl).collect() };
        round(c, "BooleanResultPline", &rp, &json!({"pline": {"vertexes": rows(&pl), "isClosed": pl.is_closed()}, "subslices": vec![sj.clone(); k]}))?;
        // malformed
        let (x, y, z) = (json!(1.5), json!(-2), json!(0.25));
        for bad in [json!([]), json!([x]), json!([x, y]), json!([x, y, z, z]), json!([x, y, "1"]), json!([x, null, z]), json!([x, y, [z]]), json!({"x": x, "y": y, "bulge": z}), json!("1,2,3"), json!(null), json!(true), json!([x, true, z])] {
            refused::<PlineVertex<$t>>(c, "PlineVertex", &bad)?;
            refused::<Polyline<$t>>(c, "Polyline", &json!({"vertexes": [[0, 0, 0], bad], "isClosed": true}))?;
        }
        for bad in [json!([]), json!([x]), json!([x, y, z]), json!(["a", y]), json!([null, y]), json!(3), json!({"x": x, "y": y}), json!(null)] {
            refused::<Vector2<$t>>(c, "Vector2", &bad)?;
        }
        let rows = rows(&pl);
        for bad in [
            json!({"vertexes": rows}),
            json!({"isClosed": true}),
            json!({"vertexes": rows, "isClosed": 1}),
            json!({"vertexes": rows, "isClosed": null}),
            json!({"vertexes": rows, "isClosed": "true"}),
            json!({"vertexes": null, "isClosed": true}),
            json!({"vertexes": {"0": [1, 2, 3]}, "isClosed": true}),
            json!({"vertexData": rows, "isClosed": true}),
            json!({"vertexes": rows, "is_closed": true}),
            json!(rows),
            json!(null),
        ] {
            if bad.as_array().is_some_and(|a| a.len() == 2) {
                continue;
            }
            refused::<Polyline<$t>>(c, "Polyline", &bad)?;
        }
        for k in ["startIndex", "endIndexOffset", "updatedStart", "updatedEndBulge", "endPoint", "invertedDirection"] {
            let mut b = dj.clone();
            b.as_object_mut().unwrap().remove(k);
            refused::<PlineViewData<$t>>(c, "PlineViewData", &b)?;
            b[k] = json!("x");
            refused::<PlineViewData<$t>>(c, "PlineViewData", &b)?;
        }
        c.nontrivial();
        Ok(())
    }};
}
fn c24_f64(c: &mut Case) -> R {
    c24_body!(f64, number, c)
}
fn c24_f32(c: &mut Case) -> R {
    c24_body!(f32, number32, c)
}
/// results of boolean operations of real outlines
fn c24_bool(c: &mut Case) -> R {
    let a = closed(&mut c.rng, Style::Grid, 1e-3);
    let b = closed(&mut c.rng, Style::Grid, 1e-3);
    c.input(format!("{} with {}", ptext(&a), ptext(&b)));
    let (pa, pb) = (to_pl(&a.v, true), to_pl(&b.v, true));
    for op in [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor] {
        let r = pa.boolean(&pb, op);
        for q in r.pos_plines.iter().chain(&r.neg_plines) {
            let view = |d: &PlineViewData<f64>| {
                json!({"startIndex": d.start_index, "endIndexOffset": d.end_index_offset, "updatedStart": [d.updated_start.x, d.updated_start.y, d.updated_start.bulge],
                    "updatedEndBulge": d.updated_end_bulge, "endPoint": [d.end_point.x, d.end_point.y], "invertedDirection": d.inverted_direction})
            };
            let shape = json!({
                "pline": {"vertexes": q.pline.vertex_data.iter().map(|q| json!([q.x, q.y, q.bulge])).collect::<Vec<_>>(), "isClosed": q.pline.is_closed()},
                "subslices": q.subslices.iter().map(|s| json!({"viewData": view(&s.view_data), "sourceIsPline1": s.source_is_pline1, "overlapping": s.overlapping})).collect::<Vec<_>>(),
            });
            round(c, "boolean result", q, &shape)?;
            if q.subslices.len() > 1 {
                c.nontrivial();
            }
            c.ev("boolean_results", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

/// finite polylines nobody would draw
fn hostile(r: &mut Rng) -> Path {
    let mut pa = match r.below(10) {
        0 => {
            // spirals and combs: many segments next to each other
            let n = r.int(3, 60) as usize;
            let (c, st) = (p(r.range(-2.0, 2.0), r.range(-2.0, 2.0)), r.pick(&[0.1, 0.5, 1.0]));
            let arc = r.chance(0.5);
            let v = (0..n).map(|k| {
                let q = polar(c, 0.3 + st * k as f64 / 8.0, k as f64 * std::f64::consts::PI / 4.0);
                [q.x, q.y, if arc { 0.2 } else { 0.0 }]
            });
            Path::new(v.collect(), r.chance(0.5))
        }
        1 => {
            // all at one place
            let n = r.int(0, 6) as usize;
            let b = r.pick(&[0.0, 1.0, -0.5]);
            let q = [r.range(-3.0, 3.0), r.range(-3.0, 3.0), b];
            Path::new(vec![q; n], r.chance(0.5))
        }
        2 => {
            // back and forth on one line or circle
            let n = r.int(2, 12) as usize;
            let circ = r.chance(0.5);
            let v = (0..n)
                .map(|_| {
                    if circ {
                        let q = polar(p(1.0, 1.0), 2.0, r.int(0, 7) as f64 * std::f64::consts::PI / 4.0);
                        [q.x, q.y, r.pick(&[0.0, 1.0, -1.0, Q, -Q, 0.2])]
                    } else {
                        [r.int(-4, 4) as f64, 0.0, if r.chance(0.1) { r.pick(&[1.0, -1.0]) } else { 0.0 }]
                    }
                })
                .collect();
            Path::new(v, r.chance(0.6))
        }
        3 => {
            // few positions, visited again and again
            let k = r.int(2, 4) as usize;
            let ps: Vec<[f64; 2]> = (0..k).map(|_| [r.int(-2, 2) as f64, r.int(-2, 2) as f64]).collect();
            let n = r.int(2, 12) as usize;
            let v = (0..n)
                .map(|_| {
                    let q = r.pick(&ps);
                    [q[0], q[1], r.pick(&[0.0, 0.0, 1.0, -1.0, 0.5, -Q])]
                })
                .collect();
            Path::new(v, r.chance(0.7))
        }
        _ => wild(r),
    };
    if r.chance(0.3) {
        // almost coincident features
        let e = r.logrange(1e-16, 1e-3);
        let all = r.chance(0.5);
        for q in pa.v.iter_mut() {
            if all || r.chance(0.3) {
                q[0] += r.sign() * e * r.f();
                q[1] += r.sign() * e * r.f();
            }
        }
    }
    if r.chance(0.2) {
        // neighbours almost at the same place
        let e = r.logrange(1e-16, 1e-3);
        let mut w = vec![];
        for q in &pa.v {
            w.push(*q);
            if r.chance(0.4) {
                w.push([q[0] + e * (r.f() - 0.5), q[1] + e * (r.f() - 0.5), r.pick(&[0.0, q[2], 1.0])]);
            }
        }
        pa.v = w;
    }
    if r.chance(0.2) {
        // bulges at the edges of the tolerances
        for q in pa.v.iter_mut() {
            if r.chance(0.4) {
                q[2] = r.sign() * r.pick(&[1e-5, 1e-8, 1.1e-8, 0.9e-8, 1e-16, 5e-324, 1.0, 1.0 - 1e-9, 1.0 - 1e-16]);
            }
        }
    }
    if r.chance(0.15) {
        let k = r.logrange(1e-12, 1e12);
        for q in pa.v.iter_mut() {
            q[0] *= k;
            q[1] *= k;
        }
    }
    if r.chance(0.1) {
        let (tx, ty) = (r.sign() * r.logrange(1.0, 1e12), r.sign() * r.logrange(1.0, 1e12));
        for q in pa.v.iter_mut() {
            q[0] += tx;
            q[1] += ty;
        }
    }
    if r.chance(0.05) {
        let k = r.sign() * r.logrange(1e-300, 1e140);
        for q in pa.v.iter_mut() {
            q[0] *= k;
            q[1] *= k;
        }
    }
    Path::new(pa.v, pa.closed)
}
const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];

/// one call of the library: not failing is the whole verdict
macro_rules! total {
    ($c:expr, $what:expr, $e:expr) => {{
        progress(&format!("{} of {}", $what, $c.inputs()));
        match catching(|| $e) {
            Ok(x) => {
                $c.ev("calls", 1);
                x
            }
            Err(m) => return fail("panic", format!("{} failed: {m}", $what)),
        }
    }};
}
fn grows(l: &PL, dist: f64) -> bool {
    let r = catching(|| l.parallel_offset(dist)).unwrap_or_default();
    r.iter().map(|x| x.vertex_count()).sum::<usize>() > 30 + 4 * l.vertex_count()
}
fn near(r: &mut Rng, pa: &Path) -> P {
    let b = pa.bbox();
    match r.below(4) {
        0 if !pa.v.is_empty() => pa.pos(r.below(pa.v.len())),
        1 if !pa.segs.is_empty() => {
            let s = &pa.segs[r.below(pa.segs.len())];
            s.at(r.f())
        }
        2 => p(r.range(-10.0, 10.0), r.range(-10.0, 10.0)),
        _ => p(b[0] + (b[2] - b[0]) * r.range(-0.2, 1.2), b[1] + (b[3] - b[1]) * r.range(-0.2, 1.2)),
    }
}
fn eps(r: &mut Rng) -> f64 {
    r.pick(&[1e-5, 1e-5, 1e-5, 1e-8, 1e-3, 0.1])
}
fn c25_queries(c: &mut Case) -> R {
    let pa = hostile(&mut c.rng);
    c.input(ptext(&pa));
    let l = to_pl(&pa.v, pa.closed);
    if pa.v.len() > 1 {
        c.nontrivial();
    }
    total!(c, "path_length", l.path_length());
    total!(c, "area", l.area());
    total!(c, "orientation", l.orientation());
    total!(c, "extents", l.extents());
    let ix = total!(c, "create_approx_aabb_index", l.create_approx_aabb_index());
    let ix2 = total!(c, "create_aabb_index", l.create_aabb_index());
    let b = pa.bbox();
    total!(c, "index query", (ix.query(b[0], b[1], b[2], b[3]).len(), ix2.query(b[0], b[1], b[2], b[3]).len()));
    for _ in 0..4 {
        let q = v2(near(&mut c.rng, &pa));
        let e = eps(&mut c.rng);
        total!(c, format!("winding_number {q:?}"), l.winding_number(q));
        if let Some(cp) = total!(c, format!("closest_point {q:?}"), l.closest_point(q, e)) {
            total!(c, format!("rotate_start {} {:?}", cp.seg_start_index, cp.seg_point), l.rotate_start(cp.seg_start_index, cp.seg_point, e));
        }
        let len = l.path_length();
        let t = match c.rng.below(6) {
            0 => 0.0,
            1 => -1.0,
            2 => len,
            3 => len * (1.0 + 1e-15),
            4 => len * 2.0 + 1.0,
            _ => len * c.rng.f(),
        };
        total!(c, format!("find_point_at_path_length {t:?}"), l.find_point_at_path_length(t));
    }
    for e in [1e-5, eps(&mut c.rng), 0.0] {
        total!(c, format!("remove_repeat_pos {e:?}"), l.remove_repeat_pos(e));
        total!(c, format!("remove_redundant {e:?}"), l.remove_redundant(e));
    }
    let d = pa.diag().max(1e-12);
    let e = d * c.rng.logrange(1e-4, 2.0);
    total!(c, format!("arcs_to_approx_lines {e:?}"), l.arcs_to_approx_lines(e));
    let mut m = l.clone();
    total!(c, "invert_direction_mut", m.invert_direction_mut());
    let k = c.rng.sign() * c.rng.logrange(1e-3, 1e3);
    total!(c, format!("scale_mut {k:?}"), m.scale_mut(k));
    total!(c, "translate_mut", m.translate_mut(k, -k));
    total!(c, "set_is_closed", m.set_is_closed(!pa.closed));
    total!(c, "extend_remove_repeat", m.extend_remove_repeat(&l, 1e-5));
    total!(c, "create_from_remove_repeat", Polyline::create_from_remove_repeat(&m, 1e-5));
    total!(c, "fuzzy_eq", m.fuzzy_eq(&l));
    total!(c, "iterators", (m.iter_segments().count(), m.iter_vertexes().rev().count(), m.iter_segment_indexes().count(), m.last()));
    struct Count(usize);
    impl PlineIntersectVisitor<f64, Control> for Count {
        fn visit_basic_intr(&mut self, _: PlineBasicIntersect<f64>) -> Control {
            self.0 += 1;
            Control::Continue
        }
        fn visit_overlapping_intr(&mut self, _: PlineOverlappingIntersect<f64>) -> Control {
            self.0 += 1;
            Control::Continue
        }
    }
    total!(c, "visit_self_intersects", {
        l.visit_self_intersects(&mut Count(0));
    });
    for inc in [SelfIntersectsInclude::All, SelfIntersectsInclude::Local, SelfIntersectsInclude::Global] {
        let o = PlineSelfIntersectOptions { aabb_index: Some(&ix), pos_equal_eps: eps(&mut c.rng), include: inc };
        let mut n = Count(0);
        total!(c, "visit_self_intersects_opt", {
            l.visit_self_intersects_opt(&mut n, &o);
        });
        c.ev("self_intersects", n.0 as u64);
    }
    // segments alone
    for i in 0..pa.v.len().saturating_sub(1).min(6) {
        let (a, b) = (l.at(i), l.at(i + 1));
        let q = v2(near(&mut c.rng, &pa));
        total!(c, format!("segment functions {a:?} {b:?}"), {
            if !a.bulge_is_zero() && !a.pos().fuzzy_eq(b.pos()) {
                seg_arc_radius_and_center(a, b);
            }
            (seg_closest_point(a, b, q, 1e-5), seg_fast_approx_bounding_box(a, b), seg_bounding_box(a, b), seg_length(a, b), seg_midpoint(a, b), seg_tangent_vector(a, b, q), seg_split_at_point(a, b, q, 1e-5))
        });
        for j in 0..pa.v.len().saturating_sub(1).min(6) {
            let (u, w) = (l.at(j), l.at(j + 1));
            total!(c, format!("pline_seg_intr {a:?} {b:?} {u:?} {w:?}"), pline_seg_intr(a, b, u, w, 1e-5));
        }
    }
    Ok(())
}
fn finite_out(c: &mut Case, what: &str, ins: &[&Path], r: &[PL]) -> R {
    // numbers of ordinary size in, finite numbers out
    let repeats = ins.iter().any(|pa| pa.segs.iter().any(|s| s.a().dist(s.b()) < 1e-4 + 1e-9 * pa.max_abs()));
    if ins.iter().all(|pa| pa.max_abs() < 1e100) && !repeats {
        for l in r {
            ensure!(finite(l), "not-finite", "{what} gives {}", text(&verts(l), l.is_closed()));
        }
    }
    let n: usize = r.iter().map(|l| l.vertex_count()).sum();
    c.ev("result_vertexes", n as u64);
    Ok(())
}
/// how often one loop comes back to the same place (the intersections of a curve that runs over
/// itself k times, and so the size of its offset, grow with a power of k)
fn visits(l: &PL) -> usize {
    let v = verts(l);
    if v.len() > 150 {
        return v.len();
    }
    let e = 1e-3 * Path::new(v.clone(), true).diag();
    v.iter().map(|a| v.iter().filter(|b| (a[0] - b[0]).hypot(a[1] - b[1]) <= e).count()).max().unwrap_or(0)
}
fn c25_offset(c: &mut Case) -> R {
    let mut pa = hostile(&mut c.rng);
    pa.v.truncate(48);
    let pa = Path::new(pa.v, pa.closed);
    c.input(ptext(&pa));
    let l = to_pl(&pa.v, pa.closed);
    if pa.v.len() > 1 {
        c.nontrivial();
    }
    let d = pa.diag().max(1e-9);
    for _ in 0..3 {
        let dist = match c.rng.below(8) {
            0 => 0.0,
            1 => c.rng.sign() * c.rng.logrange(1e-9, 1e-4),
            2 => c.rng.sign() * c.rng.int(1, 4) as f64 * 0.5,
            3 => c.rng.sign() * d * 10.0,
            // the radius of an arc, or half the distance of two vertexes
            4 if !pa.segs.is_empty() => {
                let s = &pa.segs[c.rng.below(pa.segs.len())];
                c.rng.sign() * if let Seg::A { r, .. } = s { *r } else { s.len() / 2.0 }
            }
            _ => c.rng.sign() * d * c.rng.logrange(1e-3, 0.7),
        };
        let handle = if pa.closed { c.rng.chance(0.4) } else { c.rng.chance(0.4) };
        let ix = l.create_approx_aabb_index();
        let mut o = PlineOffsetOptions { handle_self_intersects: handle, ..Default::default() };
        if c.rng.chance(0.3) {
            o.aabb_index = Some(&ix);
        }
        if c.rng.chance(0.1) {
            o.pos_equal_eps = eps(&mut c.rng);
        }
        let what = format!("parallel_offset {dist:?} self intersects {handle}");
        let r = total!(c, what, l.parallel_offset_opt(dist, &o));
        c.ev("offsets", 1);
        finite_out(c, &what, &[&pa], &r)?;
        // results are inputs again
        if c.rng.chance(0.3) {
            for q in r.iter().filter(|q| visits(q) <= 3).take(3) {
                let r2 = total!(c, format!("offset {dist:?} of a result of {what}"), q.parallel_offset(dist));
                c.ev("offsets", 1);
                c.ev("result_vertexes", r2.len() as u64);
            }
        }
    }
    Ok(())
}
fn c25_boolean(c: &mut Case) -> R {
    let a = hostile(&mut c.rng);
    let mut b = match c.rng.below(6) {
        0 => a.clone(),
        1 => Path::new(reverse(&a.v, a.closed), a.closed),
        2 => {
            let e = c.rng.logrange(1e-16, 1e-2);
            Path::new(a.v.iter().map(|q| [q[0] + e * c.rng.f(), q[1] + e * c.rng.f(), q[2]]).collect(), a.closed)
        }
        3 if a.v.len() > 2 => {
            // part of the same outline
            let k = c.rng.below(a.v.len());
            let mut v = rotate(&a.v, k);
            v.truncate(c.rng.int(2, a.v.len() as i64) as usize);
            Path::new(v, a.closed)
        }
        _ => hostile(&mut c.rng),
    };
    b.v.truncate(60);
    let b = Path::new(b.v, b.closed);
    c.input(format!("{} with {}", ptext(&a), ptext(&b)));
    let (pa, pb) = (to_pl(&a.v, a.closed), to_pl(&b.v, b.closed));
    if a.v.len() > 1 && b.v.len() > 1 {
        c.nontrivial();
    }
    let ix = pa.create_approx_aabb_index();
    let n = total!(c, "find_intersects", pa.find_intersects(&pb));
    c.ev("intersects", (n.basic_intersects.len() + n.overlapping_intersects.len()) as u64);
    let o = FindIntersectsOptions { pline1_aabb_index: Some(&ix), pos_equal_eps: eps(&mut c.rng) };
    total!(c, "find_intersects_opt", pa.find_intersects_opt(&pb, &o));
    for op in OPS {
        let what = format!("boolean {op:?}");
        let r = total!(c, what, pa.boolean(&pb, op));
        c.ev("booleans", 1);
        let all: Vec<PL> = r.pos_plines.into_iter().chain(r.neg_plines).map(|x| x.pline).collect();
        if !all.is_empty() {
            c.ev("boolean_results", 1);
        }
        finite_out(c, &what, &[&a, &b], &all)?;
    }
    Ok(())
}
fn c25_shape(c: &mut Case) -> R {
    let n = c.rng.int(0, 5) as usize;
    let ps: Vec<Path> = (0..n)
        .map(|_| {
            let mut h = hostile(&mut c.rng);
            h.v.truncate(24);
            Path::new(h.v, h.closed)
        })
        .collect();
    c.input(ps.iter().map(ptext).collect::<Vec<_>>().join(" + "));
    if n > 1 {
        c.nontrivial();
    }
    let d = ps.iter().map(|q| q.diag()).fold(1e-9, f64::max);
    let s = total!(c, "Shape::from_plines", Shape::from_plines(ps.iter().map(|q| to_pl(&q.v, q.closed))));
    for _ in 0..2 {
        let dist = c.rng.sign() * if c.rng.chance(0.3) { c.rng.int(0, 4) as f64 * 0.5 } else { d * c.rng.logrange(1e-3, 0.7) };
        let what = format!("shape offset {dist:?}");
        // (see `visits`: loops that run over themselves are offset alone, not against each other)
        let grown = ps.iter().any(|q| grows(&to_pl(&q.v, q.closed), dist));
        if grown {
            c.ev("shapes_grown", 1);
            continue;
        }
        let r = total!(c, what, s.parallel_offset(dist, ShapeOffsetOptions::default()));
        c.ev("shape_offsets", 1);
        let all: Vec<PL> = r.ccw_plines.iter().chain(&r.cw_plines).map(|x| x.polyline.clone()).collect();
        finite_out(c, &what, &ps.iter().collect::<Vec<_>>(), &all)?;
        // the intersections of a curve that runs over itself many times grow with the square of its vertexes
        if all.iter().any(|q| visits(q) > 3 || grows(q, dist)) {
            continue;
        }
        let r2 = total!(c, format!("{what} twice"), r.parallel_offset(dist, ShapeOffsetOptions::default()));
        c.ev("result_vertexes", r2.ccw_plines.len() as u64);
    }
    Ok(())
}
fn c25_views(c: &mut Case) -> R {
    let pa = hostile(&mut c.rng);
    c.input(ptext(&pa));
    let l = to_pl(&pa.v, pa.closed);
    if pa.v.len() < 2 {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    for _ in 0..4 {
        let len = l.path_length();
        let e = eps(&mut c.rng);
        let (mut s, mut t) = (c.rng.f(), c.rng.f());
        if !pa.closed && t < s {
            std::mem::swap(&mut s, &mut t);
        }
        let find = |f: f64| l.find_point_at_path_length(f * len);
        let (Ok((i, a)), Ok((j, b))) = (find(s), find(t)) else { continue };
        let what = format!("views from {i} {a:?} to {j} {b:?} eps {e:?}");
        let views = total!(c, what, {
            let mut o = vec![];
            o.extend(PlineViewData::from_slice_points(&l, a, i, b, j, e));
            o.extend(PlineViewData::from_new_start(&l, a, i, e));
            o.push(PlineViewData::from_entire_pline(&l));
            o.extend(PlineViewData::create_on_single_segment(&l, i, l.at(i), b, e));
            o
        });
        for d in views {
            total!(c, format!("{what}: use of {d:?}"), {
                let v = d.view(&l);
                let k = v.vertex_count();
                let _ = v.get(k);
                for q in 0..k {
                    v.at(q);
                }
                let own = Polyline::create_from(&v);
                (v.path_length(), v.area(), v.extents(), v.closest_point(a, e), own.vertex_count(), d.validate_for_source(&l), v.remove_repeat_pos(e), v.remove_redundant(e), v.iter_segments().count())
            });
            c.ev("views", 1);
        }
    }
    Ok(())
}

/// many vertexes: work has to stay near linear (budget of the runner: CPU time per case)
fn c25_large(c: &mut Case) -> R {
    let n = c.rng.logrange(300.0, if c.thorough { 20000.0 } else { 4000.0 }) as usize;
    let (rad, waves, amp) = (10.0, c.rng.int(3, 40) as f64, c.rng.range(0.02, 0.3));
    let style = c.rng.below(4);
    let jag = c.rng.range(0.0, 0.02);
    let v: Vec<[f64; 3]> = (0..n)
        .map(|k| {
            let t = k as f64 / n as f64 * std::f64::consts::TAU;
            let z = rad * (1.0 + amp * (waves * t).sin() + if style == 1 { jag * c.rng.f() } else { 0.0 });
            let q = polar(p(1.0, -2.0), z, t);
            let b = match style {
                2 => 0.1 * (7.0 * t).sin(),
                3 => c.rng.range(-0.3, 0.3),
                _ => 0.0,
            };
            [q.x, q.y, b]
        })
        .collect();
    let pa = Path::new(v, c.rng.chance(0.8));
    c.input(format!("{n} vertexes, {waves} waves of {amp}, style {style} {jag}, closed {}", pa.closed));
    c.nontrivial();
    let l = to_pl(&pa.v, pa.closed);
    let what = c.inputs().to_string();
    let ix = total!(c, what, l.create_approx_aabb_index());
    total!(c, what, l.create_aabb_index());
    total!(c, what, (l.area(), l.path_length(), l.orientation(), l.extents()));
    total!(c, what, (l.winding_number(v2(p(1.0, -2.0))), l.closest_point(v2(p(3.0, 4.0)), 1e-5), l.find_point_at_path_length(0.7 * l.path_length())));
    total!(c, what, (l.remove_repeat_pos(1e-5), l.remove_redundant(1e-5), l.arcs_to_approx_lines(1e-3)));
    let d = c.rng.sign() * c.rng.logrange(0.01, 3.0);
    let o = PlineOffsetOptions { aabb_index: c.rng.chance(0.5).then_some(&ix), handle_self_intersects: c.rng.chance(0.3), ..Default::default() };
    let r = total!(c, format!("{what}: offset {d:?}"), l.parallel_offset_opt(d, &o));
    c.ev("large_offset_vertexes", r.iter().map(|x| x.vertex_count() as u64).sum());
    if pa.closed {
        let mut m = l.clone();
        m.translate_mut(c.rng.range(-8.0, 8.0), c.rng.range(-8.0, 8.0));
        let k = total!(c, format!("{what}: intersections with a moved copy"), l.find_intersects(&m));
        c.ev("intersects", k.basic_intersects.len() as u64);
        for op in OPS {
            let r = total!(c, format!("{what}: {op:?} with a moved copy"), l.boolean(&m, op));
            c.ev("large_booleans", 1);
            c.ev("result_vertexes", r.pos_plines.iter().map(|x| x.pline.vertex_count() as u64).sum());
        }
        let s = total!(c, what, Shape::from_plines(vec![l.clone(), m]));
        total!(c, format!("{what}: shape offset {d:?}"), s.parallel_offset(d, ShapeOffsetOptions::default()));
    }
    Ok(())
}

// ---------------------------------------------------------------- table

fn main() -> ! {
    let cl = |name, quick, thorough, f| Class { name, quick, thorough, f };
    cavc_monitor::rep::main(vec![
        Property {
            id: "C24",
            rule: "round trips through JSON, CBOR and bincode of vectors, vertexes, polylines, view data and boolean results in both precisions, with truncated, damaged and malformed inputs; every case carries values",
            classes: vec![cl("f64", 6000, 600000, c24_f64 as fn(&mut Case) -> R), cl("f32", 6000, 600000, c24_f32), cl("boolean", 1200, 120000, c24_bool)],
            floors: vec![("round_trips", 100000), ("refusals", 100000), ("damaged_inputs", 20000), ("boolean_results", 500)],
            rates: vec![],
        },
        Property {
            id: "C25",
            rule: "every query, edit, offset, boolean, shape and view operation on hostile finite polylines (self crossing, repeated, almost coincident, tiny, huge); nontrivial: at least two vertexes",
            classes: vec![
                cl("queries", 32000, 2400000, c25_queries as fn(&mut Case) -> R),
                cl("offset", 32000, 2400000, c25_offset),
                cl("boolean", 48000, 3600000, c25_boolean),
                cl("shape", 12000, 900000, c25_shape),
                cl("views", 32000, 2400000, c25_views),
                cl("large", 60, 4000, c25_large),
            ],
            floors: vec![("calls", 200000), ("offsets", 10000), ("booleans", 20000), ("boolean_results", 4000), ("shape_offsets", 2000), ("views", 20000), ("self_intersects", 10000)],
            rates: vec![],
        },
    ])
}
