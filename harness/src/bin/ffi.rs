//! Monitors for the C interface: list model, memory accounting, failure containment.
use cavalier_contours::polyline::*;
use cavalier_contours::static_aabb2d_index::StaticAABB2DIndex;
use cavalier_contours_ffi::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::*;
use cavc_monitor::geom::*;
use cavc_monitor::guard;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;
use std::ptr;

#[cfg(not(raw_alloc))]
#[global_allocator]
static GUARD: guard::Guard = guard::Guard;

type Pl = *mut cavc_pline;
type Ix = *mut cavc_aabbindex;
const SENT: f64 = -7.25e300;
const SENT_P: usize = 0x5a5a_0;

#[derive(Clone, Debug)]
struct M {
    v: Vec<V>,
    closed: bool,
}
impl M {
    fn core(&self) -> PL {
        to_pl(&self.v, self.closed)
    }
    fn of(p: &PL) -> M {
        M { v: verts(p), closed: p.is_closed() }
    }
}
#[derive(Default)]
struct World {
    pl: Vec<(Pl, M)>,
    lists: Vec<(*mut cavc_plinelist, Vec<(Pl, M)>)>,
    ix: Vec<(Ix, M, bool)>,
    log: Vec<String>,
    calls: u64,
    panicked: bool,
}

/// one call of the C interface: return code, checked against "a failure inside is -1 and only that"
macro_rules! ffi {
    ($w:expr, $name:literal, $e:expr) => {{
        let before = panics();
        // SAFETY: arguments respect the documented requirements of the call
        let rc = guard::lib(|| unsafe { $e });
        $w.calls += 1;
        let started = panics() - before;
        if rc == -1 && started == 0 {
            return fail("code", format!("{} returned -1 although nothing failed inside", $name));
        }
        if started > 0 && rc != -1 {
            return fail("code", format!("{} returned {rc} although it failed inside: {}", $name, last_panic()));
        }
        $w.panicked = started > 0;
        rc
    }};
}
macro_rules! want {
    ($w:expr, $name:literal, $code:expr, $e:expr) => {{
        let rc = ffi!($w, $name, $e);
        let wanted: i32 = $code;
        ensure!(rc == wanted, "code", "{} returned {rc}, documented is {wanted}; history {}", $name, $w.log.join("; "));
    }};
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same_v(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (0..3).all(|k| same(x[k], y[k])))
}
fn cv(v: &V) -> cavc_vertex {
    cavc_vertex::new(v[0], v[1], v[2])
}
fn canary() -> cavc_vertex {
    cavc_vertex::new(SENT, SENT, SENT)
}

/// read everything the interface offers about a polyline and compare it with the model
fn observe(w: &mut World, p: Pl, m: &M, full: bool) -> R {
    let hist = |w: &World| w.log.join("; ");
    let mut n: u32 = 12345;
    want!(w, "get_vertex_count", 0, cavc_pline_get_vertex_count(p, &mut n));
    ensure!(n as usize == m.v.len(), "model", "vertex count {n}, model {}; history {}", m.v.len(), hist(w));
    let mut cl: u8 = 77;
    want!(w, "get_is_closed", 0, cavc_pline_get_is_closed(p, &mut cl));
    ensure!((cl != 0) == m.closed && cl <= 1, "model", "is closed {cl}, model {}; history {}", m.closed, hist(w));
    // exact size buffer on the heap, plus canaries behind it
    let extra = 2;
    let mut buf: Vec<cavc_vertex> = (0..m.v.len() + extra).map(|_| canary()).collect();
    want!(w, "get_vertex_data", 0, cavc_pline_get_vertex_data(p, buf.as_mut_ptr()));
    for (i, b) in buf.iter().enumerate() {
        let e = m.v.get(i).copied().unwrap_or([SENT, SENT, SENT]);
        ensure!(same(b.x, e[0]) && same(b.y, e[1]) && same(b.bulge, e[2]), "model", "vertex data {i} of {} is ({:?},{:?},{:?}), model {:?}; history {}", m.v.len(), b.x, b.y, b.bulge, e, hist(w));
    }
    if full {
        for i in 0..m.v.len() {
            let mut v = canary();
            want!(w, "get_vertex", 0, cavc_pline_get_vertex(p, i as u32, &mut v));
            ensure!(same(v.x, m.v[i][0]) && same(v.y, m.v[i][1]) && same(v.bulge, m.v[i][2]), "model", "get_vertex {i} gives {v:?}, model {:?}; history {}", m.v[i], hist(w));
        }
        for pos in [m.v.len() as u32, m.v.len() as u32 + 1, u32::MAX, 1 << 31] {
            let mut v = canary();
            want!(w, "get_vertex", 2, cavc_pline_get_vertex(p, pos, &mut v));
            ensure!(v.x == SENT && v.y == SENT && v.bulge == SENT, "output", "refused get_vertex wrote its output; history {}", hist(w));
        }
    }
    Ok(())
}
fn observe_list(w: &mut World, l: *mut cavc_plinelist, items: &[(Pl, M)]) -> R {
    let mut n = 4444u32;
    want!(w, "plinelist_get_count", 0, cavc_plinelist_get_count(l, &mut n));
    ensure!(n as usize == items.len(), "model", "list has {n} polylines, model {}; history {}", items.len(), w.log.join("; "));
    for (i, (q, m)) in items.iter().enumerate() {
        let mut p: *const cavc_pline = SENT_P as *const _;
        want!(w, "plinelist_get_pline", 0, cavc_plinelist_get_pline(l, i as u32, &mut p));
        ensure!(ptr::eq(p, *q), "model", "list position {i} holds another polyline than before; history {}", w.log.join("; "));
        observe(w, *q, m, false)?;
    }
    for pos in [items.len() as u32, items.len() as u32 + 3, u32::MAX] {
        let mut p: *const cavc_pline = SENT_P as *const _;
        want!(w, "plinelist_get_pline", 2, cavc_plinelist_get_pline(l, pos, &mut p));
        ensure!(p as usize == SENT_P, "output", "refused plinelist_get_pline wrote its output");
        let mut p: *const cavc_pline = SENT_P as *const _;
        want!(w, "plinelist_take", 2, cavc_plinelist_take(l, pos, &mut p));
        ensure!(p as usize == SENT_P, "output", "refused plinelist_take wrote its output");
    }
    if items.is_empty() {
        let mut p: *const cavc_pline = SENT_P as *const _;
        want!(w, "plinelist_pop", 2, cavc_plinelist_pop(l, &mut p));
        ensure!(p as usize == SENT_P, "output", "refused plinelist_pop wrote its output");
    }
    Ok(())
}
/// polylines of a new list, in order, compared with what the library returned
fn adopt(w: &mut World, l: *const cavc_plinelist, want_items: Vec<M>, what: &str) -> R {
    ensure!(l as usize != SENT_P && !l.is_null(), "output", "{what}: no list was written");
    let l = l as *mut cavc_plinelist;
    let mut n = 4444u32;
    want!(w, "plinelist_get_count", 0, cavc_plinelist_get_count(l, &mut n));
    ensure!(n as usize == want_items.len(), "differs", "{what}: list of {n}, library returns {}; history {}", want_items.len(), w.log.join("; "));
    let mut items = vec![];
    for (i, m) in want_items.into_iter().enumerate() {
        let mut p: *const cavc_pline = ptr::null();
        want!(w, "plinelist_get_pline", 0, cavc_plinelist_get_pline(l, i as u32, &mut p));
        let mut vc = 0u32;
        let mut cl = 9u8;
        want!(w, "get_vertex_count", 0, cavc_pline_get_vertex_count(p, &mut vc));
        want!(w, "get_is_closed", 0, cavc_pline_get_is_closed(p, &mut cl));
        let mut buf = vec![canary(); vc as usize];
        want!(w, "get_vertex_data", 0, cavc_pline_get_vertex_data(p, buf.as_mut_ptr()));
        let got: Vec<V> = buf.iter().map(|b| [b.x, b.y, b.bulge]).collect();
        ensure!(same_v(&got, &m.v) && (cl != 0) == m.closed, "differs", "{what}: polyline {i} is {}, library returns {}; history {}", text(&got, cl != 0), text(&m.v, m.closed), w.log.join("; "));
        items.push((p as Pl, m));
    }
    w.lists.push((l, items));
    Ok(())
}

fn small_pl(r: &mut Rng) -> M {
    match r.below(10) {
        0 => M { v: vec![], closed: r.chance(0.5) },
        1 => M { v: vec![[r.range(-5.0, 5.0), r.range(-5.0, 5.0), 0.0]], closed: r.chance(0.5) },
        2..=4 => {
            let q = wild(r);
            M { v: q.v, closed: q.closed }
        }
        5 | 6 => {
            let q = closed(r, Style::Grid, 1e-3);
            M { v: q.v, closed: true }
        }
        7 => {
            let q = open(r, Style::General, true, 1e-3);
            M { v: q.v, closed: false }
        }
        _ => {
            let q = closed(r, Style::General, 1e-3);
            M { v: q.v, closed: true }
        }
    }
}
fn create(w: &mut World, m: M, r: &mut Rng) -> R {
    let data: Vec<cavc_vertex> = m.v.iter().map(cv).collect();
    let flag: u8 = if m.closed { r.pick(&[1, 1, 2, 255]) } else { 0 };
    let mut out: *const cavc_pline = SENT_P as *const _;
    let src = if m.v.is_empty() && r.chance(0.5) { ptr::null() } else { data.as_ptr() };
    w.log.push(format!("create({})", text(&m.v, m.closed)));
    want!(w, "pline_create", 0, cavc_pline_create(src, data.len() as u32, flag, &mut out));
    ensure!(out as usize != SENT_P && !out.is_null(), "output", "pline_create wrote no object");
    w.pl.push((out as Pl, m));
    Ok(())
}
fn num(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => r.int(-4, 4) as f64,
        1 => -0.0,
        2 => r.logrange(1e-9, 1e9) * r.sign(),
        _ => r.range(-5.0, 5.0),
    }
}

struct Opt {
    hostile: bool,
    len: usize,
}

fn history(c: &mut Case, o: &Opt) -> R {
    let mut r = c.rng.clone();
    let mut w = World::default();
    let res = run(c, &mut r, &mut w, o);
    c.input(w.log.join("; "));
    c.nontrivial();
    // everything handed out is freed with the matching call, whatever happened before
    if res.is_ok() {
        teardown(&mut r, &mut w)?;
    }
    c.ev("c_calls", w.calls);
    c.ev("histories", 1);
    res
}

fn teardown(r: &mut Rng, w: &mut World) -> R {
    let mut order: Vec<usize> = (0..3).collect();
    r.shuffle(&mut order);
    let mut pl = std::mem::take(&mut w.pl);
    r.shuffle(&mut pl);
    for k in order {
        match k {
            0 => {
                for (p, m) in pl.iter() {
                    observe(w, *p, m, false)?;
                    w.calls += 1;
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_pline_f(*p) });
                }
            }
            1 => {
                for (l, items) in std::mem::take(&mut w.lists) {
                    observe_list(w, l, &items)?;
                    w.calls += 1;
                    // SAFETY: freed once, with the polylines it owns
                    guard::lib(|| unsafe { cavc_plinelist_f(l) });
                }
            }
            _ => {
                for (x, _, _) in std::mem::take(&mut w.ix) {
                    w.calls += 1;
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_aabbindex_f(x) });
                }
            }
        }
    }
    Ok(())
}

fn index_of(m: &M, approx: bool) -> Result<StaticAABB2DIndex<f64>, String> {
    catching(|| if approx { m.core().create_approx_aabb_index() } else { m.core().create_aabb_index() })
}

fn run(c: &mut Case, r: &mut Rng, w: &mut World, o: &Opt) -> R {
    let steps = r.int(5, o.len as i64) as usize;
    let m = small_pl(r);
    create(w, m, r)?;
    for _ in 0..steps {
        let op = r.below(30);
        if w.pl.is_empty() {
            let m = small_pl(r);
            create(w, m, r)?;
        }
        let k = r.below(w.pl.len());
        let (p, mut m) = (w.pl[k].0, w.pl[k].1.clone());
        let n = m.v.len();
        match op {
            0 => {
                if w.pl.len() < 6 {
                    let m = small_pl(r);
                    create(w, m, r)?;
                }
            }
            1 => {
                let mut out: *const cavc_pline = SENT_P as *const _;
                w.log.push(format!("clone #{k}"));
                want!(w, "pline_clone", 0, cavc_pline_clone(p, &mut out));
                ensure!(out as usize != SENT_P && !ptr::eq(out, p), "output", "clone wrote no new object");
                w.pl.push((out as Pl, m.clone()));
                c.ev("clones", 1);
            }
            2 | 3 => {
                let v = [num(r), num(r), if r.chance(0.5) { 0.0 } else { r.range(-1.0, 1.0) }];
                w.log.push(format!("add #{k} {v:?}"));
                want!(w, "pline_add", 0, cavc_pline_add(p, v[0], v[1], v[2]));
                m.v.push(v);
            }
            4 => {
                let v = [num(r), num(r), r.range(-1.0, 1.0)];
                let pos = if r.chance(0.7) && n > 0 { r.below(n) as u32 } else { r.pick(&[n as u32, n as u32 + 1, u32::MAX, 1 << 31]) };
                w.log.push(format!("set #{k} at {pos} {v:?}"));
                let code = if (pos as usize) < n { 0 } else { 2 };
                want!(w, "pline_set_vertex", code, cavc_pline_set_vertex(p, pos, cv(&v)));
                if code == 0 {
                    m.v[pos as usize] = v;
                } else {
                    c.ev("refused", 1);
                }
            }
            5 => {
                let pos = if r.chance(0.7) && n > 0 { r.below(n) as u32 } else { r.pick(&[n as u32, n as u32 + 1, u32::MAX, 1 << 31]) };
                w.log.push(format!("remove #{k} at {pos}"));
                let code = if (pos as usize) < n { 0 } else { 2 };
                want!(w, "pline_remove", code, cavc_pline_remove(p, pos));
                if code == 0 {
                    m.v.remove(pos as usize);
                } else {
                    c.ev("refused", 1);
                }
            }
            6 => {
                if r.chance(0.3) {
                    w.log.push(format!("clear #{k}"));
                    want!(w, "pline_clear", 0, cavc_pline_clear(p));
                    m.v.clear();
                }
            }
            7 => {
                let f = r.pick(&[0u8, 1, 2, 255]);
                w.log.push(format!("set_is_closed #{k} {f}"));
                want!(w, "pline_set_is_closed", 0, cavc_pline_set_is_closed(p, f));
                m.closed = f != 0;
            }
            8 => {
                let q = small_pl(r);
                let data: Vec<cavc_vertex> = q.v.iter().map(cv).collect();
                let src = if data.is_empty() && r.chance(0.5) { ptr::null() } else { data.as_ptr() };
                w.log.push(format!("set_vertex_data #{k} {}", text(&q.v, false)));
                want!(w, "pline_set_vertex_data", 0, cavc_pline_set_vertex_data(p, src, data.len() as u32));
                m.v = q.v;
            }
            9 => {
                let add = r.int(0, 40) as u32;
                w.log.push(format!("reserve #{k} {add}"));
                want!(w, "pline_reserve", 0, cavc_pline_reserve(p, add));
                observe(w, p, &m, false)?;
                // reserved space: adding that many vertexes allocates nothing
                let before = guard::allocs();
                for _ in 0..add {
                    let v = [num(r), num(r), 0.0];
                    want!(w, "pline_add", 0, cavc_pline_add(p, v[0], v[1], v[2]));
                    m.v.push(v);
                }
                let got = guard::allocs() - before;
                ensure!(got == 0, "reserve", "adding {add} vertexes after reserving space for them allocated {got} times");
                c.ev("reserved_adds", add as u64);
                w.log.push(format!("add x{add}"));
            }
            10 => {
                w.log.push(format!("invert #{k}"));
                want!(w, "pline_invert_direction", 0, cavc_pline_invert_direction(p));
                let mut q = m.core();
                q.invert_direction_mut();
                m = M::of(&q);
            }
            11 => {
                let g = 1.0 + r.f();
                let f = if r.chance(0.1) { 0.0 } else { r.pick(&[2.0, 0.5, -1.0, g, -0.3]) };
                w.log.push(format!("scale #{k} {f:?}"));
                want!(w, "pline_scale", 0, cavc_pline_scale(p, f));
                let mut q = m.core();
                q.scale_mut(f);
                m = M::of(&q);
            }
            12 => {
                let (x, y) = (num(r), num(r));
                w.log.push(format!("translate #{k} {x:?} {y:?}"));
                want!(w, "pline_translate", 0, cavc_pline_translate(p, x, y));
                let mut q = m.core();
                q.translate_mut(x, y);
                m = M::of(&q);
            }
            13 | 14 => {
                let eps = r.pick(&[1e-5, 1e-8, 0.5, 2.0, 1e-3]);
                let q = m.core();
                let e = catching(|| if op == 13 { q.remove_repeat_pos(eps) } else { q.remove_redundant(eps) });
                w.log.push(format!("{} #{k} {eps:?}", if op == 13 { "remove_repeat_pos" } else { "remove_redundant" }));
                let code = if e.is_ok() { 0 } else { -1 };
                if op == 13 {
                    want!(w, "remove_repeat_pos", code, cavc_pline_remove_repeat_pos(p, eps));
                } else {
                    want!(w, "remove_redundant", code, cavc_pline_remove_redundant(p, eps));
                }
                if let Ok(Some(q)) = e {
                    m = M::of(&q);
                    c.ev("simplified", 1);
                }
            }
            15 => {
                let q = m.core();
                let mut d = SENT;
                want!(w, "eval_path_length", 0, cavc_pline_eval_path_length(p, &mut d));
                ensure!(same(d, q.path_length()), "differs", "path length {d:?}, library {:?} for {}", q.path_length(), text(&m.v, m.closed));
                let mut d = SENT;
                want!(w, "eval_area", 0, cavc_pline_eval_area(p, &mut d));
                ensure!(same(d, q.area()), "differs", "area {d:?}, library {:?} for {}", q.area(), text(&m.v, m.closed));
                let at = [num(r), num(r)];
                let mut i = -9999i32;
                want!(w, "eval_wn", 0, cavc_pline_eval_wn(p, at[0], at[1], &mut i));
                let e = q.winding_number(v2(P { x: at[0], y: at[1] }));
                ensure!(i == e, "differs", "winding number {i}, library {e} at {at:?} of {}", text(&m.v, m.closed));
                c.ev("measures", 1);
                if e != 0 {
                    c.ev("measures_inside", 1);
                }
            }
            16 => {
                let q = m.core();
                let mut b = [SENT; 4];
                let [b0, b1, b2, b3] = &mut b;
                match q.extents() {
                    Some(e) => {
                        want!(w, "eval_extents", 0, cavc_pline_eval_extents(p, b0, b1, b2, b3));
                        ensure!(same(b[0], e.min_x) && same(b[1], e.min_y) && same(b[2], e.max_x) && same(b[3], e.max_y), "differs", "extents {b:?}, library {e:?} for {}", text(&m.v, m.closed));
                    }
                    None => {
                        ensure!(n < 2, "differs", "no extents for {n} vertexes");
                        want!(w, "eval_extents", 2, cavc_pline_eval_extents(p, b0, b1, b2, b3));
                        ensure!(b == [SENT; 4], "output", "refused eval_extents wrote {b:?}");
                        c.ev("refused", 1);
                    }
                }
            }
            17 | 18 => {
                if w.ix.len() > 4 {
                    let (x, _, _) = w.ix.swap_remove(0);
                    w.log.push("index_f".into());
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_aabbindex_f(x) });
                }
                let approx = op == 17;
                let e = index_of(&m, approx);
                let mut x: *const cavc_aabbindex = SENT_P as *const _;
                w.log.push(format!("index #{k} approx {approx}"));
                let code = if e.is_ok() { 0 } else { -1 };
                if approx {
                    want!(w, "create_approx_aabbindex", code, cavc_pline_create_approx_aabbindex(p, &mut x));
                } else {
                    want!(w, "create_aabbindex", code, cavc_pline_create_aabbindex(p, &mut x));
                }
                let Ok(e) = e else {
                    ensure!(x as usize == SENT_P, "output", "failed create_aabbindex wrote its output");
                    continue;
                };
                ensure!(x as usize != SENT_P && !x.is_null(), "output", "no index was written");
                let mut b = [SENT; 4];
                let [b0, b1, b2, b3] = &mut b;
                want!(w, "aabbindex_get_extents", 0, cavc_aabbindex_get_extents(x, b0, b1, b2, b3));
                match e.bounds() {
                    Some(e) => ensure!(same(b[0], e.min_x) && same(b[1], e.min_y) && same(b[2], e.max_x) && same(b[3], e.max_y), "differs", "index extents {b:?}, library {e:?} for {}", text(&m.v, m.closed)),
                    None => ensure!(b.iter().all(|x| x.is_nan()), "differs", "extents of an empty index are {b:?}, documented NaN"),
                }
                c.ev(if e.bounds().is_some() { "indexes" } else { "empty_indexes" }, 1);
                // what the index answers
                for _ in 0..2 {
                    let (x0, y0) = (r.range(-6.0, 6.0), r.range(-6.0, 6.0));
                    let (x1, y1) = (x0 + r.range(0.0, 6.0), y0 + r.range(0.0, 6.0));
                    // SAFETY: just created
                    let mut a = unsafe { (*x).0.query(x0, y0, x1, y1) };
                    let mut b = e.query(x0, y0, x1, y1);
                    a.sort_unstable();
                    b.sort_unstable();
                    ensure!(a == b, "differs", "index query {a:?}, library {b:?} for {}", text(&m.v, m.closed));
                }
                w.ix.push((x as Ix, m.clone(), approx));
            }
            19..=21 => {
                if w.lists.len() > 4 {
                    let (l, items) = w.lists.swap_remove(0);
                    observe_list(w, l, &items)?;
                    w.log.push("plinelist_f".into());
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_plinelist_f(l) });
                }
                if n > 40 {
                    continue;
                }
                offset_call(c, r, w, p, &m, o)?;
            }
            22..=24 => {
                if w.lists.len() > 4 {
                    let (l, _) = w.lists.swap_remove(0);
                    w.log.push("plinelist_f".into());
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_plinelist_f(l) });
                }
                if w.pl.len() < 2 {
                    let m = small_pl(r);
                    create(w, m, r)?;
                }
                let k2 = r.below(w.pl.len());
                if n > 40 || w.pl[k2].1.v.len() > 40 {
                    continue;
                }
                boolean_call(c, r, w, k, k2, o)?;
            }
            25 | 26 => {
                if !w.lists.is_empty() {
                    let j = r.below(w.lists.len());
                    let (l, mut items) = (w.lists[j].0, w.lists[j].1.clone());
                    if items.is_empty() {
                        observe_list(w, l, &items)?;
                        c.ev("refused", 1);
                    } else {
                        let mut out: *const cavc_pline = SENT_P as *const _;
                        let got = if r.chance(0.5) {
                            w.log.push(format!("pop list {j}"));
                            want!(w, "plinelist_pop", 0, cavc_plinelist_pop(l, &mut out));
                            items.pop().unwrap()
                        } else {
                            let i = r.below(items.len());
                            w.log.push(format!("take {i} of list {j}"));
                            want!(w, "plinelist_take", 0, cavc_plinelist_take(l, i as u32, &mut out));
                            items.remove(i)
                        };
                        ensure!(ptr::eq(out, got.0), "model", "released another polyline than the one at the position; history {}", w.log.join("; "));
                        w.pl.push(got);
                        observe_list(w, l, &items)?;
                        w.lists[j].1 = items;
                        c.ev("released", 1);
                    }
                }
            }
            27 => {
                // edit a polyline that is still owned by its list
                if let Some(j) = (0..w.lists.len()).find(|&j| !w.lists[j].1.is_empty()) {
                    let i = r.below(w.lists[j].1.len());
                    let q = w.lists[j].1[i].0;
                    let v = [num(r), num(r), 0.0];
                    w.log.push(format!("add to {i} of list {j} {v:?}"));
                    want!(w, "pline_add", 0, cavc_pline_add(q, v[0], v[1], v[2]));
                    w.lists[j].1[i].1.v.push(v);
                    let (l, items) = (w.lists[j].0, w.lists[j].1.clone());
                    observe_list(w, l, &items)?;
                }
            }
            28 => {
                if w.pl.len() > 1 {
                    w.log.push(format!("free #{k}"));
                    observe(w, p, &m, true)?;
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_pline_f(p) });
                    w.pl.remove(k);
                    continue;
                }
            }
            _ => {
                // freeing nothing, default options
                // SAFETY: null is documented to be accepted
                guard::lib(|| unsafe {
                    cavc_pline_f(ptr::null_mut());
                    cavc_plinelist_f(ptr::null_mut());
                    cavc_aabbindex_f(ptr::null_mut());
                });
                let mut po = std::mem::MaybeUninit::<cavc_pline_parallel_offset_o>::uninit();
                want!(w, "parallel_offset_o_init", 0, cavc_pline_parallel_offset_o_init(po.as_mut_ptr()));
                // SAFETY: written by the call
                let po = unsafe { po.assume_init() };
                let d = PlineOffsetOptions::<f64>::default();
                ensure!(
                    po.aabb_index.is_null() && same(po.pos_equal_eps, d.pos_equal_eps) && same(po.slice_join_eps, d.slice_join_eps) && same(po.offset_dist_eps, d.offset_dist_eps) && (po.handle_self_intersects != 0) == d.handle_self_intersects,
                    "differs",
                    "default offset options {po:?}"
                );
                let mut bo = std::mem::MaybeUninit::<cavc_pline_boolean_o>::uninit();
                want!(w, "boolean_o_init", 0, cavc_pline_boolean_o_init(bo.as_mut_ptr()));
                // SAFETY: written by the call
                let bo = unsafe { bo.assume_init() };
                let d = PlineBooleanOptions::<f64>::default();
                ensure!(bo.pline1_aabb_index.is_null() && same(bo.pos_equal_eps, d.pos_equal_eps), "differs", "default boolean options {bo:?}");
                c.ev("defaults", 1);
            }
        }
        if let Some(e) = w.pl.get_mut(k) {
            e.1 = m.clone();
            observe(w, p, &m, r.chance(0.3))?;
            c.ev("observed_states", 1);
        }
        if r.chance(0.1) {
            for i in 0..w.pl.len() {
                let (p, m) = w.pl[i].clone();
                observe(w, p, &m, true)?;
            }
            for i in 0..w.lists.len() {
                let (l, items) = w.lists[i].clone();
                observe_list(w, l, &items)?;
            }
        }
    }
    Ok(())
}

fn eps_of(r: &mut Rng) -> f64 {
    r.pick(&[1e-5, 1e-4, 1e-8, 1e-2, 0.3])
}

fn offset_call(c: &mut Case, r: &mut Rng, w: &mut World, p: Pl, m: &M, o: &Opt) -> R {
    let d = r.sign() * r.pick(&[0.05, 0.3, 0.7, 1.3, 0.0, 4.0]);
    let q = m.core();
    let mut out: *const cavc_plinelist = SENT_P as *const _;
    let kind = r.below(4);
    // index: none, own, or (hostile) the index of another polyline
    let own = w.ix.iter().position(|(_, mm, _)| same_v(&mm.v, &m.v) && mm.closed == m.closed);
    let ix = if kind >= 2 { own } else { None };
    let ix = if o.hostile && ix.is_none() && !w.ix.is_empty() && r.chance(0.7) { Some(r.below(w.ix.len())) } else { ix };
    let po = cavc_pline_parallel_offset_o {
        aabb_index: ix.map(|i| w.ix[i].0 as *const _).unwrap_or(ptr::null()),
        pos_equal_eps: if kind == 1 { eps_of(r) } else { 1e-5 },
        slice_join_eps: if kind == 1 { eps_of(r) } else { 1e-4 },
        offset_dist_eps: if kind == 1 { eps_of(r) } else { 1e-4 },
        handle_self_intersects: r.pick(&[0, 1, 1, 2, 255]),
    };
    w.log.push(format!("offset {} by {d:?} {}", text(&m.v, m.closed), if kind == 0 { "default".into() } else { format!("index {:?} eps {:?} {:?} {:?} self {}", ix, po.pos_equal_eps, po.slice_join_eps, po.offset_dist_eps, po.handle_self_intersects) }));
    progress(&w.log.join("; "));
    let e = if kind == 0 {
        catching(|| q.parallel_offset(d))
    } else {
        let cix = match ix {
            Some(i) => index_of(&w.ix[i].1, w.ix[i].2).ok(),
            None => None,
        };
        let opts = PlineOffsetOptions {
            aabb_index: cix.as_ref(),
            pos_equal_eps: po.pos_equal_eps,
            slice_join_eps: po.slice_join_eps,
            offset_dist_eps: po.offset_dist_eps,
            handle_self_intersects: po.handle_self_intersects != 0,
        };
        let e = catching(|| q.parallel_offset_opt(d, &opts));
        // does this call depend on its options?
        if let Ok(e) = &e {
            let plain = catching(|| q.parallel_offset(d));
            if !matches!(&plain, Ok(x) if x.len() == e.len() && x.iter().zip(e).all(|(a, b)| same_v(&verts(a), &verts(b)))) {
                c.ev("options_matter", 1);
            }
        }
        e
    };
    let rc = ffi!(w, "parallel_offset", cavc_pline_parallel_offset(p, d, if kind == 0 { ptr::null() } else { &po }, &mut out));
    match e {
        Ok(e) => {
            ensure!(rc == 0, "code", "parallel_offset returned {rc}, the library succeeds; {}", w.log.last().unwrap());
            c.ev("offsets", 1);
            if !e.is_empty() {
                c.ev("offset_results", e.len() as u64);
            }
            adopt(w, out, e.iter().map(M::of).collect(), "parallel_offset")?;
        }
        Err(x) => {
            ensure!(rc == -1, "code", "parallel_offset returned {rc}, the library fails with {x}");
            ensure!(out as usize == SENT_P, "output", "failed parallel_offset wrote its output");
            c.ev("contained_failures", 1);
        }
    }
    Ok(())
}

fn boolean_call(c: &mut Case, r: &mut Rng, w: &mut World, k: usize, k2: usize, o: &Opt) -> R {
    let (p1, m1) = w.pl[k].clone();
    let (p2, m2) = w.pl[k2].clone();
    let op = if r.chance(0.12) { r.pick(&[4u32, 5, 100, u32::MAX]) } else { r.below(4) as u32 };
    let cop = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];
    let kind = r.below(3);
    let own = w.ix.iter().position(|(_, mm, _)| same_v(&mm.v, &m1.v) && mm.closed == m1.closed);
    let ix = if kind == 2 { own } else { None };
    let ix = if o.hostile && ix.is_none() && !w.ix.is_empty() && r.chance(0.7) { Some(r.below(w.ix.len())) } else { ix };
    let bo = cavc_pline_boolean_o { pline1_aabb_index: ix.map(|i| w.ix[i].0 as *const _).unwrap_or(ptr::null()), pos_equal_eps: if kind == 1 { eps_of(r) } else { 1e-5 } };
    let mut pos: *const cavc_plinelist = SENT_P as *const _;
    let mut neg: *const cavc_plinelist = SENT_P as *const _;
    w.log.push(format!("boolean {} {op} {} kind {kind} index {ix:?} eps {:?}", text(&m1.v, m1.closed), text(&m2.v, m2.closed), bo.pos_equal_eps));
    progress(&w.log.join("; "));
    let opts: *const cavc_pline_boolean_o = if kind == 0 { ptr::null() } else { &bo };
    let rc = ffi!(w, "boolean", cavc_pline_boolean(p1, p2, op, opts, &mut pos, &mut neg));
    if op > 3 {
        ensure!(rc == 2, "code", "boolean with operation {op} returned {rc}, documented 2");
        ensure!(pos as usize == SENT_P && neg as usize == SENT_P, "output", "refused boolean wrote its outputs");
        c.ev("refused", 1);
        return Ok(());
    }
    let (a, b) = (m1.core(), m2.core());
    let e = if kind == 0 {
        catching(|| a.boolean(&b, cop[op as usize]))
    } else {
        let cix = ix.and_then(|i| index_of(&w.ix[i].1, w.ix[i].2).ok());
        let opts = PlineBooleanOptions { pline1_aabb_index: cix.as_ref(), pos_equal_eps: bo.pos_equal_eps };
        catching(|| a.boolean_opt(&b, cop[op as usize], &opts))
    };
    match e {
        Ok(e) => {
            ensure!(rc == 0, "code", "boolean returned {rc}, the library succeeds; {}", w.log.last().unwrap());
            c.ev("booleans", 1);
            c.ev("boolean_results", (e.pos_plines.len() + e.neg_plines.len()) as u64);
            if !e.neg_plines.is_empty() {
                c.ev("boolean_holes", 1);
            }
            adopt(w, pos, e.pos_plines.iter().map(|x| M::of(&x.pline)).collect(), "boolean positive")?;
            adopt(w, neg, e.neg_plines.iter().map(|x| M::of(&x.pline)).collect(), "boolean negative")?;
        }
        Err(x) => {
            ensure!(rc == -1, "code", "boolean returned {rc}, the library fails with {x}");
            ensure!(pos as usize == SENT_P && neg as usize == SENT_P, "output", "failed boolean wrote its outputs");
            c.ev("contained_failures", 1);
        }
    }
    Ok(())
}

fn c21(c: &mut Case) -> R {
    let len = if c.thorough { 80 } else { 40 };
    history(c, &Opt { hostile: false, len })
}

// ---------------------------------------------------------------------------- C22
fn c22(c: &mut Case) -> R {
    let len = if c.thorough { 100 } else { 50 };
    let _ = guard::take_error();
    let before = guard::owned();
    let blocks0 = guard::freed();
    history(c, &Opt { hostile: false, len })?;
    let left = guard::owned() - before;
    guard::flush();
    let e = guard::take_error();
    ensure!(e.is_none(), "memory", "{}", e.unwrap());
    #[cfg(not(raw_alloc))]
    ensure!(left == 0, "leak", "{left} blocks are still allocated after everything handed out was freed");
    let _ = left;
    c.ev("blocks_checked", guard::freed() - blocks0);
    c.ev("histories_balanced", 1);
    Ok(())
}

// ---------------------------------------------------------------------------- C23
/// every call with null where null is documented to be refused
fn nulls(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut w = World::default();
    let m = small_pl(&mut r);
    create(&mut w, m.clone(), &mut r)?;
    let p = w.pl[0].0;
    c.input(text(&m.v, m.closed));
    c.nontrivial();
    let (np, nl, ni): (Pl, *mut cavc_plinelist, Ix) = (ptr::null_mut(), ptr::null_mut(), ptr::null_mut());
    let mut d = [SENT; 4];
    let (mut u, mut i, mut b) = (4321u32, -4321i32, 211u8);
    let mut v = canary();
    let mut op: *const cavc_pline = SENT_P as *const _;
    let mut ol: *const cavc_plinelist = SENT_P as *const _;
    let mut ol2: *const cavc_plinelist = SENT_P as *const _;
    let mut oi: *const cavc_aabbindex = SENT_P as *const _;
    {
        let [d0, d1, d2, d3] = &mut d;
        let w = &mut w;
        want!(w, "parallel_offset_o_init", 1, cavc_pline_parallel_offset_o_init(ptr::null_mut()));
        want!(w, "boolean_o_init", 1, cavc_pline_boolean_o_init(ptr::null_mut()));
        want!(w, "reserve", 1, cavc_pline_reserve(np, 10));
        want!(w, "clone", 1, cavc_pline_clone(np, &mut op));
        want!(w, "get_is_closed", 1, cavc_pline_get_is_closed(np, &mut b));
        want!(w, "set_is_closed", 1, cavc_pline_set_is_closed(np, 1));
        want!(w, "get_vertex_count", 1, cavc_pline_get_vertex_count(np, &mut u));
        want!(w, "get_vertex_data", 1, cavc_pline_get_vertex_data(np, &mut v));
        want!(w, "set_vertex_data", 1, cavc_pline_set_vertex_data(np, &v, 1));
        want!(w, "clear", 1, cavc_pline_clear(np));
        want!(w, "add", 1, cavc_pline_add(np, 1.0, 2.0, 0.0));
        want!(w, "get_vertex", 1, cavc_pline_get_vertex(np, 0, &mut v));
        want!(w, "set_vertex", 1, cavc_pline_set_vertex(np, 0, v));
        want!(w, "remove", 1, cavc_pline_remove(np, 0));
        want!(w, "eval_path_length", 1, cavc_pline_eval_path_length(np, d0));
        want!(w, "eval_area", 1, cavc_pline_eval_area(np, d0));
        want!(w, "eval_wn", 1, cavc_pline_eval_wn(np, 0.0, 0.0, &mut i));
        want!(w, "invert_direction", 1, cavc_pline_invert_direction(np));
        want!(w, "scale", 1, cavc_pline_scale(np, 2.0));
        want!(w, "translate", 1, cavc_pline_translate(np, 2.0, 1.0));
        want!(w, "remove_repeat_pos", 1, cavc_pline_remove_repeat_pos(np, 1e-5));
        want!(w, "remove_redundant", 1, cavc_pline_remove_redundant(np, 1e-5));
        want!(w, "eval_extents", 1, cavc_pline_eval_extents(np, d0, d1, d2, d3));
        want!(w, "parallel_offset", 1, cavc_pline_parallel_offset(np, 1.0, ptr::null(), &mut ol));
        for op in 0..6 {
            want!(w, "boolean", 1, cavc_pline_boolean(np, p, op, ptr::null(), &mut ol, &mut ol2));
            want!(w, "boolean", 1, cavc_pline_boolean(p, np, op, ptr::null(), &mut ol, &mut ol2));
            want!(w, "boolean", 1, cavc_pline_boolean(np, np, op, ptr::null(), &mut ol, &mut ol2));
        }
        want!(w, "create_approx_aabbindex", 1, cavc_pline_create_approx_aabbindex(np, &mut oi));
        want!(w, "create_aabbindex", 1, cavc_pline_create_aabbindex(np, &mut oi));
        want!(w, "aabbindex_get_extents", 1, cavc_aabbindex_get_extents(ni, d0, d1, d2, d3));
        want!(w, "plinelist_get_count", 1, cavc_plinelist_get_count(nl, &mut u));
        want!(w, "plinelist_get_pline", 1, cavc_plinelist_get_pline(nl, 0, &mut op));
        want!(w, "plinelist_pop", 1, cavc_plinelist_pop(nl, &mut op));
        want!(w, "plinelist_take", 1, cavc_plinelist_take(nl, 0, &mut op));
        // SAFETY: null is documented to be accepted
        guard::lib(|| unsafe {
            cavc_pline_f(np);
            cavc_plinelist_f(nl);
            cavc_aabbindex_f(ni);
        });
    }
    ensure!(
        d == [SENT; 4] && u == 4321 && i == -4321 && b == 211 && v.x == SENT && v.y == SENT && v.bulge == SENT && op as usize == SENT_P && ol as usize == SENT_P && ol2 as usize == SENT_P && oi as usize == SENT_P,
        "output",
        "a call refused for a null handle wrote an output"
    );
    // the object passed next to the null handles is untouched
    observe(&mut w, p, &m, true)?;
    c.ev("null_calls", w.calls);
    teardown(&mut r, &mut w)
}

/// hostile histories (indexes of other polylines, overflowing numbers): run by the child process
fn hostile(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut w = World::default();
    let res = hostile_run(c, &mut r, &mut w);
    c.input(w.log.join("; "));
    c.nontrivial();
    res?;
    teardown(&mut r, &mut w)?;
    c.ev("c_calls", w.calls);
    Ok(())
}
fn announce(s: &str) {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "AT {s}");
    let _ = o.flush();
}
fn hostile_run(c: &mut Case, r: &mut Rng, w: &mut World) -> R {
    for _ in 0..r.int(2, 4) {
        let mut m = small_pl(r);
        match r.below(8) {
            0 => m.v.iter_mut().for_each(|q| {
                q[0] *= 1e200;
                q[1] *= 1e200;
            }),
            1 => m.v.iter_mut().for_each(|q| {
                q[0] *= 1e308;
                q[1] *= 1e308;
            }),
            2 => m.v.iter_mut().for_each(|q| q[2] *= r.pick(&[5.0, 1e6, 1e300])),
            3 => {
                // not a number / infinite
                if !m.v.is_empty() {
                    let k = r.below(m.v.len());
                    let j = r.below(3);
                    m.v[k][j] = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                }
            }
            _ => {}
        }
        create(w, m, r)?;
    }
    for _ in 0..r.int(4, 12) {
        let k = r.below(w.pl.len());
        let (p, m) = w.pl[k].clone();
        let op = r.below(6);
        announce(&format!("op {op} on {} after {}", text(&m.v, m.closed), w.log.join("; ")));
        let bad = m.v.iter().any(|q| !(q[0].abs() < 1e100 && q[1].abs() < 1e100 && q[2].abs() <= 1.0));
        match op {
            0 => {
                let mut x: *const cavc_aabbindex = SENT_P as *const _;
                w.log.push(format!("index #{k}"));
                let rc = if r.chance(0.5) {
                    ffi!(w, "create_approx_aabbindex", cavc_pline_create_approx_aabbindex(p, &mut x))
                } else {
                    ffi!(w, "create_aabbindex", cavc_pline_create_aabbindex(p, &mut x))
                };
                if rc == 0 {
                    w.ix.push((x as Ix, m.clone(), true));
                } else {
                    ensure!(rc == -1 && x as usize == SENT_P, "code", "create_aabbindex returned {rc}");
                    c.ev("contained_failures", 1);
                }
            }
            1 | 2 => {
                // options with an index that may belong to another polyline
                let ix = if !w.ix.is_empty() && r.chance(0.8) { Some(r.below(w.ix.len())) } else { None };
                let po = cavc_pline_parallel_offset_o {
                    aabb_index: ix.map(|i| w.ix[i].0 as *const _).unwrap_or(ptr::null()),
                    pos_equal_eps: r.pick(&[1e-5, 0.0, 1e-300, -1.0]),
                    slice_join_eps: r.pick(&[1e-4, 0.0, -1.0]),
                    offset_dist_eps: r.pick(&[1e-4, 0.0, -1.0]),
                    handle_self_intersects: r.pick(&[0, 1]),
                };
                let d = r.sign() * r.pick(&[0.1, 0.5, 1.0, 1e-320, 1e300]);
                w.log.push(format!("offset #{k} {d:?} index {ix:?} {:?} {:?} {:?} {}", po.pos_equal_eps, po.slice_join_eps, po.offset_dist_eps, po.handle_self_intersects));
                if m.v.iter().flatten().any(|x| !x.is_finite()) {
                    continue;
                }
                let mut out: *const cavc_plinelist = SENT_P as *const _;
                let rc = ffi!(w, "parallel_offset", cavc_pline_parallel_offset(p, d, &po, &mut out));
                c.ev("hostile_offsets", 1);
                if rc == 0 {
                    ensure!(out as usize != SENT_P, "output", "parallel_offset wrote no result");
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_plinelist_f(out as *mut _) });
                } else {
                    ensure!(rc == -1 && out as usize == SENT_P, "code", "parallel_offset returned {rc}");
                    c.ev("contained_failures", 1);
                }
            }
            3 | 4 => {
                let k2 = r.below(w.pl.len());
                let (p2, m2) = w.pl[k2].clone();
                let ix = if !w.ix.is_empty() && r.chance(0.8) { Some(r.below(w.ix.len())) } else { None };
                let bo = cavc_pline_boolean_o { pline1_aabb_index: ix.map(|i| w.ix[i].0 as *const _).unwrap_or(ptr::null()), pos_equal_eps: r.pick(&[1e-5, 0.0, -1.0, 1e-300]) };
                let o = r.below(4) as u32;
                w.log.push(format!("boolean #{k} #{k2} {o} index {ix:?} {:?}", bo.pos_equal_eps));
                if m.v.iter().chain(&m2.v).flatten().any(|x| !x.is_finite()) {
                    continue;
                }
                let mut pos: *const cavc_plinelist = SENT_P as *const _;
                let mut neg: *const cavc_plinelist = SENT_P as *const _;
                let rc = ffi!(w, "boolean", cavc_pline_boolean(p, p2, o, &bo, &mut pos, &mut neg));
                c.ev("hostile_booleans", 1);
                if rc == 0 {
                    ensure!(pos as usize != SENT_P && neg as usize != SENT_P, "output", "boolean wrote no result");
                    // SAFETY: freed once
                    guard::lib(|| unsafe {
                        cavc_plinelist_f(pos as *mut _);
                        cavc_plinelist_f(neg as *mut _);
                    });
                } else {
                    ensure!(rc == -1 && pos as usize == SENT_P && neg as usize == SENT_P, "code", "boolean returned {rc}");
                    c.ev("contained_failures", 1);
                }
            }
            _ => {
                // measures and edits of unusual numbers
                let mut d = SENT;
                let rc = ffi!(w, "eval_path_length", cavc_pline_eval_path_length(p, &mut d));
                ensure!(rc == 0 || rc == -1, "code", "eval_path_length returned {rc}");
                let rc = ffi!(w, "eval_area", cavc_pline_eval_area(p, &mut d));
                ensure!(rc == 0 || rc == -1, "code", "eval_area returned {rc}");
                let mut i = 0;
                let rc = ffi!(w, "eval_wn", cavc_pline_eval_wn(p, num(r), num(r), &mut i));
                ensure!(rc == 0 || rc == -1, "code", "eval_wn returned {rc}");
                let mut b = [0.0; 4];
                let [b0, b1, b2, b3] = &mut b;
                let rc = ffi!(w, "eval_extents", cavc_pline_eval_extents(p, b0, b1, b2, b3));
                ensure!(rc == -1 || rc == if m.v.len() < 2 { 2 } else { 0 }, "code", "eval_extents returned {rc}");
                if !bad {
                    // a copy is simplified: same object stays comparable
                    let mut out: *const cavc_pline = SENT_P as *const _;
                    want!(w, "clone", 0, cavc_pline_clone(p, &mut out));
                    let eps = r.pick(&[1e-5, 0.0, -1.0, 10.0]);
                    for f in [cavc_pline_remove_repeat_pos, cavc_pline_remove_redundant] {
                        let rc = ffi!(w, "remove", f(out as Pl, eps));
                        ensure!(rc == 0 || rc == -1, "code", "removal returned {rc}");
                        if rc == -1 {
                            c.ev("contained_failures", 1);
                        }
                    }
                    // SAFETY: freed once
                    guard::lib(|| unsafe { cavc_pline_f(out as Pl) });
                }
            }
        }
        // the objects survive a failed call unchanged
        observe(w, p, &m, false)?;
    }
    Ok(())
}

/// a batch of hostile histories in a child process: a failure that is not contained ends the child
fn contained(c: &mut Case) -> R {
    let exe = std::env::current_exe().map_err(|e| Fail { kind: "spawn".into(), msg: e.to_string() })?;
    let seed = c.rng.u64();
    let n = 60;
    c.input(format!("child seed {seed} batch {n}"));
    let out = std::process::Command::new(exe)
        .env("CAVC_CHILD", format!("{seed} {n}"))
        .stderr(std::process::Stdio::null())
        .output()
        .unwrap_or_else(|e| panic!("cannot run child: {e}"));
    let txt = String::from_utf8_lossy(&out.stdout);
    let last = txt.lines().rfind(|l| l.starts_with("AT ")).unwrap_or("").to_string();
    c.nontrivial();
    if let Some(l) = txt.lines().find(|l| l.starts_with("TIMEOUT")) {
        // work bounds are another property's subject
        c.ev("batches_cut_short", 1);
        let _ = l;
        return Ok(());
    }
    if let Some(l) = txt.lines().find(|l| l.starts_with("FAIL ")) {
        return fail("containment", format!("{l}; {last}"));
    }
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = out.status.signal() {
        return fail("containment", format!("the calling program was ended by signal {s} inside the call: {last}"));
    }
    ensure!(out.status.success() && txt.contains("DONE"), "containment", "the calling program ended with {:?} inside the call: {last}", out.status.code());
    for l in txt.lines().filter(|l| l.starts_with("EV ")) {
        let mut t = l.split(' ').skip(1);
        let name = t.next().unwrap_or("");
        let k: u64 = t.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        for n in ["c_calls", "contained_failures", "hostile_offsets", "hostile_booleans", "child_histories"] {
            if n == name {
                c.ev(n, k);
            }
        }
    }
    Ok(())
}

fn child(spec: &str) -> ! {
    let mut t = spec.split(' ');
    let seed: u64 = t.next().unwrap().parse().unwrap();
    let n: u64 = t.next().unwrap().parse().unwrap();
    install_hook();
    std::thread::spawn(|| {
        // wall clock guard of the child only: leads to no verdict
        std::thread::sleep(std::time::Duration::from_secs(60));
        println!("TIMEOUT");
        std::process::exit(0);
    });
    let mut tot: std::collections::BTreeMap<&'static str, u64> = Default::default();
    for i in 0..n {
        let mut c = Case::standalone(seed.wrapping_add(i.wrapping_mul(0x9E37_79B9)), "hostile", i);
        let r = run_one(&mut c, hostile);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => {
                println!("FAIL [{}] {} input {}", f.kind, f.msg, c.inputs());
                std::process::exit(0);
            }
            Err(e) => {
                println!("HARNESS {e}");
                std::process::exit(3);
            }
        }
        for (k, v) in c.events() {
            *tot.entry(k).or_insert(0) += v;
        }
        *tot.entry("child_histories").or_insert(0) += 1;
    }
    for (k, v) in tot {
        println!("EV {k} {v}");
    }
    println!("DONE");
    std::process::exit(0);
}

fn main() {
    if let Ok(s) = std::env::var("CAVC_CHILD") {
        child(&s);
    }
    main_(vec![
        Property {
            id: "C21",
            rule: "random histories of every function of the C interface over up to 6 live polylines, 5 lists and 5 indexes, valid and documented-invalid arguments; non-trivial always; oracle: list model with object identity, and the library called directly with equal data (bitwise)",
            classes: vec![Class { name: "histories", quick: 20000, thorough: 400000, f: c21 }],
            floors: vec![("c_calls", 2000000), ("offsets", 20000), ("offset_results", 20000), ("options_matter", 1000), ("booleans", 20000), ("boolean_results", 10000), ("boolean_holes", 100), ("released", 5000), ("refused", 10000), ("clones", 5000), ("indexes", 10000), ("empty_indexes", 500), ("defaults", 5000), ("reserved_adds", 50000)],
            rates: vec![],
        },
        Property {
            id: "C22",
            rule: "random histories as for C21 ending with every object freed by the matching call in random order; non-trivial always; oracle: checking allocator (red zones, poisoned and quarantined frees, ownership and block balance), AddressSanitizer and LeakSanitizer builds, Miri, Valgrind",
            classes: vec![Class { name: "histories", quick: 12000, thorough: 300000, f: c22 }],
            floors: vec![("histories_balanced", 11000), ("c_calls", 1000000), ("released", 3000), ("offset_results", 10000)],
            rates: vec![],
        },
        Property {
            id: "C23",
            rule: "every function with null where null is documented to be refused, and histories in child processes with indexes of other polylines, overflowing and non finite numbers, zero and negative tolerances; non-trivial always; oracle: documented codes, panic hook counter against the return code, exit status of the child, unchanged objects and outputs",
            classes: vec![Class { name: "nulls", quick: 20000, thorough: 200000, f: nulls }, Class { name: "contained", quick: 300, thorough: 6000, f: contained }],
            floors: vec![("null_calls", 500000), ("child_histories", 10000), ("contained_failures", 100), ("hostile_offsets", 20000), ("hostile_booleans", 20000)],
            rates: vec![],
        },
    ])
}
fn main_(p: Vec<Property>) -> ! {
    cavc_monitor::rep::main(p)
}
