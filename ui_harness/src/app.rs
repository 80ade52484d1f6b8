//! C33: the application under histories of user input, watched through what it paints and through
//! the accessibility tree it publishes.
use crate::screen::*;
use cavalier_contours::polyline::internal::pline_offset::{create_raw_offset_polyline, create_untrimmed_raw_offset_segs};
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavalier_contours_ui::MainApp;
use cavc_monitor::ensure;
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::{Case, Class, Fail, Property, R, catching, fail};
use eframe::App;
use egui::accesskit::{self, NodeId, Role};
use egui::{Color32, Event, Modifiers, PointerButton, Pos2, Rect, pos2, vec2};

type V3 = [f64; 3];
const ARC: f64 = 0.374794619217547;

fn offset_input() -> Vec<Vec<V3>> {
    vec![vec![[10.0, 10.0, -0.5], [8.0, 9.0, ARC], [21.0, 0.0, 0.0], [23.0, 0.0, 1.0], [32.0, 0.0, -0.5], [28.0, 0.0, 0.5], [39.0, 21.0, 0.0], [28.0, 12.0, 0.5]]]
}
fn boolean_input() -> Vec<Vec<V3>> {
    let a = vec![[10.0, 10.0, -0.5], [0.3, 1.0, ARC], [21.0, 0.0, 0.0], [23.0, 0.0, 1.0], [32.0, 0.0, -0.5], [28.0, 0.0, 0.5], [39.0, 21.0, 0.0], [28.0, 12.0, 0.5]];
    let b: Vec<V3> = vec![[10.0, 10.0, -0.5], [8.0, 9.0, ARC], [21.0, 0.0, 0.0], [23.0, 0.0, 1.0], [32.0, 0.0, -0.5], [28.0, 0.0, 0.5], [38.0, 19.0, 0.0], [28.0, 12.0, 0.5]];
    vec![a, b.iter().map(|v| [v[0] * 0.5, v[1] * 0.5, v[2]]).collect()]
}
fn multi_input() -> Vec<Vec<V3>> {
    vec![
        vec![[100.0, 100.0, -0.5], [80.0, 90.0, ARC], [210.0, 0.0, 0.0], [230.0, 0.0, 1.0], [320.0, 0.0, -0.5], [280.0, 0.0, 0.5], [390.0, 210.0, 0.0], [280.0, 120.0, 0.5]],
        vec![[150.0, 50.0, 0.0], [150.0, 100.0, 0.0], [223.74732137849435, 142.16931273980475, 0.0], [199.491310072685, 52.51543504258919, 0.5]],
        vec![[261.11232783167395, 35.79686193615828, -1.0], [250.0, 100.0, -1.0]],
        vec![[320.5065990423979, 76.14222955572362, -1.0], [320.2986109239592, 103.52378781211337, 0.0]],
        vec![[273.6131273938006, -13.968608715397636, -0.3], [256.61336060995995, -25.49387433156079, 0.0], [249.69820124026208, 27.234215862385582, 0.0]],
    ]
}
const SETTINGS: [&str; 3] = ["Show Grid", "Show Axes", "Show Cursor Position"];
const SCENES: [&str; 3] = ["Polyline Offset", "Polyline Boolean", "Multi Polyline Offset"];

struct Node {
    id: NodeId,
    role: Role,
    label: String,
    value: String,
    num: Option<f64>,
    on: Option<bool>,
    rect: Rect,
}

struct Drv {
    ctx: egui::Context,
    app: MainApp,
    frame: eframe::Frame,
    time: f64,
    size: egui::Vec2,
    nodes: Vec<Node>,
    shapes: Vec<egui::epaint::ClippedShape>,
    frames: u64,
    last_frame: Option<Rect>,
}

impl Drv {
    fn new(size: egui::Vec2) -> Drv {
        let ctx = egui::Context::default();
        ctx.enable_accesskit();
        let app = MainApp::new(&eframe::CreationContext { egui_ctx: ctx.clone(), storage: None });
        Drv { ctx, app, frame: eframe::Frame::_new_kittest(), time: 0.0, size, nodes: vec![], shapes: vec![], frames: 0, last_frame: None }
    }
    fn step(&mut self, events: Vec<Event>) -> R {
        self.time += 1.0 / 60.0;
        let mut inp = egui::RawInput { screen_rect: Some(Rect::from_min_size(Pos2::ZERO, self.size)), time: Some(self.time), focused: true, ..Default::default() };
        inp.events = events;
        let (ctx, app, frame) = (&self.ctx, &mut self.app, &mut self.frame);
        let out = match catching(|| ctx.run(inp, |ctx| app.update(ctx, frame))) {
            Ok(o) => o,
            Err(e) => return fail("panic", e),
        };
        self.frames += 1;
        self.shapes = out.shapes;
        if let Some(u) = out.platform_output.accesskit_update {
            self.nodes = u
                .nodes
                .iter()
                .map(|(id, n)| {
                    let b = n.bounds().unwrap_or(accesskit::Rect { x0: 0.0, y0: 0.0, x1: 0.0, y1: 0.0 });
                    Node {
                        id: *id,
                        role: n.role(),
                        label: n.label().unwrap_or_default().to_string(),
                        value: n.value().unwrap_or_default().to_string(),
                        num: n.numeric_value(),
                        on: n.toggled().map(|t| t == accesskit::Toggled::True),
                        rect: Rect::from_min_max(pos2(b.x0 as f32, b.y0 as f32), pos2(b.x1 as f32, b.y1 as f32)),
                    }
                })
                .collect();
        }
        Ok(())
    }
    fn idle(&mut self, n: usize) -> R {
        for _ in 0..n {
            self.step(vec![])?;
        }
        Ok(())
    }
    fn button(pos: Pos2, pressed: bool) -> Event {
        Event::PointerButton { pos, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE }
    }
    fn click(&mut self, at: Pos2) -> R {
        // far from any other click in time
        self.time += 1.0;
        // tooltips come and go
        self.step(vec![Event::PointerGone])?;
        self.idle(1)?;
        self.step(vec![Event::PointerMoved(at)])?;
        self.idle(1)?;
        self.step(vec![Drv::button(at, true)])?;
        self.step(vec![Drv::button(at, false)])?;
        self.idle(1)?;
        self.step(vec![Event::PointerGone])?;
        self.idle(2)
    }
    fn find(&self, role: Option<Role>, label: &str) -> Option<&Node> {
        self.nodes.iter().find(|n| n.label == label && role.is_none_or(|r| n.role == r) && n.rect.area() > 0.0)
    }
    /// slider under a caption
    fn slider(&self, caption: &str) -> Option<(NodeId, f64, Rect)> {
        let cap = self.nodes.iter().find(|n| n.role == Role::Label && (n.value == caption || n.label == caption))?;
        self.nodes
            .iter()
            .filter(|n| n.role == Role::Slider && n.rect.top() >= cap.rect.top())
            .min_by(|a, b| a.rect.top().total_cmp(&b.rect.top()))
            .map(|n| (n.id, n.num.unwrap_or(f64::NAN), n.rect))
    }
    fn check(&self, label: &str) -> Option<bool> {
        self.find(Some(Role::CheckBox), label).and_then(|n| n.on)
    }
}

#[derive(Clone)]
struct Model {
    scene: usize,
    /// per scene
    inputs: [Vec<Vec<V3>>; 3],
    offset_mode: String,
    bool_mode: String,
    view: [Option<View>; 3],
    /// several polylines, dragged
    touched: bool,
    /// settings: grid, axes, position of the cursor
    shown: [bool; 3],
}

/// parts of the plot as painted
struct Painted {
    frame: Rect,
    meshes: Vec<(Color32, Vec<[P; 3]>)>,
    marks: Vec<Marks>,
    /// something painted nowhere
    bad: Option<String>,
}

fn painted(d: &Drv) -> Result<Painted, Fail> {
    match look(d)? {
        Some(p) => Ok(p),
        None => fail("nothing-painted", "the plot shows nothing".into()),
    }
}
fn look(d: &Drv) -> Result<Option<Painted>, Fail> {
    // everything the plot items paint is clipped to the plot frame; no other part of the app
    // paints meshes or filled circles of that size there
    let mut frame: Option<Rect> = None;
    let mut bad = None;
    let mut all = Scene { meshes: vec![], marks: vec![], other: 0 };
    for s in &d.shapes {
        if matches!(s.shape, egui::Shape::Mesh(_)) {
            frame = Some(s.clip_rect);
        }
    }
    if frame.is_none() && d.last_frame.is_some_and(|f| d.shapes.iter().any(|s| s.clip_rect == f && matches!(s.shape, egui::Shape::Circle(_)))) {
        frame = d.last_frame;
    }
    if frame.is_none() {
        // only marks: many of them in one place
        let clips: Vec<Rect> = d.shapes.iter().filter(|s| collect(std::slice::from_ref(&s.shape)).is_ok_and(|x| !x.marks.is_empty())).map(|s| s.clip_rect).collect();
        frame = clips.iter().copied().max_by_key(|r| clips.iter().filter(|q| *q == r).count()).filter(|r| clips.iter().filter(|q| *q == r).count() > 3);
    }
    for s in &d.shapes {
        if frame.is_none_or(|f| f != s.clip_rect) {
            continue;
        }
        let one = match collect(std::slice::from_ref(&s.shape)) {
            Ok(x) => x,
            Err(e) => {
                bad = Some(e);
                continue;
            }
        };
        all.marks.extend(one.marks);
        for (c, t) in one.meshes {
            match all.meshes.iter_mut().find(|m| m.0 == c) {
                Some(m) => m.1.extend(t),
                None => all.meshes.push((c, t)),
            }
        }
    }
    let Some(frame) = frame else { return Ok(None) };
    Ok(Some(Painted { frame, meshes: all.meshes, marks: all.marks, bad }))
}

fn marks_of(shapes: &[egui::epaint::ClippedShape]) -> Vec<P> {
    shapes.iter().filter_map(|s| collect(std::slice::from_ref(&s.shape)).ok()).flat_map(|s| s.marks).map(|k| k.c).collect()
}

/// view from pairs of points and pixels
fn solve(frame: Rect, pairs: &[(P, P)]) -> Option<View> {
    if pairs.len() < 2 {
        return None;
    }
    let n = pairs.len() as f64;
    let (mut a, mut b) = (p(0.0, 0.0), p(0.0, 0.0));
    for (q, m) in pairs {
        a = a + *q;
        b = b + *m;
    }
    let (a, b) = (p(a.x / n, a.y / n), p(b.x / n, b.y / n));
    let (mut num, mut den) = (0.0, 0.0);
    for (q, m) in pairs {
        let (x, y) = (*q - a, *m - b);
        num += x.x * y.x - x.y * y.y;
        den += x.dot(x);
    }
    let s = num / den;
    if !(s > 0.0) {
        return None;
    }
    // px = left + (x - min.x) s ; py = bottom - (y - min.y) s
    let min = p(a.x - (b.x - frame.left() as f64) / s, a.y - (frame.bottom() as f64 - b.y) / s);
    Some(View { frame, min, s })
}

const NEAR: f64 = 0.3;

/// view from marks that show all of the points, in any order
fn fit(frame: Rect, pts: &[P], marks: &[P]) -> Option<View> {
    if pts.len() != marks.len() || pts.len() < 3 {
        return None;
    }
    let ext = |v: &[P]| {
        v.iter().fold((p(f64::INFINITY, f64::INFINITY), p(f64::NEG_INFINITY, f64::NEG_INFINITY)), |(l, h), q| (p(l.x.min(q.x), l.y.min(q.y)), p(h.x.max(q.x), h.y.max(q.y))))
    };
    let ((pl, ph), (ml, mh)) = (ext(pts), ext(marks));
    let v = solve(frame, &[(pl, p(ml.x, mh.y)), (ph, p(mh.x, ml.y))])?;
    // one to one
    let mut used = vec![false; marks.len()];
    for q in pts {
        let w = v.px(*q);
        let k = (0..marks.len()).filter(|&k| !used[k]).min_by(|&i, &j| marks[i].dist(w).total_cmp(&marks[j].dist(w)))?;
        if marks[k].dist(w) > NEAR {
            return None;
        }
        used[k] = true;
    }
    Some(v)
}

/// view near a predicted one that explains the marks in sight
fn refine(guess: &View, frame: Rect, pts: &[P], marks: &[P], reach: f64) -> Option<View> {
    let g = View { frame, ..*guess };
    let mut v = g;
    for r in [reach, 2.0] {
        let mut pairs = vec![];
        for m in marks {
            let q = pts.iter().min_by(|a, b| v.px(**a).dist(*m).total_cmp(&v.px(**b).dist(*m)))?;
            if v.px(*q).dist(*m) < r {
                pairs.push((*q, *m));
            }
        }
        v = solve(frame, &pairs)?;
    }
    // stays near the prediction all over the frame
    let f = frame;
    for q in [p(f.left() as f64, f.top() as f64), p(f.right() as f64, f.bottom() as f64)] {
        if v.px(g.world(q)).dist(q) > 3.0 * reach {
            return None;
        }
    }
    for m in marks {
        if !pts.iter().any(|q| v.px(*q).dist(*m) < NEAR) {
            return None;
        }
    }
    for q in pts {
        let w = v.px(*q);
        if v.visible(w, 1.0) && !marks.iter().any(|m| w.dist(*m) < NEAR) {
            return None;
        }
    }
    Some(v)
}

impl Model {
    fn verts(&self) -> Vec<P> {
        self.inputs[self.scene].iter().flatten().map(|v| p(v[0], v[1])).collect()
    }
    fn paths(&self) -> Vec<Path> {
        self.inputs[self.scene].iter().map(|v| Path::new(v.clone(), true)).collect()
    }
    fn text(&self) -> String {
        self.inputs[self.scene].iter().map(|v| text(v, true)).collect::<Vec<_>>().join(" ")
    }
}

fn close_path(pl: &Polyline<f64>) -> Path {
    path_of(pl)
}

/// curves by colour that the controls promise
type Want = Vec<(Color32, Vec<Path>, bool)>;

fn expected(d: &Drv, m: &Model) -> Result<Want, Fail> {
    let pls: Vec<PL> = m.inputs[m.scene].iter().map(|v| to_pl(v, true)).collect();
    let mut want: Want = vec![];
    let missing = |what: &str| -> Fail { Fail { kind: "control".into(), msg: format!("no {what} on the screen") } };
    match m.scene {
        0 => {
            let off = d.slider("Offset").ok_or_else(|| missing("offset slider"))?.1;
            want.push((Color32::GOLD, m.paths(), false));
            match m.offset_mode.as_str() {
                "Offset" => {
                    let n = d.slider("Max Offset Count").ok_or_else(|| missing("count slider"))?.1 as usize;
                    let hsi = d.check("Handle Self Intersects").ok_or_else(|| missing("self intersects box"))?;
                    let opt = PlineOffsetOptions { handle_self_intersects: hsi, ..Default::default() };
                    let o = pls[0].orientation();
                    let (mut same, mut diff) = (vec![], vec![]);
                    let mut cur = vec![pls[0].clone()];
                    for _ in 0..n {
                        let mut next = vec![];
                        for q in &cur {
                            for r in q.parallel_offset_opt(off, &opt) {
                                if r.orientation() == o {
                                    same.push(path_of(&r));
                                    next.push(r);
                                } else {
                                    diff.push(path_of(&r));
                                }
                            }
                        }
                        cur = next;
                        if cur.is_empty() {
                            break;
                        }
                    }
                    want.push((Color32::LIGHT_BLUE, same, false));
                    want.push((Color32::LIGHT_RED, diff, false));
                }
                "Raw Offset" => {
                    let raw: PL = create_raw_offset_polyline(&pls[0], off, 1e-5);
                    want.push((Color32::LIGHT_GRAY, vec![close_path(&raw)], false));
                }
                _ => {
                    let segs = create_untrimmed_raw_offset_segs(&pls[0], off);
                    let path = |c: bool| segs.iter().filter(|s| s.collapsed_arc == c).map(|s| Path::new(vec![[s.v1.x, s.v1.y, s.v1.bulge], [s.v2.x, s.v2.y, 0.0]], false)).collect::<Vec<_>>();
                    want.push((Color32::from_rgb(255, 0, 255), path(false), false));
                    want.push((Color32::LIGHT_RED, path(true), false));
                }
            }
        }
        1 => {
            let filled = d.check("Fill").ok_or_else(|| missing("fill box"))?;
            let (a, b) = (Color32::LIGHT_BLUE, Color32::LIGHT_RED);
            let op = match m.bool_mode.as_str() {
                "Or" => Some(BooleanOp::Or),
                "And" => Some(BooleanOp::And),
                "Not" => Some(BooleanOp::Not),
                "Xor" => Some(BooleanOp::Xor),
                _ => None,
            };
            match op {
                None => {
                    for (c, pa) in [a, b].into_iter().zip(m.paths()) {
                        if filled {
                            want.push((c.gamma_multiply(0.8), vec![pa], true));
                        } else {
                            want.push((c, vec![pa], false));
                        }
                    }
                }
                Some(op) => {
                    let r = pls[0].boolean(&pls[1], op);
                    let all: Vec<Path> = r.pos_plines.iter().chain(r.neg_plines.iter()).map(|q| path_of(&q.pline)).collect();
                    want.push((a, all.clone(), false));
                    if filled {
                        want.push((a.gamma_multiply(0.8), all, true));
                    }
                }
            }
        }
        _ => {
            let off = d.slider("Offset").ok_or_else(|| missing("offset slider"))?.1;
            let n = d.slider("Max Offset Count").ok_or_else(|| missing("count slider"))?.1 as usize;
            want.push((Color32::GOLD, m.paths(), false));
            let mut out = vec![];
            let mut cur = Shape::from_plines(pls.iter().cloned());
            for _ in 0..n {
                cur = cur.parallel_offset(off, ShapeOffsetOptions::default());
                if cur.ccw_plines.is_empty() && cur.cw_plines.is_empty() {
                    break;
                }
                out.extend(cur.ccw_plines.iter().chain(cur.cw_plines.iter()).map(|q| path_of(&q.polyline)));
            }
            want.push((Color32::LIGHT_BLUE, out, false));
        }
    }
    Ok(want)
}

fn marks_wanted(d: &Drv, m: &Model) -> bool {
    m.scene != 1 || d.check("Show Vertexes").unwrap_or(true)
}

/// the marks under a view; Err when they do not show the vertexes of the model
fn compare_marks(m: &Model, pa: &Painted, v: &View) -> R {
    let pts: Vec<P> = m.verts().iter().map(|q| v.px(*q)).collect();
    let tol = 0.5;
    for q in &pts {
        if v.visible(*q, tol) && !pa.marks.iter().any(|k| k.c.dist(*q) < tol) {
            let k = pa.marks.iter().map(|k| k.c).min_by(|a, b| a.dist(*q).total_cmp(&b.dist(*q)));
            return fail("vertex", format!("no mark where a vertex should be, pixel ({:.2}, {:.2}), the nearest is at {:?}", q.x, q.y, k));
        }
    }
    for k in &pa.marks {
        if !pts.iter().any(|q| q.dist(k.c) < tol) {
            return fail("vertex", format!("a mark at pixel ({:.2}, {:.2}) where no vertex should be", k.c.x, k.c.y));
        }
    }
    Ok(())
}

fn judge_want(c: &mut Case, want: &Want, pa: &Painted, v: &View) -> R {
    let pts: Vec<P> = (0..60)
        .map(|_| p(c.rng.range(v.frame.left() as f64, v.frame.right() as f64), c.rng.range(v.frame.top() as f64, v.frame.bottom() as f64)))
        .collect();
    for (col, _) in &pa.meshes {
        ensure!(want.iter().any(|w| w.0 == *col), "colour", "something painted in colour {:?}, which means nothing under these controls", col);
    }
    for (col, paths, filled) in want {
        let t: Vec<[P; 3]> = pa.meshes.iter().filter(|m| m.0 == *col).flat_map(|m| m.1.iter().copied()).collect();
        let paths: Vec<Path> = paths.iter().filter(|q| !q.segs.is_empty()).cloned().collect();
        let t = Tris::new(t, &v.frame);
        if *filled {
            match fill(&paths, &t, v, &pts, false) {
                Ok(n) => {
                    c.ev("fill_inside", n.inside);
                    c.ev("fill_outside", n.outside);
                    c.ev("fills", 1);
                }
                Err((k, msg)) => c.soft("fill_deviations", Fail { kind: k.to_string(), msg }),
            }
        } else {
            match strokes(&paths, &t, v, None) {
                Ok(n) => {
                    c.ev("curve_points", n.points);
                    c.ev("stroke_samples", n.tris);
                    c.ev("curves", paths.len() as u64);
                }
                Err((k, msg)) => return fail(k, format!("colour {:?}: {}", col, msg)),
            }
        }
    }
    Ok(())
}

/// finds where the plot is now, from the marks; true when it is known
fn locate(c: &mut Case, d: &mut Drv, m: &mut Model, what: &str) -> Result<bool, Fail> {
    let s = m.scene;
    let Some(pa) = look(d)? else {
        // everything may be out of sight
        c.ev("out_of_sight", 1);
        return fit_view(c, d, m, true).map(|_| false);
    };
    if !marks_wanted(d, m) {
        ensure!(pa.marks.is_empty(), "vertex", "{} marks while vertexes are not shown", pa.marks.len());
        return Ok(m.view[s].is_some_and(|v| v.frame == pa.frame));
    }
    let marks: Vec<P> = pa.marks.iter().map(|k| k.c).collect();
    let pts = m.verts();
    let v = match m.view[s] {
        Some(g) => refine(&g, pa.frame, &pts, &marks, 12.0).or_else(|| fit(pa.frame, &pts, &marks)),
        None => fit(pa.frame, &pts, &marks),
    };
    if let Some(v) = v {
        if let Some(g) = m.view[s] {
            // what the plot does is predicted, up to the room its axes take
            let f = pa.frame;
            for q in [p(f.left() as f64, f.top() as f64), p(f.right() as f64, f.bottom() as f64)] {
                let off = v.px(g.world(q)).dist(q);
                ensure!(off < 40.0, "view", "{what} leaves the plot {off:.1} pixels from where it should be");
            }
        }
        m.view[s] = Some(v);
        c.ev("located", 1);
        return Ok(true);
    }
    if let (Some(g), true) = (m.view[s], pa.marks.len() > 2) {
        let g = View { frame: pa.frame, ..g };
        if let Err(e) = compare_marks(m, &pa, &g) {
            c.ev("unlocated", 1);
            m.view[s] = None;
            return fit_view(c, d, m, true).map(|_| true).map_err(|f| Fail { kind: f.kind, msg: format!("{} ({what}: {})", f.msg, e.msg) });
        }
    }
    c.ev("unlocated", 1);
    fit_view(c, d, m, true).map(|_| true)
}

/// compares the whole plot with the controls
fn verify(c: &mut Case, d: &mut Drv, m: &mut Model, what: &str) -> R {
    d.idle(1)?;
    let s = m.scene;
    if !locate(c, d, m, what)? {
        c.ev("not_compared", 1);
        return Ok(());
    }
    let pa = painted(d)?;
    let v = m.view[s].unwrap();
    if m.inputs[s].iter().any(|pl| (0..pl.len()).any(|i| { let (a, b) = (pl[i], pl[(i + 1) % pl.len()]); (a[0] - b[0]).hypot(a[1] - b[1]) < 0.05 })) {
        c.ev("coincident_vertexes", 1);
        return Ok(());
    }
    let want = expected(d, m)?;
    if let Some(e) = &pa.bad {
        // polylines that overlap are not for the library as one shape, what it returns for them
        // may be no polyline at all
        let bad = want.iter().any(|w| w.1.iter().any(|q| q.v.iter().any(|v| !v.iter().all(|x| x.is_finite()))));
        if bad && s == 2 {
            c.ev("results_without_position", 1);
            return Ok(());
        }
        return fail("mesh", e.clone());
    }
    c.ev("states_compared", 1);
    let r = judge_want(c, &want, &pa, &v);
    if r.is_err() {
        // results that change when the input moves by less than what a pixel tells are not judged
        for _ in 0..6 {
            let mut m2 = m.clone();
            for q in m2.inputs[s].iter_mut().flatten() {
                q[0] += c.rng.range(-3e-5, 3e-5) / v.s.min(1.0) * 0.1;
                q[1] += c.rng.range(-3e-5, 3e-5) / v.s.min(1.0) * 0.1;
            }
            let want2 = expected(d, &m2)?;
            if judge_want(c, &want2, &pa, &v).is_ok() {
                c.ev("sensitive_states", 1);
                return Ok(());
            }
        }
    }
    r
}

/// "Zoom to Fit": everything is in sight and fills the frame
fn fit_view(c: &mut Case, d: &mut Drv, m: &mut Model, press: bool) -> R {
    if press {
        let Some(b) = d.find(Some(Role::Button), "Zoom to Fit").map(|n| n.rect.center()) else {
            return fail("control", "no Zoom to Fit button".into());
        };
        d.click(b)?;
        d.idle(2)?;
    }
    m.view[m.scene] = None;
    if !marks_wanted(d, m) {
        if expected(d, m)?.iter().any(|w| w.1.iter().any(|q| !q.segs.is_empty() && q.diag() > 1e-3)) {
            painted(d)?;
        }
        return Ok(());
    }
    let pa = painted(d)?;
    let marks: Vec<P> = pa.marks.iter().map(|k| k.c).collect();
    let Some(v) = fit(pa.frame, &m.verts(), &marks) else {
        return fail("zoom-to-fit", format!("after Zoom to Fit the {} marks do not show the {} vertexes", marks.len(), m.verts().len()));
    };
    m.view[m.scene] = Some(v);
    let want = expected(d, m)?;
    let mut bb = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    let inputs = m.paths();
    for q in want.iter().flat_map(|w| w.1.iter()).chain(&inputs).filter(|q| !q.segs.is_empty()) {
        let b = q.bbox();
        bb = [bb[0].min(b[0]), bb[1].min(b[1]), bb[2].max(b[2]), bb[3].max(b[3])];
    }
    for q in m.verts() {
        bb = [bb[0].min(q.x), bb[1].min(q.y), bb[2].max(q.x), bb[3].max(q.y)];
    }
    let (lo, hi) = (v.px(p(bb[0], bb[1])), v.px(p(bb[2], bb[3])));
    let f = v.frame;
    c.ev("fitted", 1);
    ensure!(
        lo.x > f.left() as f64 - 1.0 && hi.x < f.right() as f64 + 1.0 && hi.y > f.top() as f64 - 1.0 && lo.y < f.bottom() as f64 + 1.0,
        "zoom-to-fit",
        "after Zoom to Fit the drawing covers pixels ({:.1}, {:.1})-({:.1}, {:.1}) of {:?}",
        lo.x,
        hi.y,
        hi.x,
        lo.y,
        f
    );
    let k = ((hi.x - lo.x) / f.width() as f64).max((lo.y - hi.y) / f.height() as f64);
    ensure!(k > 0.6, "zoom-to-fit", "after Zoom to Fit the drawing covers only {:.3} of the frame", k);
    Ok(())
}

fn select(c: &mut Case, d: &mut Drv, m: &mut Model, k: usize) -> R {
    let Some(at) = d.find(Some(Role::Button), SCENES[k]).map(|n| n.rect.center()) else {
        return fail("control", format!("no tab {}", SCENES[k]));
    };
    let on = |d: &Drv| d.find(Some(Role::Button), SCENES[k]).and_then(|n| n.on) == Some(true);
    for _ in 0..3 {
        d.click(at)?;
        if on(d) {
            break;
        }
    }
    ensure!(on(d), "control", "the tab {} cannot be selected", SCENES[k]);
    c.ev("tabs", 1);
    if k != m.scene {
        m.scene = k;
        d.idle(2)?;
        fit_view(c, d, m, false)?;
        if m.shown != [true; 3] || c.rng.chance(0.1) {
            furniture(c, d, m)?;
        }
    }
    Ok(())
}

fn choose(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    if m.scene == 2 {
        return Ok(());
    }
    let opts: &[&str] = if m.scene == 0 { &["Offset", "Raw Offset", "Raw Offset Segments"] } else { &["None", "Or", "And", "Not", "Xor"] };
    let o = c.rng.pick(opts);
    let Some(at) = d.nodes.iter().find(|n| n.role == Role::ComboBox && n.rect.area() > 0.0).map(|n| n.rect.center()) else {
        return fail("control", "no mode box".into());
    };
    d.click(at)?;
    let Some(at) = d.find(Some(Role::Button), o).map(|n| n.rect.center()) else {
        return fail("control", format!("mode {o} is not offered"));
    };
    d.click(at)?;
    d.idle(2)?;
    ensure!(d.find(Some(Role::Button), opts[opts.len() - 1]).is_none(), "control", "the mode list stays open");
    if m.scene == 0 {
        m.offset_mode = o.to_string();
    } else {
        m.bool_mode = o.to_string();
    }
    c.ev("modes", 1);
    Ok(())
}

fn slide(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let (cap, val) = match (m.scene, c.rng.chance(0.65)) {
        (1, _) => return Ok(()),
        (0, true) => ("Offset", c.rng.int(-20, 20) as f64 * 0.5),
        (_, true) => {
            let k = c.rng.int(2, 40) as f64;
            ("Offset", c.rng.sign() * k * 0.5)
        }
        (0, false) if m.offset_mode != "Offset" => return Ok(()),
        // see ops
        _ if m.scene == 2 && m.touched => ("Max Offset Count", c.rng.int(0, 2) as f64),
        _ => ("Max Offset Count", if c.rng.chance(0.3) { c.rng.int(0, 2) } else { c.rng.int(0, 20) } as f64),
    };
    let Some((id, before, rect)) = d.slider(cap) else { return fail("control", format!("no slider {cap}")) };
    let how = if cap != "Offset" && m.scene == 2 && m.touched { 2 } else { c.rng.below(3) };
    match how {
        0 => {
            // on the rail
            let t = c.rng.range(0.35, 0.65) as f32;
            let at = pos2(rect.left() + t * rect.width(), rect.center().y);
            if cap == "Offset" {
                d.click(at)?;
            }
        }
        1 => {
            let a = if c.rng.chance(0.5) { accesskit::Action::Increment } else { accesskit::Action::Decrement };
            d.step(vec![Event::AccessKitActionRequest(accesskit::ActionRequest { action: a, target: id, data: None })])?;
        }
        _ => {
            d.step(vec![Event::AccessKitActionRequest(accesskit::ActionRequest { action: accesskit::Action::SetValue, target: id, data: Some(accesskit::ActionData::NumericValue(val)) })])?;
            d.idle(2)?;
            let Some((_, got, _)) = d.slider(cap) else { return fail("control", format!("slider {cap} is gone")) };
            ensure!((got - val).abs() < 1e-9, "control", "slider {cap} set to {val} shows {got}");
        }
    }
    d.idle(2)?;
    let Some((_, got, _)) = d.slider(cap) else { return fail("control", format!("slider {cap} is gone")) };
    let (lo, hi) = if cap == "Offset" { (-100.0, 100.0) } else { (0.0, 100.0) };
    ensure!(got >= lo && got <= hi, "control", "slider {cap} shows {got} outside of [{lo}, {hi}]");
    if got != before {
        c.ev("slides", 1);
    }
    Ok(())
}

fn toggle(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let names: &[&str] = match m.scene {
        0 => &["Handle Self Intersects"],
        1 => &["Fill", "Show Vertexes"],
        _ => return Ok(()),
    };
    let k = c.rng.pick(names);
    let Some(n) = d.find(Some(Role::CheckBox), k) else {
        ensure!(m.scene == 0 && m.offset_mode != "Offset", "control", "no box {k}");
        return Ok(());
    };
    let (at, was) = (n.rect.center(), n.on);
    d.click(at)?;

    d.idle(1)?;
    ensure!(d.check(k).is_some() && d.check(k) != was, "control", "clicking {k} leaves it {:?}", was);
    c.ev("toggles", 1);
    Ok(())
}

fn settings(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let Some(at) = d.find(None, "🔧 Settings").map(|n| n.rect.center()) else { return fail("control", "no settings".into()) };
    d.click(at)?;
    d.idle(4)?;
    if d.find(None, "Reset Default").is_none() {
        // a tooltip was in the way
        d.click(at)?;
        d.idle(4)?;
    }
    for _ in 0..c.rng.below(3) {
        let k = c.rng.pick(&[SETTINGS[0], SETTINGS[1], SETTINGS[2], "Reset Default"]);
        let Some(n) = d.find(None, k) else { return fail("control", format!("no setting {k}")) };
        let at = n.rect.center();
        d.click(at)?;
        d.idle(2)?;
        match SETTINGS.iter().position(|q| *q == k) {
            Some(i) => m.shown[i] = !m.shown[i],
            None => m.shown = [true; 3],
        }
        for (i, q) in SETTINGS.iter().enumerate() {
            ensure!(d.check(q) == Some(m.shown[i]), "control", "{q} is {:?} after clicking {k}", d.check(q));
        }
    }
    let Some(at) = d.find(None, "🔧 Settings").map(|n| n.rect.center()) else { return fail("control", "no settings".into()) };
    d.click(at)?;
    d.idle(30)?;
    if d.find(None, "Reset Default").is_some() {
        // something is in the way of the pointer
        let Some(target) = d.find(None, "🔧 Settings").map(|n| n.id) else { return fail("control", "no settings".into()) };
        d.step(vec![Event::AccessKitActionRequest(accesskit::ActionRequest { action: accesskit::Action::Click, target, data: None })])?;
        d.idle(30)?;
    }
    ensure!(d.find(None, "Reset Default").is_none(), "control", "the settings stay open");
    c.ev("settings", 1);
    // axes take room
    m.view = [None; 3];
    if marks_wanted(d, m) {
        fit_view(c, d, m, true)?;
    }
    furniture(c, d, m)
}

/// grid, axes and position of the cursor are there exactly when the settings say so
fn furniture(c: &mut Case, d: &mut Drv, m: &Model) -> R {
    let Some(pa) = look(d)? else { return Ok(()) };
    let f = pa.frame;
    if f.width() < 150.0 || f.height() < 150.0 {
        return Ok(());
    }
    let grid = d.shapes.iter().filter(|s| s.clip_rect == f && matches!(s.shape, egui::Shape::LineSegment { .. })).count();
    ensure!((grid > 0) == m.shown[0], "settings", "{} grid lines although Show Grid is {}", grid, m.shown[0]);
    // numbers along the lower edge
    let axis = texts(d).filter(|(r, t)| r.top() > f.bottom() - 1.0 && r.center().x > f.left() && r.center().x < f.right() && t.parse::<f64>().is_ok()).count();
    ensure!((axis > 0) == m.shown[1], "settings", "{} axis labels although Show Axes is {}", axis, m.shown[1]);
    let at = pos2(f.center().x.round(), f.center().y.round());
    d.step(vec![Event::PointerMoved(at)])?;
    d.step(vec![])?;
    let label: Vec<String> = texts(d).filter(|(_, t)| t.contains("x = ") || t.contains("y = ")).map(|q| q.1).collect();
    ensure!(label.iter().all(|t| t.contains("x = ") && t.contains("y = ")), "settings", "half a cursor label {:?}", label);
    ensure!(!label.is_empty() == m.shown[2], "settings", "cursor labels {:?} although Show Cursor Position is {}", label, m.shown[2]);
    if let (Some(t), Some(v)) = (label.first(), m.view[m.scene].filter(|v| v.frame == f)) {
        let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|x| x.trim().parse::<f64>().ok());
        let w = v.world(p(at.x as f64, at.y as f64));
        let tol = 1.0 / v.s + 0.06;
        ensure!(num("x = ").is_some_and(|x| (x - w.x).abs() < tol) && num("y = ").is_some_and(|y| (y - w.y).abs() < tol), "settings", "the cursor at ({}, {}) is said to be at {:?}", w.x, w.y, t);
    }
    d.step(vec![Event::PointerGone])?;
    d.idle(2)?;
    c.ev("furniture_checks", 1);
    if m.shown != [true; 3] {
        c.ev("furniture_hidden", 1);
    }
    Ok(())
}

fn texts(d: &Drv) -> impl Iterator<Item = (Rect, String)> {
    fn walk(s: &egui::Shape, out: &mut Vec<(Rect, String)>) {
        match s {
            egui::Shape::Vec(v) => v.iter().for_each(|s| walk(s, out)),
            egui::Shape::Text(t) => out.push((t.visual_bounding_rect(), t.galley.text().to_string())),
            _ => {}
        }
    }
    let mut out = vec![];
    for s in &d.shapes {
        walk(&s.shape, &mut out);
    }
    out.into_iter()
}

/// press somewhere in the plot and drag
fn drag(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let s = m.scene;
    let (Some(v), true) = (m.view[s], marks_wanted(d, m)) else { return Ok(()) };
    let Some(before) = look(d)? else { return Ok(()) };
    if before.frame != v.frame {
        return Ok(());
    }
    let px: Vec<P> = m.verts().iter().map(|q| v.px(*q)).collect();
    let vis: Vec<usize> = (0..px.len()).filter(|&i| v.visible(px[i], 12.0)).collect();
    let grab = !vis.is_empty() && c.rng.chance(0.7);
    let f = v.frame;
    let inside = |c: &mut Case| p(c.rng.range(f.left() as f64 + 12.0, f.right() as f64 - 12.0), c.rng.range(f.top() as f64 + 12.0, f.bottom() as f64 - 12.0));
    let from = if grab {
        let q = px[vis[c.rng.below(vis.len())]];
        p((q.x + c.rng.range(-3.0, 3.0)).round(), (q.y + c.rng.range(-3.0, 3.0)).round())
    } else {
        let q = inside(c);
        // clearly off every vertex
        if px.iter().any(|k| k.dist(q) < 30.0) {
            return Ok(());
        }
        p(q.x.round(), q.y.round())
    };
    let to = {
        let q = if c.rng.chance(0.5) { inside(c) } else { p(from.x + c.rng.range(-60.0, 60.0), from.y + c.rng.range(-60.0, 60.0)) };
        p(q.x.clamp(f.left() as f64 + 8.0, f.right() as f64 - 8.0).round(), q.y.clamp(f.top() as f64 + 8.0, f.bottom() as f64 - 8.0).round())
    };
    if from.dist(to) < 16.0 {
        return Ok(());
    }
    let at = |q: P| pos2(q.x as f32, q.y as f32);
    if grab && s == 2 && !m.touched {
        // repeated offsets of polylines dragged over each other are not for the library and take
        // for ever
        let Some((id, ..)) = d.slider("Max Offset Count") else { return fail("control", "no count slider".into()) };
        let data = Some(accesskit::ActionData::NumericValue(c.rng.int(0, 2) as f64));
        d.step(vec![Event::AccessKitActionRequest(accesskit::ActionRequest { action: accesskit::Action::SetValue, target: id, data })])?;
        d.idle(2)?;
        m.touched = true;
    }
    // grabbing needs the pointer within reach of a vertex
    let near = px.iter().map(|k| (k.x - from.x).abs().max((k.y - from.y).abs())).fold(f64::INFINITY, f64::min);
    d.time += 1.0;
    d.step(vec![Event::PointerMoved(at(from))])?;
    d.step(vec![])?;
    // the right button zooms to a box
    let with = if c.rng.chance(0.15) { PointerButton::Middle } else { PointerButton::Primary };
    let button = |pos, pressed| Event::PointerButton { pos, button: with, pressed, modifiers: Modifiers::NONE };
    d.step(vec![button(at(from), true)])?;
    if c.rng.chance(0.5) {
        d.step(vec![])?;
    }
    // the toolkit tells a drag from a click after a few pixels: the first move is a long one
    let n = c.rng.below(4);
    let first = 12.0f64.max(from.dist(to) * 0.3) / from.dist(to);
    let mut stops: Vec<P> = vec![from + p((to.x - from.x) * first, (to.y - from.y) * first)];
    for _ in 0..n {
        stops.push(inside(c));
    }
    stops.push(to);
    for q in stops {
        d.step(vec![Event::PointerMoved(at(q))])?;
        if c.rng.chance(0.2) {
            d.step(vec![])?;
        }
    }
    d.step(vec![button(at(to), false)])?;
    // released: whatever the pointer does now changes nothing
    let other = inside(c);
    d.step(vec![Event::PointerMoved(at(other))])?;
    d.step(vec![Event::PointerGone])?;
    d.idle(3)?;
    d.last_frame = Some(before.frame);
    let after = match look(d)? {
        Some(a) => a,
        None if grab => return fail("nothing-painted", "the plot shows nothing after a drag".into()),
        None => {
            m.view[s] = None;
            return Ok(());
        }
    };
    d.last_frame = Some(after.frame);
    let moved = to - from;
    if !grab || near > 25.0 {
        // the whole view moves along
        m.view[s] = Some(View { frame: after.frame, min: p(v.min.x - moved.x / v.s, v.min.y + moved.y / v.s), ..v });
        c.ev("pans", 1);
        return Ok(());
    }
    ensure!(after.frame == before.frame, "drag", "the frame changed from {:?} to {:?}", before.frame, after.frame);
    // one vertex under the pointer moves along, nothing else does
    c.ev("vertex_drags", 1);
    let mut msg = String::new();
    for i in 0..px.len() {
        if (px[i].x - from.x).abs().max((px[i].y - from.y).abs()) > 25.0 {
            continue;
        }
        let mut m2 = m.clone();
        let q = px[i] + moved;
        let w = v.world(q);
        let mut k = i;
        for pl in m2.inputs[s].iter_mut() {
            if k < pl.len() {
                pl[k][0] = w.x;
                pl[k][1] = w.y;
                break;
            }
            k -= pl.len();
        }
        match compare_marks(&m2, &after, &v) {
            Ok(()) => {
                // the mark tells the position as well as it can
                *m = m2;
                return Ok(());
            }
            Err(e) => msg = e.msg,
        }
    }
    fail("vertex-drag", format!("dragging from ({}, {}) to ({}, {}) does not move one vertex by that much: {}", from.x, from.y, to.x, to.y, msg))
}

fn zoom(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let s = m.scene;
    let Some(v) = m.view[s] else { return Ok(()) };
    let f = v.frame;
    let at = p(c.rng.range(f.left() as f64 + 20.0, f.right() as f64 - 20.0).round(), c.rng.range(f.top() as f64 + 20.0, f.bottom() as f64 - 20.0).round());
    let diag = m.paths().iter().map(|q| q.diag()).fold(0.0, f64::max) * v.s;
    let k = if diag > 20000.0 {
        0.05
    } else if diag < 30.0 {
        20.0
    } else {
        c.rng.logrange(0.3, 5.0)
    } as f32;
    d.step(vec![Event::PointerMoved(pos2(at.x as f32, at.y as f32))])?;
    d.step(vec![])?;
    d.step(vec![Event::Zoom(k)])?;
    d.step(vec![Event::PointerGone])?;
    d.idle(2)?;
    c.ev("zooms", 1);
    // the point under the pointer stays
    let w = v.world(at);
    let sc = v.s * k as f64;
    let nv = View { frame: f, min: p(w.x - (at.x - f.left() as f64) / sc, w.y - (f.bottom() as f64 - at.y) / sc), s: sc };
    // the room of the axes may change along
    m.view[s] = if marks_wanted(d, m) { Some(nv) } else { None };
    Ok(())
}

fn history(c: &mut Case) -> R {
    let size = vec2(c.rng.range(700.0, 1700.0).round() as f32, c.rng.range(500.0, 1000.0).round() as f32);
    let mut d = Drv::new(size);
    let mut m = Model { scene: 0, inputs: [offset_input(), boolean_input(), multi_input()], offset_mode: "Offset".into(), bool_mode: "None".into(), view: [None; 3], touched: false, shown: [true; 3] };
    d.idle(4)?;
    let r = ops(c, &mut d, &mut m);
    let r = r.map_err(|e| Fail { kind: e.kind, msg: format!("{} [{} with {}]", e.msg, SCENES[m.scene], m.text()) });
    c.ev("frames", d.frames);
    r
}

fn ops(c: &mut Case, d: &mut Drv, m: &mut Model) -> R {
    let k = c.rng.below(3);
    let mut log = format!("window {:?}", d.size);
    select(c, d, m, k)?;
    verify(c, d, m, "opening")?;
    let n = c.rng.int(4, 14);
    for _ in 0..n {
        let o = c.rng.below(20);
        let name = ["tab", "mode", "slide", "toggle", "settings", "drag", "zoom", "fit", "resize"][match o {
            0 => 0,
            1..=3 => 1,
            4..=7 => 2,
            8..=9 => 3,
            10 => 4,
            11..=15 => 5,
            16..=17 => 6,
            18 => 7,
            _ => 8,
        }];
        log.push_str(&format!("; {} in {}", name, SCENES[m.scene]));
        c.input(std::mem::take(&mut log));
        match name {
            "tab" => {
                let k = c.rng.below(3);
                select(c, d, m, k)?
            }
            "mode" => choose(c, d, m)?,
            "slide" => slide(c, d, m)?,
            "toggle" => toggle(c, d, m)?,
            "settings" => settings(c, d, m)?,
            "drag" => drag(c, d, m)?,
            "zoom" => zoom(c, d, m)?,
            "fit" => fit_view(c, d, m, true)?,
            _ => {
                d.size = vec2(c.rng.range(700.0, 1700.0).round() as f32, c.rng.range(500.0, 1000.0).round() as f32);
                d.idle(4)?;
                m.view[m.scene] = None;
                c.ev("resizes", 1);
                fit_view(c, d, m, true)?;
            }
        }
        verify(c, d, m, name)?;
        c.nontrivial();
    }
    c.input(m.text());
    Ok(())
}

/// arbitrary events: the application stays alive and paints finite geometry
fn garbage(c: &mut Case) -> R {
    let size = vec2(c.rng.range(200.0, 1700.0).round() as f32, c.rng.range(150.0, 1000.0).round() as f32);
    let mut d = Drv::new(size);
    c.input(format!("window {:?}", size));
    d.idle(2)?;
    let n = c.rng.int(20, 80);
    let mut pos = pos2(100.0, 100.0);
    for _ in 0..n {
        let mut ev = vec![];
        for _ in 0..c.rng.below(4) {
            if c.rng.chance(0.3) && !d.nodes.is_empty() {
                let k = c.rng.below(d.nodes.len());
                pos = d.nodes[k].rect.center();
            } else if c.rng.chance(0.3) {
                let marks: Vec<P> = look(&d).ok().flatten().map(|q| q.marks.iter().map(|k| k.c).collect()).unwrap_or_default();
                if !marks.is_empty() {
                    let q = marks[c.rng.below(marks.len())];
                    pos = pos2(q.x as f32, q.y as f32);
                }
            } else if c.rng.chance(0.5) {
                pos = pos2(c.rng.range(-50.0, size.x as f64 + 50.0) as f32, c.rng.range(-50.0, size.y as f64 + 50.0) as f32);
            }
            let button = c.rng.pick(&[PointerButton::Primary, PointerButton::Primary, PointerButton::Primary, PointerButton::Secondary, PointerButton::Middle]);
            let mut pressed = c.rng.chance(0.5);
            // the several polylines stay as they are: repeated offsets of polylines dragged over
            // each other are not for the library and take for ever
            let several = d.find(Some(Role::Button), SCENES[2]).and_then(|n| n.on) == Some(true);
            let tab = d.nodes.iter().any(|n| n.role == Role::Button && n.rect.contains(pos));
            // so do many repeated offsets of a polyline that crosses itself
            let slider = d.nodes.iter().any(|n| matches!(n.role, Role::Slider | Role::SpinButton) && n.rect.expand(3.0).contains(pos));
            if several && pressed && !tab || slider {
                pressed = false;
            }
            ev.push(match c.rng.below(12) {
                0..=3 => Event::PointerMoved(pos),
                4..=7 => Event::PointerButton { pos, button, pressed, modifiers: Modifiers::NONE },
                8 => Event::MouseWheel { unit: egui::MouseWheelUnit::Line, delta: vec2(c.rng.range(-3.0, 3.0) as f32, c.rng.range(-30.0, 30.0) as f32), modifiers: if c.rng.chance(0.5) { Modifiers::CTRL } else { Modifiers::NONE } },
                9 => Event::Zoom(c.rng.logrange(0.05, 20.0) as f32),
                10 => Event::PointerGone,
                _ => Event::Key { key: c.rng.pick(&[egui::Key::Tab, egui::Key::Space, egui::Key::Enter, egui::Key::Escape]), physical_key: None, pressed, repeat: false, modifiers: Modifiers::NONE },
            });
        }
        if c.rng.chance(0.05) {
            d.size = vec2(c.rng.range(1.0, 1700.0).round() as f32, c.rng.range(1.0, 1000.0).round() as f32);
        }
        let before = marks_of(&d.shapes);
        c.ev("garbage_events", ev.len() as u64);
        c.input(format!("{:?}", ev));
        let t0 = std::time::Instant::now();
        d.step(ev)?;
        if t0.elapsed().as_secs_f64() > 0.5 {
            break;
        }
        for s in &d.shapes {
            let Err(e) = collect(std::slice::from_ref(&s.shape)) else { continue };
            // polylines that repeat a position or overlap are not for the library; results show
            // what the drawing was one frame ago
            let close = |marks: &[P]| (0..marks.len()).any(|i| (0..i).any(|j| marks[i].dist(marks[j]) < 1.0));
            if close(&marks_of(&d.shapes)) || close(&before) {
                c.ev("coincident_vertexes", 1);
            } else {
                c.soft("garbage_without_position", Fail { kind: "mesh".into(), msg: e });
            }
            c.ev("garbage_histories", 1);
            return Ok(());
        }
    }
    c.ev("garbage_histories", 1);
    c.nontrivial();
    c.ev("frames", d.frames);
    Ok(())
}

pub fn property() -> Property {
    let cl = |name, quick, thorough, f| Class { name, quick, thorough, f };
    Property {
        id: "C33",
        rule: "the app driven by histories of input; nontrivial: operations after the first screen",
        classes: vec![cl("history", 800, 12000, history as fn(&mut Case) -> R), cl("garbage", 1500, 60000, garbage)],
        floors: vec![
            ("states_compared", 4000),
            ("curve_points", 5000000),
            ("vertex_drags", 500),
            ("pans", 200),
            ("zooms", 300),
            ("tabs", 600),
            ("modes", 300),
            ("slides", 400),
            ("toggles", 150),
            ("fitted", 1000),
            ("furniture_checks", 150),
            ("furniture_hidden", 50),
            ("fill_inside", 10000),
            ("garbage_events", 40000),
        ],
        rates: vec![("fill_deviations", "fills", 1e-2), ("garbage_without_position", "garbage_histories", 5e-3)],
    }
}
