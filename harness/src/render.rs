//! dmm-tools: rendering maps.
use crate::objtree::{errors, parse};
use crate::symx::*;
use dm::Context;
use dm::constants::Constant;
use dm::objtree::ObjectTree;
use dmm_tools::dmm::{Key, Map, Prefab};
use dmm_tools::IconCache;
use dmm_tools::minimap;
use std::sync::RwLock;

fn key_of(k: u16) -> Key {
    unsafe { std::mem::transmute::<u16, Key>(k) }
}

// 6 x 6 pixels, each 2 x 3 icon: state "a", state "b" to the south, north, east and west, state ""
const ICON: &[u8] = include_bytes!("icon.dmi");
fn pixel(x: u32, y: u32) -> [u8; 4] {
    [10 + x as u8, 100 + y as u8, (x * 7 + y * 3) as u8, 255]
}

// ---------------------------------------------------------------------------- C43

struct Drawn {
    tile: (i32, i32),
    place: (i32, i32),
    plane: i32,
    layer: f32,
    from: (u32, u32),
}

/// Two objects on a map of 2 x 2 tiles.
/// Params: which of the variables vary (0: where, 1: what shifts them, 2: what orders them), whether all of them do for the second.
pub fn map() {
    let path = file(ICON);
    let icon = path.to_str().unwrap().to_owned();
    let icons = IconCache::default();
    let loaded = icons.retrieve_shared(&path);
    check("icon", loaded.is_some());
    let ctx = Context::default();
    let tree: ObjectTree = parse(&ctx, false, || {
        format!(
            "/atom\n\tvar/icon\n\tvar/icon_state = \"\"\n\tvar/dir = 2\n\tvar/layer = 1\n\tvar/plane = 0\n\tvar/color\n\tvar/alpha = 255\n\tvar/pixel_x = 0\n\tvar/pixel_y = 0\n\tvar/pixel_w\n\tvar/pixel_z\n\tvar/step_x\n\tvar/step_y\n\
/turf\n\tparent_type = /atom\n\tlayer = 2\n\ticon = '{icon}'\n\
/obj\n\tparent_type = /atom\n\tlayer = 3\n\tpixel_x = 5\n\tnone\n\
/obj/a\n\ticon = '{icon}'\n\ticon_state = \"a\"\n/obj/a/b\n\ticon_state = \"b\"\n\tlayer = 2.5\n"
        )
    });
    check("parsed", errors(&ctx) == 0);
    let (what, full) = (param(0), param(1) == 1);
    let mut grid: [[[Vec<Prefab>; 2]; 2]; 2] = Default::default();
    let mut drawn: Vec<(Drawn, bool)> = Vec::new();
    let level = if what == 0 { choice(2) } else { 1 };
    for n in 0..2 {
        let (tx, ty) = if what == 0 { (choice(2), choice(2)) } else { (if what == 1 { choice(2) } else { 0 }, 0) };
        let t = if what == 1 && n == 0 { 2 - choice(2) } else { choice(if what == 0 { 5 } else if n == 0 { 2 } else { 3 }) };
        let mut fab = Prefab::from_path(["/obj/a", "/obj/a/b", "/turf", "/obj/none", "/obj/unknown"][t]);
        let mut set = |name: &str, v: f32| {
            fab.vars.insert(name.to_owned(), Constant::Float(v));
        };
        let (mut x, mut y) = (if t == 2 { 0 } else { 5 }, 0);
        if what == 1 && (n == 0 || full) {
            // other icons reach over here
            let xs = [0, -1, 33, -7, 63, 70];
            let v = choice(xs.len() as u8 + 1);
            if v > 0 {
                x = xs[v - 1];
                set("pixel_x", x as f32);
            }
            y = [0, 61, -2, 30, -3][if n == 0 { choice(5) } else { choice(2) }];
            if y != 0 {
                set(["pixel_y", "pixel_z"][choice(2)], y as f32);
            }
            let more = ["", "step_x", "pixel_w"][if full || v < 2 { choice(3) } else { 0 }];
            if !more.is_empty() {
                x += 1;
                set(more, 1.0);
            }
        }
        let mut layer = [3.0, 2.5, 2.0, 3.0, 3.0][t];
        let mut plane = 0;
        let mut dir = 2;
        if what == 2 {
            let v = choice(if n == 0 || full { 5 } else { 2 });
            if v > 0 {
                layer = [2.5, 2.75, -1.0, 3.0][v - 1];
                set("layer", layer);
            }
            let v = choice(4);
            if v > 0 {
                plane = [-2, 1, 0][v - 1];
                set("plane", plane as f32);
            }
            let v = choice(if n == 0 || full { 5 } else { 2 });
            if v > 0 {
                dir = [1, 4, 8, 2][v - 1];
                set("dir", dir as f32);
            }
        }
        let from = match (t, dir) {
            (0, _) => (0, 0),
            (1, 2) => (2, 0),
            (1, 1) => (4, 0),
            (1, 4) => (0, 3),
            (1, _) => (2, 3),
            _ => (4, 3),
        };
        grid[level][ty][tx].push(fab);
        drawn.push((Drawn { tile: (tx as i32, ty as i32), place: (x, y), plane, layer, from }, t < 3));
    }
    // the other level has other things
    let other = 1 - level;
    grid[other][0][0].push(Prefab::from_path("/turf"));
    let mut m = Map::with_empty_dictionary(2, 2, 2);
    let mut next = 1;
    for z in 0..2 {
        for y in 0..2 {
            for x in 0..2 {
                let fabs = std::mem::take(&mut grid[z][y][x]);
                m.grid[(z, 1 - y, x)] = if fabs.is_empty() {
                    m.dictionary.entry(key_of(0)).or_default();
                    key_of(0)
                } else {
                    m.dictionary.insert(key_of(next), fabs);
                    next += 1;
                    key_of(next - 1)
                };
            }
        }
    }
    // the part that is drawn
    let parts: &[(usize, usize, usize, usize)] = &[(0, 0, 1, 1), (0, 0, 0, 1), (1, 0, 1, 0), (0, 1, 1, 1)];
    let (x0, y0, x1, y1) = parts[choice(if what == 2 { 1 } else { 4 })];
    let failed = RwLock::new(Default::default());
    let bump = bumpalo::Bump::new();
    let image = minimap::generate(
        minimap::Context {
            objtree: &tree,
            map: &m,
            level: m.z_level(level),
            min: (x0, y0),
            max: (x1, y1),
            render_passes: &[],
            errors: &failed,
            bump: &bump,
            print_errors: false,
        },
        &icons,
    );
    let Ok(image) = image else {
        check("drawn", false);
        return;
    };
    let (w, h) = ((x1 - x0 + 1) as i32 * 32, (y1 - y0 + 1) as i32 * 32);
    check("size", image.width == w as u32 && image.height == h as u32);
    // what is drawn, from the farthest to the nearest
    let mut list: Vec<&Drawn> = drawn.iter().filter(|d| d.1).map(|d| &d.0).collect();
    list.retain(|d| d.tile.0 >= x0 as i32 && d.tile.0 <= x1 as i32 && d.tile.1 >= y0 as i32 && d.tile.1 <= y1 as i32);
    if list.len() == 2 {
        let (a, b) = (list[0], list[1]);
        // nothing says which of two tiles comes first
        assume(a.tile == b.tile || a.plane != b.plane || a.layer != b.layer);
        if (b.plane, b.layer) < (a.plane, a.layer) {
            list.swap(0, 1);
        }
    }
    let mut want = vec![[0u8; 4]; (w * h) as usize];
    for d in list {
        for dy in 0..3i32 {
            for dx in 0..2i32 {
                let px = (d.tile.0 - x0 as i32) * 32 + d.place.0 + dx;
                let py = h - (d.tile.1 - y0 as i32) * 32 - d.place.1 - 3 + dy;
                if px >= 0 && px < w && py >= 0 && py < h {
                    want[(py * w + px) as usize] = pixel(d.from.0 + dx as u32, d.from.1 + dy as u32);
                }
            }
        }
    }
    let got = image.data.as_slice().unwrap();
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| [g.r, g.g, g.b, g.a] == *w);
    check("pixels", same);
    let bad = m.dictionary.values().flatten().any(|f| f.path == "/obj/unknown");
    check("reported", failed.read().unwrap().is_empty() != bad);
    reach(if got.iter().any(|g| g.a != 0) { "drawn" } else { "blank" });
}

// What a pass does to the objects it is for.
#[derive(Clone, Copy, PartialEq)]
enum Act {
    Nothing,
    ByPath,
    Early,
    Replace,
    More,
    Raise,
    Blank,
    Around,
    Beside,
    Instead,
    Late,
    BySprite,
}
const ACTS: [Act; 12] = [Act::Nothing, Act::ByPath, Act::Early, Act::Replace, Act::More, Act::Raise, Act::Blank, Act::Around, Act::Beside, Act::Instead, Act::Late, Act::BySprite];
/// A pass that does one thing, to objects of one type or of every type.
struct Probe {
    act: Act,
    on: &'static str,
    shift: i32,
}
impl Probe {
    fn is(&self, act: Act, atom: &Atom) -> bool {
        self.act == act && atom.istype(self.on)
    }
}
fn shifted<'a>(s: &Sprite<'a>, state: &'a str, y: i32) -> Sprite<'a> {
    Sprite { icon_state: state, ofs_y: s.ofs_y + y, ..s.clone() }
}
impl RenderPass for Probe {
    fn path_filter(&self, path: &str) -> bool {
        !(self.act == Act::ByPath && path.starts_with(self.on))
    }
    fn early_filter(&self, atom: &Atom, _: &ObjectTree) -> bool {
        !self.is(Act::Early, atom)
    }
    fn expand<'a>(&self, atom: &Atom<'a>, tree: &'a ObjectTree, output: &mut Vec<Atom<'a>>) -> bool {
        if self.is(Act::Replace, atom) || self.is(Act::More, atom) {
            output.push(Atom::from(tree.find("/obj/s").unwrap()));
        }
        !self.is(Act::Replace, atom)
    }
    fn adjust_sprite<'a>(&self, atom: &Atom<'a>, sprite: &mut Sprite<'a>, _: &'a ObjectTree, _: &'a bumpalo::Bump) {
        if self.is(Act::Raise, atom) {
            sprite.layer = (4 + self.shift).into();
        }
        if self.is(Act::Blank, atom) {
            sprite.icon = "";
        }
    }
    fn overlays<'a>(&self, atom: &Atom<'a>, _: &'a ObjectTree, under: &mut Vec<Sprite<'a>>, over: &mut Vec<Sprite<'a>>, _: &'a bumpalo::Bump) {
        if self.is(Act::Around, atom) {
            under.push(shifted(&atom.sprite, "", 1 + self.shift));
            over.push(shifted(&atom.sprite, "b", 2 + self.shift));
        }
    }
    fn neighborhood_appearance<'a>(&self, atom: &Atom<'a>, _: &'a ObjectTree, n: &Neighborhood<'a, '_>, output: &mut Vec<Sprite<'a>>, _: &'a bumpalo::Bump) -> bool {
        if self.is(Act::Beside, atom) || self.is(Act::Instead, atom) {
            let here = n.center().len() as i32;
            let east = n.offset(dmm_tools::dmi::Dir::East).len() as i32;
            output.push(shifted(&atom.sprite, "", -here - 4 * east));
        }
        !self.is(Act::Instead, atom)
    }
    fn late_filter(&self, atom: &Atom, _: &ObjectTree) -> bool {
        !self.is(Act::Late, atom)
    }
    fn sprite_filter(&self, sprite: &Sprite) -> bool {
        !(self.act == Act::BySprite && sprite.icon_state == ["b", "a"][self.shift as usize])
    }
}

/// Two passes, each doing one of twelve things to two objects on a tile and one beside them.
pub fn order() {
    let path = file(ICON);
    let icon = path.to_str().unwrap().to_owned();
    let icons = IconCache::default();
    check("icon", icons.retrieve_shared(&path).is_some());
    let ctx = Context::default();
    let tree: ObjectTree = parse(&ctx, false, || {
        format!(
            "/atom\n\tvar/icon\n\tvar/icon_state = \"\"\n\tvar/dir = 2\n\tvar/layer = 3\n\tvar/plane = 0\n\tvar/color\n\tvar/alpha = 255\n\tvar/pixel_x = 0\n\tvar/pixel_y = 10\n\tvar/pixel_w\n\tvar/pixel_z\n\tvar/step_x\n\tvar/step_y\n\
/obj\n\tparent_type = /atom\n\ticon = '{icon}'\n/obj/a\n\ticon_state = \"a\"\n/obj/b\n\ticon_state = \"b\"\n\tpixel_x = 1\n/obj/s\n\ticon_state = \"a\"\n\tpixel_y = 8\n"
        )
    });
    check("parsed", errors(&ctx) == 0);
    let acts = [(ACTS[choice(12)], ["/obj/a", "/obj"][choice(2)]), (ACTS[choice(12)], ["/obj/a", "/obj/s"][choice(2)])];
    let mut m = Map::with_empty_dictionary(2, 1, 1);
    let tiles = [if choice(2) == 0 { ["/obj/a", "/obj/b"] } else { ["/obj/b", "/obj/a"] }.to_vec(), vec!["/obj/a"]];
    for (x, t) in tiles.iter().enumerate() {
        m.dictionary.insert(key_of(x as u16), t.iter().map(|p| fab(p)).collect());
        m.grid[(0, 0, x)] = key_of(x as u16);
    }
    let passes: Vec<Box<dyn RenderPass>> = acts.iter().enumerate().map(|(i, (act, on))| Box::new(Probe { act: *act, on, shift: i as i32 }) as _).collect();
    let failed = RwLock::new(Default::default());
    let bump = bumpalo::Bump::new();
    let image = minimap::generate(
        minimap::Context { objtree: &tree, map: &m, level: m.z_level(0), min: (0, 0), max: (0, 0), render_passes: &passes, errors: &failed, bump: &bump, print_errors: false },
        &icons,
    );
    let Ok(image) = image else {
        check("drawn", false);
        return;
    };
    let on = |i: usize, act: Act, t: &str| acts[i].0 == act && t.starts_with(acts[i].1);
    // what stands on the tiles
    let stand: Vec<Vec<&str>> = tiles
        .iter()
        .map(|t| {
            let mut out = Vec::new();
            'fab: for p in t {
                if (0..2).any(|i| on(i, Act::ByPath, p) || on(i, Act::Early, p)) {
                    continue;
                }
                for i in 0..2 {
                    if on(i, Act::Replace, p) {
                        out.push("/obj/s");
                        continue 'fab;
                    }
                    if on(i, Act::More, p) {
                        out.push("/obj/s");
                    }
                }
                out.push(*p);
            }
            out
        })
        .collect();
    // layer, state, x, y
    let mut draw: Vec<(i32, &str, i32, i32)> = Vec::new();
    for t in &stand[0] {
        if (0..2).any(|i| on(i, Act::Late, t) || on(i, Act::Blank, t)) {
            continue;
        }
        let layer = if on(1, Act::Raise, t) { 5 } else if on(0, Act::Raise, t) { 4 } else { 3 };
        let (state, x, y) = match *t {
            "/obj/a" => ("a", 0, 10),
            "/obj/b" => ("b", 1, 10),
            _ => ("a", 0, 8),
        };
        for i in 0..2 {
            if on(i, Act::Around, t) {
                draw.push((layer, "", x, y + 1 + i as i32));
            }
        }
        for i in 0..2 {
            if on(i, Act::Beside, t) || on(i, Act::Instead, t) {
                draw.push((layer, "", x, y - stand[0].len() as i32 - 4 * stand[1].len() as i32));
            }
        }
        if !(0..2).any(|i| on(i, Act::Instead, t)) {
            draw.push((layer, state, x, y));
        }
        for i in 0..2 {
            if on(i, Act::Around, t) {
                draw.push((layer, "b", x, y + 2 + i as i32));
            }
        }
    }
    draw.retain(|d| !(acts[0].0 == Act::BySprite && d.1 == "b" || acts[1].0 == Act::BySprite && d.1 == "a"));
    draw.sort_by_key(|d| d.0);
    let mut want = vec![[0u8; 4]; 1024];
    for (_, state, x, y) in &draw {
        let from = match *state {
            "a" => (0, 0),
            "b" => (2, 0),
            _ => (4, 3),
        };
        for dy in 0..3 {
            for dx in 0..2 {
                let (px, py) = (x + dx, 32 - y - 3 + dy);
                if (0..32).contains(&px) && (0..32).contains(&py) {
                    want[(py * 32 + px) as usize] = pixel(from.0 + dx as u32, from.1 + dy as u32);
                }
            }
        }
    }
    let got = image.data.as_slice().unwrap();
    check("pixels", got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| [g.r, g.g, g.b, g.a] == *w));
    check("reported", failed.read().unwrap().is_empty());
    reach(if draw.is_empty() { "blank" } else { "drawn" });
}

// ---------------------------------------------------------------------------- C44

use dmm_tools::minimap::{Atom, Neighborhood, Sprite};
use dmm_tools::render_passes::*;

const ATOMS: &str = "/atom\n\tvar/icon\n\tvar/icon_state = \"\"\n\tvar/dir = 2\n\tvar/layer = 1\n\tvar/plane = 0\n\tvar/color\n\tvar/alpha = 255\n\tvar/pixel_x = 0\n\tvar/pixel_y = 0\n\tvar/pixel_w = 0\n\tvar/pixel_z = 0\n\tvar/invisibility = 0\n\
/atom/movable\n\tvar/step_x = 0\n\tvar/step_y = 0\n/turf\n\tparent_type = /atom\n/area\n\tparent_type = /atom\n/obj\n\tparent_type = /atom/movable\n/mob\n\tparent_type = /atom/movable\n";

fn fab(path: &str) -> Prefab {
    Prefab::from_path(path)
}
fn set(f: &mut Prefab, name: &str, v: Constant) {
    f.vars.insert(name.to_owned(), v);
}
fn text(s: &str) -> Constant {
    Constant::string(s.to_owned())
}
fn list(v: Vec<Constant>) -> Constant {
    Constant::List(v.into_iter().map(|k| (k, None)).collect::<Vec<_>>().into())
}

/// The nine cells around, from the northwest: what stands there.
const AROUND: [(i32, i32); 9] = [(-1, 1), (0, 1), (1, 1), (-1, 0), (0, 0), (1, 0), (-1, -1), (0, -1), (1, -1)];
fn cell(o: (i32, i32)) -> usize {
    AROUND.iter().position(|a| *a == o).unwrap()
}
fn around(f: &dyn Fn((i32, i32)) -> bool) -> [bool; 9] {
    let mut r = [false; 9];
    for i in 0..9 {
        r[i] = f(AROUND[i]);
    }
    // a corner counts when both sides next to it do
    for (x, y) in [(-1, 1), (1, 1), (-1, -1), (1, -1)] {
        r[cell((x, y))] &= r[cell((x, 0))] && r[cell((0, y))];
    }
    r
}

/// Params: subsystem (0: 2016, 1: 2020, 2: 2025), fewer ways to join.
pub fn smooth() {
    let (system, few) = (param(0), param(1) == 1);
    let ctx = Context::default();
    let tree = parse(&ctx, false, || {
        format!(
            "{ATOMS}/atom\n\tvar/smooth = 0\n\tvar/list/canSmoothWith\n\tvar/smoothing_flags = 0\n\tvar/list/smoothing_groups\n\tvar/base_icon_state = \"base\"\n\tvar/smooth_icon\n\tvar/list/fixed_underlay\n\tvar/post_init_icon_state\n\tvar/can_be_unanchored = 0\n\tvar/anchored = 0\n\
/turf/open/space/basic\n\ticon_state = \"space\"\n/turf/open/floor\n\tvar/broken = 0\n\tvar/burnt = 0\n/turf/open/floor/plating\n\ticon_state = \"plating\"\n/turf/open/floor/other\n/turf/closed/wall/w\n/turf/closed/wall/w/sub\n/turf/closed/wall/wx\n/turf/closed/rock\n/obj/table\n/obj/table/sub\n/obj/other\n"
        )
    });
    check("parsed", errors(&ctx) == 0);
    let kinds = ["/turf/closed/wall/w", "/obj/table", "/turf/closed/rock", "/turf/open/floor/other"];
    let kind = kinds[choice(if few { 2 } else { 4 })];
    let mut source = fab(kind);
    set(&mut source, "icon", text("own.dmi"));
    // a side of the map is beyond it as a whole
    let edges = [(false, 0, 0), (true, 0, 1), (false, 1, 0), (true, -1, -1), (true, 1, 0), (true, 0, -1), (true, 0, 0), (false, 1, 1), (false, 0, -1), (true, 1, -1)];
    let (border, ex, ey) = edges[choice(if few { 3 } else { 10 })];
    let diagonal = choice(2) == 1;
    let icon = if few { border } else { choice(2) == 1 };
    if icon {
        set(&mut source, "smooth_icon", text("smooth.dmi"));
    }
    // the way the source joins others
    let more = system == 0 && choice(2) == 1;
    let bitmask = system > 0 && (system == 2 || choice(2) == 1);
    let lists = choice(2) == 1;
    let flags = match system {
        0 => if more { 2 } else { 1 },
        1 => if bitmask { 2 } else { 1 },
        _ => 1,
    } + if diagonal { 4 } else { 0 } + if border { 8 } else { 0 };
    set(&mut source, if system == 0 { "smooth" } else { "smoothing_flags" }, Constant::Float(flags as f32));
    if lists {
        let l = if system == 0 { vec![text("/obj/other"), text(kind)] } else { vec![text("g1"), text("g2")] };
        set(&mut source, "canSmoothWith", list(l));
    }
    // what stands in the cells which have something to join
    let subs = ["/turf/closed/wall/w/sub", "/obj/table/sub", "/turf/closed/rock", "/turf/open/floor/other"];
    let sub = subs[kinds.iter().position(|k| *k == kind).unwrap()];
    let (there, joins) = if !lists {
        match choice(2) {
            0 => (fab(kind), true),
            _ => (fab("/turf/closed/wall/wx"), false),
        }
    } else if system == 0 {
        match choice(4) {
            0 => (fab(kind), true),
            1 => (fab("/obj/other"), true),
            2 => (fab(sub), more || sub == kind),
            _ => (fab("/turf/closed/wall/wx"), false),
        }
    } else {
        let mut f = fab(["/obj/other", kind][if few { 0 } else { choice(2) }]);
        match choice(if few { 3 } else { 4 }) {
            0 => {
                set(&mut f, "smoothing_groups", list(vec![text("g0"), text("g2")]));
                (f, true)
            }
            1 => {
                set(&mut f, "smoothing_groups", list(vec![text("g1")]));
                (f, true)
            }
            2 => {
                set(&mut f, "smoothing_groups", list(vec![text("g3"), text("g")]));
                (f, false)
            }
            _ => (f, false),
        }
    };
    let mut loose = false;
    if system > 0 && kind == "/obj/table" {
        let (c, a) = (choice(2), choice(2));
        set(&mut source, "can_be_unanchored", Constant::Float(c as f32));
        set(&mut source, "anchored", Constant::Float(a as f32));
        loose = c == 1 && a == 0;
    }
    let broken = kind == "/turf/open/floor/other" && choice(2) == 1;
    if broken {
        set(&mut source, ["broken", "burnt"][choice(2)], Constant::Float(1.0));
    }
    let made = system == 2 && choice(2) == 1;
    if made {
        set(&mut source, "post_init_icon_state", text("x"));
    }
    let space = diagonal && if few { border } else { choice(2) == 1 };
    if space {
        set(&mut source, "fixed_underlay", Constant::List(vec![(text("space"), Some(Constant::Float(1.0)))].into()));
    }
    // 0: beyond the map, 1: something else, 2: something to join
    let mut what = [2usize; 9];
    for i in 0..9 {
        let (x, y) = AROUND[i];
        if i == 4 {
            continue;
        }
        what[i] = if ex != 0 && x == ex || ey != 0 && y == ey { 0 } else { 1 + choice(2) };
    }
    let mut fabs: Vec<Vec<Prefab>> = Vec::new();
    for i in 0..9 {
        let mut floor = fab("/turf/open/floor");
        set(&mut floor, "icon_state", text(["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8"][i]));
        fabs.push(match what[i] {
            0 => vec![],
            1 => vec![floor],
            _ if i == 4 => vec![source.clone()],
            // half of them on a floor
            _ if i % 2 == 0 && there.path.starts_with("/obj") => vec![floor, there.clone()],
            _ => vec![there.clone()],
        });
    }
    let atoms: Vec<Vec<Atom>> = fabs.iter().map(|c| c.iter().map(|f| Atom::from_prefab(&tree, f).unwrap()).collect()).collect();
    let mut atom = Atom::from_prefab(&tree, &source).unwrap();
    atom.sprite = Sprite::from_vars(&tree, &atom);
    let near = Neighborhood::new(std::array::from_fn(|i| &atoms[i][..]));
    let bump = bumpalo::Bump::new();
    let mut out = Vec::new();
    let normal = match system {
        0 => IconSmoothing2016::default().neighborhood_appearance(&atom, &tree, &near, &mut out, &bump),
        1 => IconSmoothing::default().neighborhood_appearance(&atom, &tree, &near, &mut out, &bump),
        _ => IconSmoothing2025::default().neighborhood_appearance(&atom, &tree, &near, &mut out, &bump),
    };

    let j = around(&|o| o != (0, 0) && !loose && match what[cell(o)] {
        0 => border,
        1 => false,
        _ => joins,
    });
    let at = |x, y| j[cell((x, y))];
    let (n, s, e, w) = (at(0, 1), at(0, -1), at(1, 0), at(-1, 0));
    // two sides that meet at a corner, and no others: the way to that corner
    let corner = if n as u8 + s as u8 == 1 && e as u8 + w as u8 == 1 { Some((if e { 1 } else { -1 }, if n { 1 } else { -1 })) } else { None };
    let mut want: Vec<String> = Vec::new();
    let under = |want: &mut Vec<String>| {
        let (cx, cy) = corner.unwrap();
        // away from the corner, then a step to the left and to the right of that
        let away = (-cx, -cy);
        let dirs = if away.0 == away.1 {
            // northeast, southwest
            [away, (0, away.1), (away.0, 0)]
        } else {
            [away, (away.0, 0), (0, away.1)]
        };
        if space {
            want.push("space".into());
            return;
        }
        for d in dirs {
            for f in &fabs[cell(d)] {
                if f.path.starts_with("/turf/open/") {
                    want.push(match f.vars.get("icon_state") {
                        Some(c) => c.as_str().unwrap().to_owned(),
                        None => String::new(),
                    });
                    return;
                }
            }
        }
        want.push("plating".into());
    };
    let wall = kind.starts_with("/turf/closed/wall");
    let mut own = false;
    let mut own_under = 0;
    if bitmask {
        let bits: i32 = [(n, 1), (s, 2), (e, 4), (w, 8), (at(1, 1), 16), (at(1, -1), 32), (at(-1, -1), 64), (at(-1, 1), 128)].iter().filter(|b| b.0).map(|b| b.1).sum();
        let slanted = diagonal && kind.starts_with("/turf/closed") && corner.is_some();
        // nothing says whether a wall with one neighbor is slanted
        assume(!(diagonal && kind.starts_with("/turf/closed") && n as u8 + s as u8 + e as u8 + w as u8 == 1));
        if broken {
            own = true;
        } else {
            if slanted {
                under(&mut want);
                own_under = 1;
            }
            if made {
                own = true;
            } else {
                want.push(format!("base-{bits}{}", if slanted { "-d" } else { "" }));
            }
        }
    } else if diagonal && corner.is_some() {
        if wall {
            under(&mut want);
            own_under = 1;
        }
        let (cx, cy) = corner.unwrap();
        let name = format!("d-{}{}", if cy > 0 { "s" } else { "n" }, if cx > 0 { "w" } else { "e" });
        want.push(name.clone());
        want.push(format!("{name}-{}", at(cx, cy) as u8));
    } else {
        for (i, (x, y)) in [(-1, 1), (1, 1), (-1, -1), (1, -1)].into_iter().enumerate() {
            let (v, h) = (at(0, y), at(x, 0));
            let (vn, hn) = (if y > 0 { "n" } else { "s" }, if x > 0 { "e" } else { "w" });
            let state = match (v, h) {
                (true, true) if at(x, y) => "f".to_owned(),
                (true, true) => format!("{vn}{hn}"),
                (true, false) => vn.to_owned(),
                (false, true) => hn.to_owned(),
                (false, false) => "i".to_owned(),
            };
            want.push(format!("{}-{state}", i + 1));
        }
    }
    check("own_appearance", normal == own);
    let got: Vec<&str> = out.iter().map(|s| s.icon_state).collect();
    if got != want {
        note(format!("{got:?} {want:?} {what:?} {source:?} {there:?}").as_bytes());
    }
    check("states", got == want);
    check("icons", out[own_under..].iter().all(|s| s.icon == if icon { "smooth.dmi" } else { "own.dmi" }));
    reach(if own { "own" } else if corner.is_some() { "corner" } else { "joined" });
}

/// Power cables and transit tubes.
pub fn cables() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || format!("{ATOMS}/obj/structure/cable\n\tvar/cable_layer = \"l2\"\n/obj/structure/cable/sub\n/obj/structure/cable/multilayer\n/obj/structure/cablex\n/obj/structure/grille\n/obj/structure/cable_bridge\n/obj/machinery/power/terminal\n/obj/machinery/power/smes/sub\n/obj/machinery/power/other\n/obj/machinery/powered\n"));
    check("parsed", errors(&ctx) == 0);
    let layers = ["l1", "l2"];
    let source = choice(3);
    let own = (source > 0) as usize;
    let mut source = fab(["/obj/structure/cable/sub", "/obj/structure/cable", "/obj/structure/cable/sub"][source]);
    if own == 0 {
        set(&mut source, "cable_layer", text("l1"));
    }
    let mut fabs: Vec<Vec<Prefab>> = vec![Vec::new(); 9];
    let over = ["", "/obj/machinery/power/terminal", "/obj/machinery/power/smes/sub", "/obj/structure/grille", "/obj/structure/cable_bridge", "/obj/machinery/power/other", "/obj/machinery/powered"][choice(7)];
    fabs[4].push(source.clone());
    if !over.is_empty() {
        fabs[4].push(fab(over));
    }
    let terminal = over == "/obj/machinery/power/terminal";
    let smes = over == "/obj/machinery/power/smes/sub";
    let mut bits = Vec::new();
    let machine = choice(9);
    for (o, bit) in [((0, 1), 1), ((0, -1), 2), ((1, 0), 4), ((-1, 0), 8)] {
        let cable = choice(3);
        let cable = if cable == 0 { if bit > 2 { 0 } else { 3 } } else { cable };
        let on = if machine > 0 && 1 << ((machine - 1) / 2) == bit { 1 + machine % 2 } else { 0 };
        let c = &mut fabs[cell(o)];
        match cable {
            0 => {}
            1 | 2 => {
                let mut f = fab("/obj/structure/cable");
                if cable == 1 {
                    set(&mut f, "cable_layer", text("l1"));
                }
                c.push(f);
            }
            _ => c.push(fab("/obj/structure/cablex")),
        }
        match on {
            0 => {}
            1 => c.insert(0, fab("/obj/machinery/power/terminal")),
            _ => c.push(fab("/obj/machinery/power/smes/sub")),
        }
        let apart = smes && on == 1 || terminal && on == 2;
        if cable == own + 1 && !apart {
            bits.push(bit);
        }
    }
    // the corners do not matter
    for o in [(-1, 1), (1, 1), (-1, -1), (1, -1)] {
        fabs[cell(o)].push(source.clone());
    }
    let atoms: Vec<Vec<Atom>> = fabs.iter().map(|c| c.iter().map(|f| Atom::from_prefab(&tree, f).unwrap()).collect()).collect();
    let mut atom = Atom::from_prefab(&tree, &source).unwrap();
    atom.sprite = Sprite::from_vars(&tree, &atom);
    let near = Neighborhood::new(std::array::from_fn(|i| &atoms[i][..]));
    let bump = bumpalo::Bump::new();
    let mut out = Vec::new();
    let normal = SmartCables.neighborhood_appearance(&atom, &tree, &near, &mut out, &bump);
    check("own_appearance", !normal && out.len() == 1);
    let mut want = layers[own].to_owned();
    if bits.is_empty() {
        want.push_str("-noconnection");
    }
    for b in &bits {
        want.push_str(&format!("-{b}"));
    }
    if bits.len() > 1 && !over.is_empty() && over != "/obj/machinery/powered" {
        want.push_str("-node");
    }
    if out[0].icon_state != want {
        note(format!("{:?} {want:?} {fabs:?}", out[0].icon_state).as_bytes());
    }
    check("state", out[0].icon_state == want);
    let multi = fab("/obj/structure/cable/multilayer");
    let mut out = Vec::new();
    let normal = SmartCables.neighborhood_appearance(&Atom::from_prefab(&tree, &multi).unwrap(), &tree, &near, &mut out, &bump);
    check("others", normal && out.is_empty());
    reach("ok");
}

/// Transit tubes: each kind turns with its direction.
pub fn tubes() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || format!("{ATOMS}/obj/structure/transit_tube/station/reverse\n/obj/structure/transit_tube/junction/flipped\n/obj/structure/transit_tube/curved/flipped\n/obj/structure/transit_tube/diagonal\n/obj/structure/transit_tubes\n"));
    check("parsed", errors(&ctx) == 0);
    // where each leads when it faces north, as offsets
    let kinds: [(&str, &[(i32, i32)]); 9] = [
        ("", &[(0, 1), (0, -1)]),
        ("/station", &[(1, 0), (-1, 0)]),
        ("/station/reverse", &[(1, 0)]),
        ("/junction", &[(0, 1), (1, -1), (-1, -1)]),
        ("/junction/flipped", &[(0, 1), (-1, -1), (1, -1)]),
        ("/curved", &[(0, 1), (-1, -1)]),
        ("/curved/flipped", &[(0, 1), (1, -1)]),
        ("/diagonal", &[(1, 1), (-1, -1)]),
        ("s", &[]),
    ];
    let (kind, leads) = kinds[choice(9)];
    let dirs = [1, 4, 2, 8];
    let turns = choice(4);
    let mut f = fab(&format!("/obj/structure/transit_tube{kind}"));
    set(&mut f, "dir", Constant::Float(dirs[turns] as f32));
    set(&mut f, "icon", text("tube.dmi"));
    set(&mut f, "layer", Constant::Float(3.5));
    let mut atom = Atom::from_prefab(&tree, &f).unwrap();
    atom.sprite = Sprite::from_vars(&tree, &atom);
    let bump = bumpalo::Bump::new();
    let (mut under, mut over) = (Vec::new(), Vec::new());
    TransitTube.overlays(&atom, &tree, &mut under, &mut over, &bump);
    check("under", under.is_empty());
    let mut want: Vec<(i32, &str, i32, i32)> = Vec::new();
    for &(x, y) in leads {
        let (mut x, mut y) = (x, y);
        for _ in 0..turns {
            (x, y) = (y, -x);
        }
        let dir = |x: i32, y: i32| (if y > 0 { 1 } else if y < 0 { 2 } else { 0 }) + (if x > 0 { 4 } else if x < 0 { 8 } else { 0 });
        if x == 0 || y == 0 {
            want.push((dir(x, y), "decorative", 0, 0));
        } else if y > 0 {
            // the tube runs through the tiles beside the corner
            want.push((dir(x, -y), "decorative_diag", 0, 32));
            want.push((dir(-x, y), "decorative_diag", 32 * x, 0));
        }
    }
    let mut got: Vec<(i32, &str, i32, i32)> = over.iter().map(|s| (s.dir.to_int(), s.icon_state, s.ofs_x, s.ofs_y)).collect();
    got.sort();
    want.sort();
    // a tube with two ends may be listed once for both ways it can face
    if got != want {
        note(format!("{kind} {turns} {got:?} {want:?}").as_bytes());
    }
    check("overlays", got == want);
    check("look", over.iter().all(|s| s.icon == "tube.dmi" && s.layer == 3.5.into() && s.plane == 0));
    reach("ok");
}

// ---------------------------------------------------------------------------- C45

const NAMES: [(&str, [u8; 3]); 19] = [
    ("black", [0, 0, 0]),
    ("silver", [0xc0, 0xc0, 0xc0]),
    ("gray", [0x80, 0x80, 0x80]),
    ("grey", [0x80, 0x80, 0x80]),
    ("white", [255, 255, 255]),
    ("maroon", [0x80, 0, 0]),
    ("red", [255, 0, 0]),
    ("purple", [0x80, 0, 0x80]),
    ("fuchsia", [255, 0, 255]),
    ("magenta", [255, 0, 255]),
    ("green", [0, 0xc0, 0]),
    ("lime", [0, 255, 0]),
    ("olive", [0x80, 0x80, 0]),
    ("gold", [0x80, 0x80, 0]),
    ("yellow", [255, 255, 0]),
    ("navy", [0, 0, 0x80]),
    ("blue", [0, 0, 255]),
    ("teal", [0, 0x80, 0x80]),
    ("aqua", [0, 255, 255]),
];

/// Any number is where it should be in the sprite; any text is a color or white.
/// Params: 0: numbers, 1: colors; length of the text.
pub fn values() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || format!("{ATOMS}/obj/a\n\ticon = 'a.dmi'\n\ticon_state = \"s\"\n"));
    check("parsed", errors(&ctx) == 0);
    let mut f = fab("/obj/a");
    if param(0) == 0 {
        let n = || any_u16() as i16 as i32;
        let which = choice(3);
        let (x, y) = if which == 0 { (n(), n()) } else { (0, 9) };
        let (xn, yn) = [("pixel_x", "pixel_y"), ("pixel_w", "pixel_z"), ("step_x", "step_y")][choice(3)];
        set(&mut f, xn, Constant::Float(x as f32));
        set(&mut f, yn, Constant::Float(y as f32));
        let (mut ox, mut oy) = (x, y);
        if choice(2) == 1 {
            for (name, v) in [("pixel_x", 3), ("pixel_y", 5), ("pixel_w", 7), ("pixel_z", 11), ("step_x", 13), ("step_y", 17)] {
                if name != xn && name != yn {
                    set(&mut f, name, Constant::Float(v as f32));
                }
            }
            ox += 3 + 7 + 13 - match xn { "pixel_x" => 3, "pixel_w" => 7, _ => 13 };
            oy += 5 + 11 + 17 - match yn { "pixel_y" => 5, "pixel_z" => 11, _ => 17 };
        }
        let (plane, alpha) = if which == 1 { (n(), n()) } else { (-1, 7) };
        let dir = if which == 2 { n() } else { 8 };
        set(&mut f, "plane", Constant::Float(plane as f32));
        set(&mut f, "alpha", Constant::Float(alpha as f32));
        set(&mut f, "dir", Constant::Float(dir as f32));
        let atom = Atom::from_prefab(&tree, &f).unwrap();
        let s = Sprite::from_vars(&tree, &atom);
        check("offset", (s.ofs_x == ox) & (s.ofs_y == oy));
        check("plane", s.plane == plane);
        check("alpha", s.color[3] as i32 == if (alpha >= 0) & (alpha <= 255) { alpha } else { 255 });
        check("tint", s.color[..3] == [255, 255, 255]);
        let known = (dir >= 1) & (dir <= 10) & (dir != 3) & (dir != 7);
        check("dir", s.dir.to_int() == if known { dir } else { 2 });
        check("icon", s.icon == "a.dmi" && s.icon_state == "s");
    } else if param(0) == 2 {
        // long texts
        let n = choice(12) as usize + 4;
        let d = any_u8();
        assume(d.is_ascii_hexdigit());
        let c: String = std::iter::once('#').chain((0..n).map(|i| if i % 5 == 0 { d as char } else { 'f' })).collect();
        set(&mut f, "color", Constant::string(c));
        let atom = Atom::from_prefab(&tree, &f).unwrap();
        let got = Sprite::from_vars(&tree, &atom).color;
        check("white", n == 6 || got == [255; 4]);
    } else {
        let n = param(1) as usize;
        let mut t = vec![b'#'];
        t.extend(raw(n));
        assume(t.iter().all(|c| *c < 128));
        let c = String::from_utf8(t.clone()).unwrap();
        set(&mut f, "color", Constant::string(c));
        let atom = Atom::from_prefab(&tree, &f).unwrap();
        let got = Sprite::from_vars(&tree, &atom).color;
        let hex = |c: u8| match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => 16,
        };
        let d: Vec<u8> = t[1..].iter().map(|c| hex(*c)).collect();
        if n == 6 || n == 3 {
            if d.iter().all(|d| *d < 16) {
                let step = n / 3;
                for i in 0..3 {
                    check("color", got[i] == if step == 2 { d[2 * i] * 16 + d[2 * i + 1] } else { d[i] * 17 });
                }
            }
        } else {
            check("white", got[..3] == [255, 255, 255]);
        }
        check("opaque", got[3] == 255);
    }
    reach("ok");
}

/// A variable is that of the entry on the map, or of the nearest type that sets it.
pub fn inherited() {
    let ctx = Context::default();
    let levels = ["/obj", "/obj/a", "/obj/a/b"];
    let vars = ["icon_state", "dir", "layer", "color", "pixel_x"];
    let v = choice(5);
    let name = vars[v];
    // for each level: nothing, a value, null
    let set_at: Vec<usize> = (0..4).map(|_| choice(3)).collect();
    let value = |i: usize| match v {
        0 => ["\"s0\"", "\"s1\"", "\"s2\"", "\"s3\""][i],
        1 => ["1", "4", "8", "5"][i],
        2 => ["2.5", "3.5", "-1", "4.25"][i],
        3 => ["\"red\"", "\"#00ff80\"", "\"#0f8\"", "\"navy\""][i],
        _ => ["1", "-2", "33", "-64"][i],
    };
    let tree = parse(&ctx, false, || {
        let mut t = ATOMS.to_owned();
        for i in 0..3 {
            t.push_str(levels[i]);
            t.push('\n');
            match set_at[i] {
                0 => {}
                1 => t.push_str(&format!("\t{name} = {}\n", value(i))),
                _ => t.push_str(&format!("\t{name} = null\n")),
            }
        }
        t.push_str("/obj/ab\n\ticon_state = \"no\"\n\tdir = 6\n\tlayer = 9\n\tcolor = \"teal\"\n\tpixel_x = 99\n");
        t
    });
    check("parsed", errors(&ctx) == 0);
    let mut f = fab(levels[2]);
    match set_at[3] {
        0 => {}
        1 => {
            let c = value(3);
            set(&mut f, name, if c.starts_with('"') { text(c.trim_matches('"')) } else { Constant::Float(c.parse().unwrap()) });
        }
        _ => set(&mut f, name, Constant::null().clone()),
    }
    let nearest = set_at.iter().rposition(|s| *s > 0);
    let found = match nearest {
        Some(i) if set_at[i] == 1 => Some(i),
        _ => None,
    };
    let atom = Atom::from_prefab(&tree, &f).unwrap();
    let by_type = set_at[3] == 0;
    for how in 0..3 {
        let s = match how {
            0 => Sprite::from_vars(&tree, &atom),
            1 => Sprite::from_vars(&tree, &&f),
            _ if by_type => Sprite::from_vars(&tree, &tree.expect(levels[2])),
            _ => continue,
        };
        match v {
            0 => check("icon_state", s.icon_state == found.map_or("", |i| ["s0", "s1", "s2", "s3"][i])),
            1 => check("dir", s.dir.to_int() == found.map_or(2, |i| [1, 4, 8, 5][i])),
            2 => {
                // what is not set has the layer of objects, what is no number that of turfs
                let want = found.map_or(if nearest.is_none() { 3.0 } else { 2.0 }, |i| [2.5, 3.5, -1.0, 4.25][i]);
                check("layer", s.layer == want.into());
            }
            3 => check("color", s.color == found.map_or([255; 4], |i| [[255, 0, 0, 255], [0, 255, 128, 255], [0, 255, 136, 255], [0, 0, 128, 255]][i])),
            _ => check("pixel_x", s.ofs_x == found.map_or(0, |i| [1, -2, 33, -64][i])),
        }
    }
    reach("ok");
}

/// The named colors.
pub fn named_colors() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || format!("{ATOMS}/obj/a\n"));
    let (name, rgb) = NAMES[choice(19)];
    let mut f = fab("/obj/a");
    let mut c = name.as_bytes().to_vec();
    let exact = choice(2) == 1;
    if !exact {
        // one letter is another
        let i = choice(c.len() as u8);
        let other = any_u8();
        assume((other >= b'a') & (other <= b'z') & (other != c[i]));
        c[i] = other;
        assume(!NAMES.iter().any(|(n, _)| n.as_bytes() == c));
    }
    let alpha = any_u8();
    set(&mut f, "alpha", Constant::Float(alpha as f32));
    set(&mut f, "color", Constant::string(String::from_utf8(c).unwrap()));
    let atom = Atom::from_prefab(&tree, &f).unwrap();
    let got = Sprite::from_vars(&tree, &atom).color;
    let want = if exact { rgb } else { [255, 255, 255] };
    check("color", got[..3] == want);
    check("alpha", got[3] == alpha);
    reach("ok");
}

// ---------------------------------------------------------------------------- C46

use dm::config::MapRenderer;

/// Which passes are run, by the lists given, the configuration and what is usual.
pub fn passes() {
    let p = &RENDER_PASSES[choice(RENDER_PASSES.len() as u8)];
    let mut config = MapRenderer::default();
    let lists: [&[&str]; 7] = [&[], &[p.name], &["all"], &["no-such-pass"], &["all", p.name], &["no-such-pass", p.name], &["no-such-pass", "all"]];
    let (i, e) = (choice(7), choice(7));
    let c = choice(3);
    if c > 0 {
        config.render_passes.insert(p.name.to_owned(), c == 1);
    }
    let has = |l: &[&str], n: &str| l.contains(&n);
    let mut want = 0;
    for q in RENDER_PASSES {
        let own = q.name == p.name;
        let on = if own && has(lists[i], p.name) {
            true
        } else if own && has(lists[e], p.name) {
            false
        } else if has(lists[i], "all") {
            true
        } else if has(lists[e], "all") {
            false
        } else if own && c > 0 {
            c == 1
        } else {
            q.default
        };
        want += on as usize;
    }
    check("list", configure_list(&config, lists[i], lists[e]).len() == want);
    check("text", configure(&config, &lists[i].join(","), &lists[e].join(",")).len() == want);
    reach("ok");
}

/// What is hidden, and on which layer the rest is.
pub fn filters() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || {
        format!(
            "{ATOMS}/area/a\n/turf/open/space/basic\n/turf/open/spacex\n/turf/open/floor/plating/p\n/turf/open/floor/wood\n/turf/closed/wall\n/turf/closed/mineral/m\n/turf/template_noop\n/obj/effect/turf_decal/d\n/obj/effect/mapping_helpers/h\n/obj/effect/mapping_helpersx\n/obj/structure/disposalpipe/x\n/obj/structure/cable/c\n/obj/structure/lattice\n/obj/machinery/atmospherics/pipe/simple/hidden\n/obj/machinery/atmospherics/pipe/simple/visible/v\n/obj/machinery/power/terminal\n/obj/machinery/navbeacon/n\n/obj/item/toy/syndicateballoon\n/obj/item/other\n/mob/m\n"
        )
    });
    check("parsed", errors(&ctx) == 0);
    // path, layer in the game
    const PATHS: [(&str, Option<f32>); 21] = [
        ("/area/a", None),
        ("/turf/open/space/basic", Some(-10.0)),
        ("/turf/open/spacex", Some(-10.0)),
        ("/turf/open/floor/plating/p", Some(-10.0)),
        ("/turf/open/floor/wood", Some(-2.0)),
        ("/turf/closed/wall", Some(-2.0)),
        ("/turf/closed/mineral/m", Some(-3.0)),
        ("/turf/template_noop", Some(-10.0)),
        ("/obj/effect/turf_decal/d", Some(-1.0)),
        ("/obj/effect/mapping_helpers/h", None),
        ("/obj/effect/mapping_helpersx", None),
        ("/obj/structure/disposalpipe/x", Some(-6.0)),
        ("/obj/structure/cable/c", Some(-4.0)),
        ("/obj/structure/lattice", Some(-8.0)),
        ("/obj/machinery/atmospherics/pipe/simple/hidden", Some(-5.0)),
        ("/obj/machinery/atmospherics/pipe/simple/visible/v", None),
        ("/obj/machinery/power/terminal", Some(-3.5)),
        ("/obj/machinery/navbeacon/n", Some(-3.0)),
        ("/obj/item/toy/syndicateballoon", None),
        ("/obj/item/other", None),
        ("/mob/m", None),
    ];
    let (path, usual) = PATHS[choice(21)];
    let mut f = fab(path);
    let own = any_u8() as i8;
    let own = own as f32;
    set(&mut f, "layer", Constant::Float(own));
    set(&mut f, "plane", Constant::Float(own));
    let unseen = any_u8() as i8 as f32;
    set(&mut f, "invisibility", Constant::Float(unseen));
    let balloon = choice(2) == 1;
    if balloon {
        set(&mut f, "icon", Constant::Resource("icons/obj/items_and_weapons.dmi".into()));
        set(&mut f, "icon_state", text("syndballoon"));
    }
    // what the configuration says of two paths: the whole path, one it is in, one it looks like being in
    let parent = &path[..path.rfind('/').unwrap()];
    let cut = &path[..path.len() - 1];
    let below = format!("{path}/x");
    let given = [(path, true), (parent, true), (cut, false), (&below[..], false)];
    let mut config = MapRenderer::default();
    let (a, b) = (choice(5), choice(5));
    assume(!cut.ends_with('/') || a != 2 && b != 2);
    let slash = choice(2) == 1;
    let mut best: Option<(usize, f32)> = None;
    for (i, v) in [(a, 10.5), (b, -20.25)] {
        if i < 4 {
            assume(given[i].0.len() > 1);
            let mut k = given[i].0.to_owned();
            if slash {
                k.push('/');
            }
            config.hide_invisible.push(k.clone());
            config.fancy_layers.insert(k, v);
            if given[i].1 && best.is_none_or(|(n, _)| given[i].0.len() >= n) {
                best = Some((given[i].0.len(), v));
            }
        }
    }
    assume(a != b || a == 4);
    let atom = Atom::from_prefab(&tree, &f).unwrap();

    check("areas", HideAreas.path_filter(path) == !path.starts_with("/area/"));
    check("space", HideSpace.late_filter(&atom, &tree) == (path != "/turf/open/space/basic"));
    let mut hide = HideInvisible::default();
    hide.configure(&config);
    let hidden = best.is_some() || unseen > 60.0 || path == "/obj/effect/mapping_helpers/h" || balloon && path != "/obj/item/toy/syndicateballoon";
    check("invisible", hide.early_filter(&atom, &tree) == !hidden);
    let mut layers = FancyLayers::default();
    layers.configure(&config);
    let mut s = Sprite::from_vars(&tree, &atom);
    let bump = bumpalo::Bump::new();
    layers.adjust_sprite(&atom, &mut s, &tree, &bump);
    let want = match best {
        Some((_, v)) => v,
        None => usual.unwrap_or(own),
    };
    check("layer", s.layer == want.into());
    check("plane", s.plane == 0);
    let (wire, pipe) = (path == "/obj/structure/cable/c", path.starts_with("/obj/machinery/atmospherics/pipe"));
    check("only", Wires.late_filter(&atom, &tree) == wire && Pipes.late_filter(&atom, &tree) == pipe && WiresAndPipes.late_filter(&atom, &tree) == (wire || pipe));
    reach(if hidden { "hidden" } else { "shown" });
}
