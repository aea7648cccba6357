//! C50: what is drawn with an object, and what stands in for it.
use crate::objtree::{errors, parse};
use crate::rules2::Cases;
use crate::symx::*;
use dm::Context;
use dm::constants::{Constant, Pop};
use dm::objtree::ObjectTree;
use dmm_tools::dmm::Prefab;
use dmm_tools::minimap::{Atom, GetVar, Sprite};
use dmm_tools::render_passes::{GravityGen, Overlays, Pretty, RenderPass, Spawners};

const TREE: &str = "/atom\n\tvar/icon\n\tvar/icon_state = \"\"\n\tvar/dir = 2\n\tvar/layer = 1\n\tvar/plane = 0\n\tvar/color\n\tvar/alpha = 255\n\tvar/pixel_x = 0\n\tvar/pixel_y = 0\n\tvar/pixel_w = 0\n\tvar/pixel_z = 0\n\
/atom/movable\n\tvar/step_x = 0\n\tvar/step_y = 0\n/turf\n\tparent_type = /atom\n/obj\n\tparent_type = /atom/movable\n\
/obj/structure/closet/crate/large\n/obj/structure/closet/crates\n/obj/structure/closet/secure\n/obj/structure/closets\n/obj/machinery/computer/a\n/obj/machinery/computers\n/obj/machinery/power/solar_control\n\
/obj/machinery/door/airlock/a\n/obj/machinery/door/airlocks\n/obj/machinery/power/apc/a\n/obj/machinery/power/apcs\n/obj/machinery/power/terminal\n\ticon = 'power.dmi'\n\ticon_state = \"term\"\n\tplane = 5\n\tpixel_x = 7\n\
/turf/closed/indestructible/fakeglass\n/turf/closed/indestructible/fake\n/obj/item/storage/box/b\n/obj/item/storage/box/papersack/p\n/obj/item/storage/boxes\n/obj/machinery/firealarm\n/obj/structure/tank_dispenser/t\n\
/obj/structure/bookcase\n/obj/machinery/gravity_generator/main/station\n/obj/machinery/gravity_generator/part\n\ticon = 'gravity.dmi'\n\tpixel_x = 3\n\tplane = 4\n\tlayer = 3\n\tdir = 8\n\
/obj/effect/spawner/structure/window\n/obj/effect/spawner/structures\n/obj/a\n/obj/a/b\n";

/// A value for a variable: none, or one of these.
#[derive(Clone, Copy, PartialEq)]
enum V {
    Unset,
    Null,
    Num(i32),
    Str(&'static str),
    File(&'static str),
}
use V::*;
const FLAG: [V; 3] = [Unset, Num(1), Num(0)];

struct Vars(Vec<(&'static str, V)>);
impl Vars {
    fn get(&self, n: &str) -> V {
        self.0.iter().find(|v| v.0 == n).map_or(Unset, |v| v.1)
    }
    fn on(&self, n: &str) -> bool {
        match self.get(n) {
            Unset | Null | Num(0) | Str("") => false,
            _ => true,
        }
    }
    fn text(&self, n: &str) -> Option<&'static str> {
        match self.get(n) {
            Str(s) => Some(s),
            _ => None,
        }
    }
    fn num(&self, n: &str) -> i32 {
        match self.get(n) {
            Num(i) => i,
            _ => 0,
        }
    }
    fn prefab(&self, path: &str) -> Prefab {
        let mut f = Prefab::from_path(path);
        for &(n, v) in &self.0 {
            let v = match v {
                Unset => continue,
                Null => Constant::Null(None),
                Num(i) => Constant::Float(i as f32),
                Str(s) => Constant::string(s.to_owned()),
                File(s) => Constant::Resource(s.into()),
            };
            f.vars.insert(n.to_owned(), v);
        }
        f
    }
}

/// icon, state, pixels moved
type Look = (String, String, i32, i32);

fn own(s: &Sprite, state: &str) -> Look {
    (s.icon.to_owned(), state.to_owned(), 0, 0)
}

/// The overlays of an object, and what is under it.
fn expected(path: &str, v: &Vars, s: &Sprite) -> (Vec<Look>, Vec<Look>) {
    let (mut under, mut over) = (Vec::new(), Vec::new());
    let is = |p: &str| path == p || path.starts_with(&format!("{p}/"));
    if is("/obj/structure/closet/crate") {
        let open = v.on("opened");
        for (what, state) in [("broken", "securecrateemag"), ("locked", "securecrater"), ("secure", "securecrateg")] {
            if !open && v.on(what) {
                over.push(own(s, state));
                break;
            }
        }
        if v.on("welded") {
            over.push((s.icon.to_owned(), "welded".to_owned(), v.num("weld_w"), v.num("weld_z")));
        }
        if let (true, Some(lid)) = (open, v.text("lid_icon_state")) {
            let icon = match v.get("lid_icon") {
                File(f) => f,
                Str(f) => f,
                _ => s.icon,
            };
            over.push((icon.to_owned(), lid.to_owned(), v.num("lid_w"), v.num("lid_z")));
        }
    } else if is("/obj/structure/closet") {
        if v.on("enable_door_overlay") {
            if v.on("opened") {
                let door = if v.on("icon_door_override") { "icon_door" } else { "icon_state" };
                if let Some(d) = v.text(door) {
                    over.push(own(s, &format!("{d}_open")));
                }
            } else {
                let door = match v.get("icon_door") {
                    Unset | Null => "icon_state",
                    _ => "icon_door",
                };
                if let (true, Some(d)) = (v.on("has_closed_overlay"), v.text(door)) {
                    over.push(own(s, &format!("{d}_door")));
                }
                if v.on("welded") {
                    over.push(own(s, "welded"));
                }
                if v.on("secure") && !v.on("broken") {
                    over.push(own(s, if v.on("locked") { "locked" } else { "unlocked" }));
                }
            }
        }
    } else if is("/obj/machinery/computer") || is("/obj/machinery/power/solar_control") {
        for n in ["icon_screen", "icon_keyboard"] {
            over.extend(v.text(n).map(|t| own(s, t)));
        }
    } else if is("/obj/machinery/door/airlock") {
        if v.on("glass") {
            if let Str(f) | File(f) = v.get("overlays_file") {
                over.push((f.to_owned(), "glass_closed".to_owned(), 0, 0));
            }
        } else if v.on("can_be_glass") {
            over.push(own(s, "fill_closed"));
        }
    } else if is("/turf/closed/indestructible/fakeglass") {
        under.push(("icons/turf/floors.dmi".to_owned(), "plating".to_owned(), 0, 0));
        under.push(("icons/obj/structures.dmi".to_owned(), "grille".to_owned(), 0, 0));
    } else if is("/obj/item/storage/box") && !is("/obj/item/storage/box/papersack") {
        over.extend(v.text("illustration").map(|t| own(s, t)));
    } else if is("/obj/machinery/firealarm") {
        over.push(own(s, "fire_overlay"));
        over.push(own(s, "fire_disabled"));
    }
    (under, over)
}

/// Every object with overlays, with every combination of the variables they depend on.
pub fn overlays() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || TREE.to_owned());
    check("parsed", errors(&ctx) == 0);
    const KINDS: [&[&str]; 6] = [
        &["/obj/structure/closet/crate", "/obj/structure/closet/crate/large"],
        &["/obj/structure/closet/secure", "/obj/structure/closet", "/obj/structure/closet/crates"],
        &["/obj/machinery/computer/a", "/obj/machinery/power/solar_control", "/obj/machinery/computers"],
        &["/obj/machinery/door/airlock/a", "/obj/machinery/door/airlocks"],
        &["/obj/item/storage/box/b", "/obj/item/storage/box/papersack/p", "/obj/item/storage/boxes", "/obj/item/storage/box"],
        &["/turf/closed/indestructible/fakeglass", "/turf/closed/indestructible/fake", "/obj/machinery/firealarm", "/obj/structure/closets", "/obj/a"],
    ];
    const SHIFT: [V; 2] = [Unset, Num(-5)];
    const DOOR: [V; 4] = [Unset, Null, Str("d"), Num(3)];
    let kind = choice(6);
    let path = KINDS[kind][choice(KINDS[kind].len() as u8)];
    let mut c = Cases::new(2);
    loop {
        let mut pick = |n: &'static str, of: &[V]| (n, of[c.pick(of.len())]);
        let mut vars = match kind {
            0 => vec![
                pick("opened", &FLAG),
                pick("welded", &[Num(1), Unset]),
                pick("broken", &[Num(0), Num(1)]),
                pick("locked", &[Unset, Str("x")]),
                pick("secure", &[Unset, Num(1)]),
                pick("lid_icon_state", &[Str("lid"), Unset, Num(1)]),
                pick("lid_icon", &[Unset, Null, File("lids.dmi")]),
                pick("weld_w", &SHIFT),
                pick("lid_z", &SHIFT),
            ],
            1 => vec![
                pick("opened", &FLAG),
                pick("enable_door_overlay", &[Num(1), Num(0)]),
                pick("icon_door_override", &[Unset, Num(1)]),
                pick("icon_door", &DOOR),
                pick("has_closed_overlay", &[Num(1), Unset]),
                pick("welded", &[Unset, Num(1)]),
                pick("secure", &[Num(1), Unset]),
                pick("broken", &[Unset, Num(1)]),
                pick("locked", &[Unset, Num(1)]),
            ],
            2 => vec![pick("icon_screen", &DOOR), pick("icon_keyboard", &[Str("k"), Null])],
            3 => vec![pick("glass", &FLAG), pick("can_be_glass", &FLAG), pick("overlays_file", &[Unset, File("over.dmi"), Null])],
            4 => vec![pick("illustration", &DOOR)],
            _ => vec![],
        };
        vars.extend([("icon", File("own.dmi")), ("icon_state", Str("st")), ("layer", Num(3)), ("plane", Num(-2)), ("dir", Num(4)), ("color", Str("#f00")), ("pixel_x", Num(9)), ("weld_z", Num(4)), ("lid_w", Num(6))]);
        let vars = Vars(vars);
        let f = vars.prefab(path);
        let mut atom = Atom::from_prefab(&tree, &f).unwrap();
        let bump = bumpalo::Bump::new();
        let mut s = Sprite::from_vars(&tree, &atom);
        Overlays.adjust_sprite(&atom, &mut s, &tree, &bump);
        Pretty.adjust_sprite(&atom, &mut s, &tree, &bump);
        check("unmoved", s.ofs_x == 9 && s.ofs_y == 0 && s.icon_state == "st");
        atom.sprite = s;
        let (mut under, mut over) = (Vec::new(), Vec::new());
        Overlays.overlays(&atom, &tree, &mut under, &mut over, &bump);
        Pretty.overlays(&atom, &tree, &mut under, &mut over, &bump);
        let (wu, wo) = expected(path, &vars, &atom.sprite);
        let looks = |v: &[Sprite]| -> Vec<Look> { v.iter().map(|s| (s.icon.to_owned(), s.icon_state.to_owned(), s.ofs_x - 9, s.ofs_y)).collect() };
        if looks(&over) != wo || looks(&under) != wu {
            note(format!("{path} {:?} want {wo:?} got {:?}", f.vars, looks(&over)).as_bytes());
        }
        check("over", looks(&over) == wo);
        check("under", looks(&under) == wu);
        check("look", over.iter().chain(&under).all(|s| s.layer == 3.into() && s.plane == -2 && s.dir.to_int() == 4 && s.color == [255, 0, 0, 255]));
        reach(if wo.is_empty() { "none" } else { "some" });
        if !c.next() {
            break;
        }
    }
}

fn no_vars(path: &str, dir: i32) -> Prefab {
    Vars(vec![("icon", File("own.dmi")), ("icon_state", Str("st")), ("layer", Num(3)), ("plane", Num(-2)), ("dir", Num(dir)), ("pixel_x", Num(9)), ("pixel_y", Num(-6))]).prefab(path)
}

/// Power controllers, tank dispensers, bookcases and gravity generators.
pub fn machines() {
    let ctx = Context::default();
    let tree = parse(&ctx, false, || TREE.to_owned());
    check("parsed", errors(&ctx) == 0);
    let bump = bumpalo::Bump::new();
    let (mut under, mut over) = (Vec::new(), Vec::new());
    let states = |v: &[Sprite]| -> Vec<(String, i32, i32)> { v.iter().map(|s| (s.icon_state.to_owned(), s.ofs_x, s.ofs_y)).collect() };
    match choice(4) {
        0 => {
            let dir = [1, 2, 4, 8, 5, 0][choice(6)];
            let path = ["/obj/machinery/power/apc/a", "/obj/machinery/power/apcs"][choice(2)];
            let f = no_vars(path, dir);
            let mut atom = Atom::from_prefab(&tree, &f).unwrap();
            let mut s = Sprite::from_vars(&tree, &atom);
            Overlays.adjust_sprite(&atom, &mut s, &tree, &bump);
            let at = match dir {
                1 => (9, 23),
                2 => (9, -23),
                4 => (24, -6),
                8 => (-25, -6),
                _ => (9, -6),
            };
            let is = path.ends_with("/a");
            check("apc_place", (s.ofs_x, s.ofs_y) == if is { at } else { (9, -6) });
            atom.sprite = s;
            Overlays.overlays(&atom, &tree, &mut under, &mut over, &bump);
            if is {
                check("apc_lights", states(&over) == ["apcox-1", "apco3-2", "apco0-3", "apco1-3", "apco2-3"].map(|t| (t.to_owned(), at.0, at.1)));
                check("apc_terminal", under.len() == 1 && under[0].icon == "power.dmi" && under[0].icon_state == "term" && under[0].dir == atom.sprite.dir && under[0].layer == (-3.5).into() && under[0].plane == 0 && (under[0].ofs_x, under[0].ofs_y) == (7, 0));
            } else {
                check("apc_not", under.is_empty() && over.is_empty());
            }
        }
        1 => {
            let path = ["/obj/structure/tank_dispenser/t", "/obj/structure/tank_dispenser", "/obj/machinery/power/terminal"][choice(3)];
            let mut f = no_vars(path, 2);
            let (o, p) = (any_u8() as i8, any_u8() as i8);
            f.vars.insert("oxygentanks".to_owned(), Constant::Float(o as f32));
            f.vars.insert("plasmatanks".to_owned(), Constant::Float(p as f32));
            let mut atom = Atom::from_prefab(&tree, &f).unwrap();
            atom.sprite = Sprite::from_vars(&tree, &atom);
            Pretty.overlays(&atom, &tree, &mut under, &mut over, &bump);
            let mut want = Vec::new();
            if path != "/obj/machinery/power/terminal" {
                for (name, n, most) in [("oxygen", o, 4), ("plasma", p, 5)] {
                    for k in 1..=most {
                        if n == k || n > k && k == most {
                            want.push((format!("{name}-{k}"), 9, -6));
                        }
                    }
                }
            }
            check("tanks", states(&over) == want && under.is_empty());
        }
        2 => {
            let path = ["/obj/structure/bookcase", "/obj/a"][choice(2)];
            let f = no_vars(path, 2);
            let atom = Atom::from_prefab(&tree, &f).unwrap();
            let mut s = Sprite::from_vars(&tree, &atom);
            Pretty.adjust_sprite(&atom, &mut s, &tree, &bump);
            check("books", s.icon_state == if path == "/obj/a" { "st" } else { "book-0" });
            check("books_place", s.icon == "own.dmi" && (s.ofs_x, s.ofs_y) == (9, -6));
        }
        _ => {
            let path = ["/obj/machinery/gravity_generator/main/station", "/obj/machinery/gravity_generator/main", "/obj/machinery/gravity_generator/part"][choice(3)];
            let f = no_vars(path, 2);
            let mut atom = Atom::from_prefab(&tree, &f).unwrap();
            atom.sprite = Sprite::from_vars(&tree, &atom);
            GravityGen.overlays(&atom, &tree, &mut under, &mut over, &bump);
            let mut want = Vec::new();
            if path.contains("/main") {
                // three rows from the top, each from the right, the machine itself below the middle
                for n in (1..=9).filter(|n| *n != 8) {
                    let at = (3 + 32 * (1 - (n - 1) % 3), 32 * (2 - (n - 1) / 3));
                    want.push((format!("on_{n}"), at.0, at.1));
                    if n == 5 {
                        want.push(("activated".to_owned(), at.0, at.1));
                    }
                }
            }
            check("gravity", states(&over) == want && under.is_empty());
            check("gravity_look", over.iter().all(|s| s.icon == "gravity.dmi" && s.plane == 0 && s.dir.to_int() == 8 && s.layer == if s.ofs_y == 64 { 4.25.into() } else { 3.into() }));
        }
    }
    reach("ok");
}

/// Spawners of structures.
pub fn spawners() {
    let ctx = Context::default();
    let tree: ObjectTree = parse(&ctx, false, || TREE.to_owned());
    check("parsed", errors(&ctx) == 0);
    let path = ["/obj/effect/spawner/structure/window", "/obj/effect/spawner/structure", "/obj/effect/spawner/structures", "/obj/a"][choice(4)];
    let mut f = no_vars(path, 2);
    let prefab = |p: &str| Constant::Prefab(Box::new(Pop::from_path_str(p)));
    let n = choice(5);
    let mut want = Vec::new();
    if n < 4 {
        let mut list = Vec::new();
        for _ in 0..n {
            match choice(5) {
                0 => {
                    list.push((Constant::string("/obj/a"), None));
                    want.push("/obj/a");
                }
                1 => {
                    list.push((Constant::string("/obj/a/b".to_owned()), Some(Constant::Float(2.0))));
                    want.push("/obj/a/b");
                }
                2 => {
                    list.push((prefab("/obj/a/b"), None));
                    want.push("/obj/a/b");
                }
                3 => {
                    list.push((prefab("/obj/structure/bookcase"), None));
                    want.push("/obj/structure/bookcase");
                }
                _ => list.push((Constant::Null(None), None)),
            }
        }
        f.vars.insert("spawn_list".to_owned(), Constant::List(list.into_boxed_slice()));
    }
    let atom = Atom::from_prefab(&tree, &f).unwrap();
    let mut out: Vec<Atom> = Vec::new();
    let stays = Spawners.expand(&atom, &tree, &mut out);
    let is = path.starts_with("/obj/effect/spawner/structure") && !path.ends_with('s');
    check("stays", stays == !(is && n < 4));
    let got: Vec<&str> = out.iter().map(|a| a.get_path()).collect();
    if is && n < 4 {
        check("spawned", got == want);
        check("plain", out.iter().all(|a| a.get_var("pixel_x", &tree) == &Constant::Float(0.0)));
    } else {
        check("untouched", got.is_empty());
    }
    reach("ok");
}
