//! dmm-tools and the DMI module: directions, coordinates, keys, sprite sheets, compositing, depth.
use crate::symx::*;
use dm::dmi::{Dir, Dirs, Metadata};
use dmm_tools::dmi::{Image, Rgba8};
use dmm_tools::dmm::{Coord2, Coord3, Key, Map};
use dmm_tools::minimap::Layer;

// ---------------------------------------------------------------------------- C05

fn rot(o: (i32, i32)) -> (i32, i32) {
    // a quarter turn clockwise with y pointing north
    (o.1, -o.0)
}

pub fn dirs() {
    let i = any_i32();
    let valid = i >= 1 && i <= 10 && i != 3 && i != 7;
    let d = match Dir::from_int(i) {
        None => {
            check("from_int", !valid);
            return;
        }
        Some(d) => d,
    };
    check("from_int", valid);
    check("to_int", d.to_int() == i);
    let bit = |b: i32| ((i & b) != 0) as i32;
    let want = (bit(4) - bit(8), bit(1) - bit(2));
    let o = d.offset();
    check("offset", o == want);
    check("flip", d.flip().offset() == (-o.0, -o.1));
    check("flip_ns", d.flip_ns().offset() == (o.0, -o.1));
    check("flip_ew", d.flip_ew().offset() == (-o.0, o.1));
    check("clockwise_90", d.clockwise_90().offset() == rot(o));
    check("counterclockwise_90", d.counterclockwise_90().offset() == rot(rot(rot(o))));
    check("clockwise_45", d.clockwise_45().clockwise_45().offset() == rot(o));
    check("counterclockwise_45", d.clockwise_45().counterclockwise_45() == d);
    check("counterclockwise_45", d.counterclockwise_45().clockwise_45() == d);
    // one step of 45 degrees is the neighbour on the circle: the two offsets are adjacent
    let p = d.clockwise_45().offset();
    check("clockwise_45", (p.0 - o.0).abs() + (p.1 - o.1).abs() == 1);
    check("diagonal", d.is_diagonal() == (o.0 != 0 && o.1 != 0));
    check("listed", Dir::ALL.contains(&d) && Dir::CARDINALS.contains(&d) != d.is_diagonal() && Dir::DIAGONALS.contains(&d) == d.is_diagonal());
    let j = any_i32();
    if let Some(e) = Dir::from_int(j) {
        check("contains", d.contains(e) == (i & j != 0));
    }
    let (x, y) = (any_u16() as i16 as i32, any_u16() as i16 as i32);
    let c = Coord2::new(x, y) + d;
    check("step", c == Coord2::new(x + want.0, y + want.1));
    log(d.clockwise_90().to_int() as u64);
    reach("dir");
}

// ---------------------------------------------------------------------------- C03

fn key_of(k: u16) -> Key {
    assert!(std::mem::size_of::<Key>() == 2);
    unsafe { std::mem::transmute::<u16, Key>(k) }
}
fn letter(v: u32) -> u8 {
    if v < 26 { b'a' + v as u8 } else { b'A' + (v - 26) as u8 }
}

/// Every dictionary key is written with the length its map needs and reads back as itself.
pub fn keys() {
    let k = any_u16();
    assume(k < 65535);
    let m = any_u16();
    assume((m >= k) & (m < 65535));
    let mut map = Map::with_empty_dictionary(1, 1, 1);
    map.dictionary.insert(key_of(m), Vec::new());
    map.adjust_key_length();
    let n = map.key_length() as usize;
    let want = if m < 52 { 1 } else if m < 2704 { 2 } else { 3 };
    check("key_length", n == want);
    let text = format!("{}", map.format_key(key_of(k)));
    let t = text.as_bytes();
    check("written_length", t.len() == n);
    let k = k as u32;
    let mut digits = [0u32; 3];
    digits[2] = k % 52;
    digits[1] = k / 52 % 52;
    digits[0] = k / 2704;
    for i in 0..n {
        check("digits", t[i] == letter(digits[3 - n + i]));
    }
    check("next", k == 65534 || key_of(k as u16).next() == key_of(k as u16 + 1));
    check("ordered", (key_of(m) >= key_of(k as u16)) == (m as u32 >= k));
    log(n as u64);
    reach("keys");
}

/// Coordinates: x grows east, y grows north, z grows up, all from 1.
pub fn coords() {
    let (nx, ny, nz) = (1 + choice(3), 1 + choice(3), 1 + choice(2));
    let mut map = Map::with_empty_dictionary(nx, ny, nz);
    check("dims", map.dim_xyz() == (nx, ny, nz) && map.dim_z() == nz);
    let val = |x: usize, y: usize, z: usize| (1 + x + 10 * y + 100 * z) as u16;
    for z in 0..nz {
        for row in 0..ny {
            for x in 0..nx {
                // storage is Z/Y/X with the top row first
                map.grid[(z, row, x)] = key_of(val(x, ny - 1 - row, z));
            }
        }
    }
    let (x, y, z) = (any_u8() as i32, any_u8() as i32, any_u8() as i32);
    assume((x >= 1) & (x <= nx as i32));
    assume((y >= 1) & (y <= ny as i32));
    assume((z >= 1) & (z <= nz as i32));
    let c = Coord3::new(x, y, z);
    check("coord", c.xy() == Coord2::new(x, y) && c.xy().z(z) == c);
    let want = key_of((1 + (x - 1) + 10 * (y - 1) + 100 * (z - 1)) as u16);
    check("index3", map[c] == want);
    check("index2", map.z_level(z as usize - 1)[c.xy()] == want);
    let mut levels = 0;
    for (lz, lev) in map.iter_levels() {
        levels += 1;
        check("levels", lz == levels);
        let mut seen = Vec::new();
        let mut prev: Option<Coord2> = None;
        for (p, k) in lev.iter_top_down() {
            check("top_down", p.x >= 1 && p.x <= nx as i32 && p.y >= 1 && p.y <= ny as i32 && !seen.contains(&p));
            check("top_down", k == key_of(val(p.x as usize - 1, p.y as usize - 1, lz as usize - 1)));
            check("top_down", k == lev[p] && k == map[p.z(lz)]);
            if let Some(q) = prev {
                check("top_down_order", (q.y == p.y && q.x + 1 == p.x) || (q.y == p.y + 1 && p.x == 1));
            } else {
                check("top_down_order", p == Coord2::new(1, ny as i32));
            }
            prev = Some(p);
            seen.push(p);
        }
        check("top_down", seen.len() == nx * ny);
    }
    check("levels", levels as usize == nz);
    reach("coords");
}

// ---------------------------------------------------------------------------- C04

fn digit(lo: u8, hi: u8) -> u8 {
    let x = any_u8();
    assume((x >= b'0' + lo) & (x <= b'0' + hi));
    x
}

/// Well-formed metadata: the states tile the sheet in order, every (direction, frame) has its own
/// sprite, and lookup by name finds the state it names.
pub fn sheet() {
    let n = 1 + choice(param(0) as u8);
    let mut text = b"# BEGIN DMI\nversion = 4.0\n\twidth = ".to_vec();
    let w = b"17"[choice(2)];
    let h = digit(1, 9);
    text.push(w);
    text.extend(b"\n\theight = ");
    text.push(h);
    text.push(b'\n');
    struct St {
        name: u8,
        dirs: usize,
        frames: usize,
        flags: [u8; 3],
        delays: [u8; 3],
    }
    let mut want = Vec::new();
    for _ in 0..n {
        let name = of(b"ab");
        text.extend(b"state = \"");
        text.push(name);
        text.extend(b"\"\n");
        let dirs = [1usize, 4, 8][choice(3)];
        text.extend(format!("\tdirs = {dirs}\n").bytes());
        let mut frames = 1;
        let mut delays = [1; 3];
        match choice(4) {
            0 => {}
            1 => {
                let d = digit(1, 3);
                frames = (d - b'0') as usize;
                text.extend(b"\tframes = ");
                text.push(d);
                text.push(b'\n');
            }
            2 => {
                // delays without a frame count
                text.extend(b"\tdelay = ");
                delays = [1 + choice(2) as u8, 1, 3];
                text.push(b'0' + delays[0]);
                text.extend(b",1,3\n");
                frames = 3;
            }
            _ => {
                // a stale delay list longer than the number of frames
                let d = digit(1, 3);
                frames = (d - b'0') as usize;
                text.extend(b"\tframes = ");
                text.push(d);
                text.extend(b"\n\tdelay = ");
                delays = [1 + choice(2) as u8, 1, 1];
                text.push(b'0' + delays[0]);
                text.extend(b",1,1\n");
            }
        }
        let flags = if want.is_empty() {
            let d = [digit(0, 1), digit(0, 1), digit(0, 9)];
            for (k, x) in [&b"\tmovement = "[..], b"\trewind = ", b"\tloop = "].iter().zip(d) {
                text.extend(*k);
                text.push(x);
                text.push(b'\n');
            }
            d
        } else {
            [b'0'; 3]
        };
        want.push(St { name, dirs, frames, flags, delays });
    }
    text.extend(b"# END DMI\n");
    note(&text);
    let text = unsafe { std::str::from_utf8_unchecked(&text) };
    let m = match Metadata::meta_from_str(text) {
        Ok(m) => m,
        Err(_) => {
            check("accepts", false);
            return;
        }
    };
    check("size", m.width == (w - b'0') as u32 && m.height == (h - b'0') as u32);
    check("states", m.states.len() == n);
    let mut offset = 0;
    for (i, st) in want.iter().enumerate() {
        let s = &m.states[i];
        check("name", s.name.len() == 1 && s.name.as_bytes()[0] == st.name);
        check("dirs", s.dirs.count() == st.dirs);
        check("frames", s.frames.count() == st.frames);
        check("offset", s.offset == offset);
        for k in 0..s.frames.count() {
            check("delay", s.frames.delay(k) == st.delays[k] as f32);
        }
        check("movement", s.movement == (st.flags[0] == b'1'));
        check("rewind", s.rewind == (st.flags[1] == b'1'));
        check("loop", s.loop_ as u32 == (st.flags[2] - b'0') as u32);
        check("sprites", s.num_sprites() == st.dirs * st.frames);
        offset += st.dirs * st.frames;
        let mut dup = 0;
        for k in 0..i {
            dup += (want[k].name == st.name) as u32;
        }
        check("duplicate", s.duplicate_index == dup);
        match m.get_icon_state(&s.get_state_name_index()) {
            Some(t) => check("lookup", std::ptr::eq(t, s)),
            None => check("lookup", false),
        }
    }
    check("missing", m.get_icon_state(&"zz".into()).is_none());
    // one sprite, anywhere
    let s = &m.states[choice(n as u8)];
    let i = any_i32();
    if let Some(d) = Dir::from_int(i) {
        let f = any_u8() as u32;
        assume(f < s.frames.count() as u32);
        let dir_idx = match s.dirs {
            Dirs::One => 0,
            Dirs::Four => match d {
                Dir::South => 0,
                Dir::North => 1,
                Dir::East => 2,
                Dir::West => 3,
                // BYOND draws a diagonal the state lacks from one of the four it has
                _ => s.index_of_dir(d) - s.offset as u32,
            },
            Dirs::Eight => [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest]
                .iter()
                .position(|x| *x == d)
                .unwrap() as u32,
        };
        check("dir_index", dir_idx < s.dirs.count() as u32);
        let idx = s.index_of_frame(d, f);
        check("frame_index", idx == s.offset as u32 + f * s.dirs.count() as u32 + dir_idx);
        // the rectangle, on a sheet `across` icons wide
        let across = 1 + 2 * choice(2) as u32;
        let key = s.get_state_name_index();
        let r = m.rect_of(across * m.width + if across > 1 { m.width - 1 } else { 0 }, &key, d, f);
        check("rect", r == Some((idx % across * m.width, idx / across * m.height, m.width, m.height)));
        reach("sheet");
    }
    log(offset as u64);
}

/// Metadata from an arbitrary file: a result or an error, never a crash.
pub fn sheet_total() {
    let mut text = b"# BEGIN DMI\nversion = 4.0\n".to_vec();
    let lines = param(0) as usize;
    for _ in 0..lines {
        match choice(3) {
            0 => {
                // one of the known keys with a symbolic value
                text.extend(pick(&["width", "height", "dirs", "frames", "delay", "loop", "rewind", "movement", "hotspot", "state", "zzz"]).bytes());
                text.extend(b" = ");
                let n = choice(param(1) as u8 + 1);
                let v = self::text(n, b"0149,\"\\.-ax =\n");
                text.extend(v);
                text.push(b'\n');
            }
            1 => {
                text.extend(b"state = \"a\"\n");
            }
            _ => {
                let n = choice(param(1) as u8 + 1);
                let v = self::text(n, b" =\"\n#\ta0");
                text.extend(v);
                text.push(b'\n');
            }
        }
    }
    note(&text);
    let text = unsafe { std::str::from_utf8_unchecked(&text) };
    match Metadata::meta_from_str(text) {
        Ok(m) => {
            reach("ok");
            let mut sum = 0;
            for s in &m.states {
                check("offset", s.offset == sum);
                sum += s.num_sprites();
            }
            let _ = m.rect_of(32, &"a".into(), Dir::South, 0);
        }
        Err(_) => reach("err"),
    }
}
/// The first bytes of the description, unrestricted.
pub fn sheet_header() {
    let head = b"# BEGIN DMI\nversion = 4.0\nwidth = 1\n";
    let at = choice(head.len() as u8);
    let mut text = head.to_vec();
    let c = any_u8();
    assume(c < 128);
    text[at] = c;
    let text = unsafe { std::str::from_utf8_unchecked(&text) };
    let same = c == head[at];
    match Metadata::meta_from_str(text) {
        Ok(m) => {
            if same {
                check("header", m.width == 1);
            }
            reach("ok")
        }
        Err(_) => {
            check("header", !same);
            reach("err")
        }
    }
}

use crate::symx::text;

// ---------------------------------------------------------------------------- C06

fn px(b: [u8; 4]) -> Rgba8 {
    Rgba8::new(b[0], b[1], b[2], b[3])
}

/// Source-over on one pixel, by case over the two alphas (`param 0`: over a selection of them).
pub fn over() {
    let (s, sa, d, da) = (any_u8(), any_u8(), any_u8(), any_u8());
    if param(0) == 0 {
        let (p, q) = (sa & 0x3f, da & 0x0f);
        assume((p <= 1) | (p == 63));
        assume((q == 1) | (q == 15));
    }
    let sa = concrete(sa as u64) as u8;
    let da = concrete(da as u64) as u8;
    let mut src = Image::new_rgba(1, 1);
    let mut dst = Image::new_rgba(1, 1);
    src.data[(0, 0)] = px([s, 0, 255, sa]);
    dst.data[(0, 0)] = px([d, 255, 0, da]);
    dst.composite(&src, (0, 0), (0, 0, 1, 1), [255; 4]);
    let o = dst.data[(0, 0)];
    let (s, sa, d, da) = (s as u32, sa as u32, d as u32, da as u32);
    let rest = da * (255 - sa) / 255;
    let a = sa + rest;
    check("alpha", o.a as u32 == a);
    if a == 0 {
        check("clear", (o.r == 0) & (o.g == 0) & (o.b == 0));
        return;
    }
    // the weighted mean of two values lies between them
    let (lo, hi) = if s < d { (s, d) } else { (d, s) };
    check("between", (o.r as u32 >= lo) & (o.r as u32 <= hi));
    if sa == 255 {
        check("opaque", (o.r as u32 == s) & (o.g == 0) & (o.b == 255) & (o.a == 255));
        reach("opaque");
    }
    if sa == 0 {
        check("transparent", (o.r as u32 == d) & (o.g == 255) & (o.b == 0) & (o.a as u32 == da));
        reach("transparent");
    }
    reach("over");
}

/// The colour multiplies each channel of the source before it is drawn.
pub fn tint() {
    let s: [u8; 4] = any();
    let c: [u8; 4] = any();
    // opaque source and tint: the result is the tinted source
    let mut src = Image::new_rgba(1, 1);
    let mut dst = Image::new_rgba(1, 1);
    src.data[(0, 0)] = px([s[0], s[1], s[2], 255]);
    dst.data[(0, 0)] = px([1, 2, 3, 4]);
    dst.composite(&src, (0, 0), (0, 0, 1, 1), [c[0], c[1], c[2], 255]);
    let o = dst.data[(0, 0)];
    let m = |x: u8, y: u8| (x as u32 * y as u32) / 255;
    check("tint", (o.r as u32 == m(s[0], c[0])) & (o.a == 255));
    check("tint", o.g as u32 == m(s[1], c[1]));
    check("tint", o.b as u32 == m(s[2], c[2]));
    // alpha multiplies too
    let mut src = Image::new_rgba(1, 1);
    let mut dst = Image::new_rgba(1, 1);
    src.data[(0, 0)] = px([9, 9, 9, s[3]]);
    dst.composite(&src, (0, 0), (0, 0, 1, 1), [255, 255, 255, c[3]]);
    check("tint_alpha", dst.data[(0, 0)].a as u32 == m(s[3], c[3]));
    reach("tint");
}

/// Which pixels a draw touches, and from where they come.
pub fn blit() {
    let ((w, h), (sw, sh)) = [((3u32, 2u32), (2u32, 3u32)), ((2, 3), (3, 2))][choice(2)];
    let mut src = Image::new_rgba(sw, sh);
    let mut dst = Image::new_rgba(w, h);
    for i in 0..sw * sh {
        src.data.as_slice_mut().unwrap()[i as usize] = px([10 + i as u8, 0, 0, 255]);
    }
    for i in 0..w * h {
        dst.data.as_slice_mut().unwrap()[i as usize] = px([100 + i as u8, 0, 0, 255]);
    }
    let b: [u8; 6] = any();
    let (x, y, cx, cy, cw, ch) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32, b[4] as u32, b[5] as u32);
    assume((x < 4) & (y < 4) & (cx < 4) & (cy < 4) & (cw < 4) & (ch < 4));
    assume((x + cw <= w) & (y + ch <= h) & (cx + cw <= sw) & (cy + ch <= sh));
    dst.composite(&src, (x, y), (cx, cy, cw, ch), [255; 4]);
    for j in 0..h {
        for i in 0..w {
            let inside = (i >= x) & (i < x + cw) & (j >= y) & (j < y + ch);
            let got = dst.data.as_slice().unwrap()[(j * w + i) as usize];
            if inside {
                check("drawn", got == px([10 + ((cy + j - y) * sw + cx + i - x) as u8, 0, 0, 255]));
            } else {
                check("untouched", got == px([100 + (j * w + i) as u8, 0, 0, 255]));
            }
        }
    }
    reach("blit");
}

// ---------------------------------------------------------------------------- C33

/// Depth keys sort like the numbers they come from, by case over sign and exponent.
pub fn layer() {
    let mant = any_u32();
    assume(mant < 1 << 23);
    let e = any_u8();
    let neg = any_bool();
    // magnitudes below 2^15; `param 0`: the smallest exponent looked at (0 is the denormals)
    assume((e < 127 + 15) & (e as u64 >= param(0)));
    let e = concrete(e as u64) as u32;
    let neg = concrete(neg as u64) as u32;
    let f = f32::from_bits(neg << 31 | e << 23 | mant);
    let l = Layer::from(f);
    // the key's value is the number rounded down to a 65536th
    let raw: u32 = unsafe { std::mem::transmute(l) };
    let (whole, frac) = (raw as u16 as i16, (raw >> 16) as u16);
    // exact reference in integers: floor(f * 65536)
    let m = if e == 0 { mant } else { mant | 1 << 23 } as i64;
    let sh = (if e == 0 { 1 } else { e as i32 }) - 150 + 16;
    let scaled: i64 = if sh >= 0 {
        if neg == 1 { -(m << sh) } else { m << sh }
    } else {
        let k = (-sh).min(60) as u32;
        if neg == 1 { -((m + (1i64 << k) - 1) >> k) } else { m >> k }
    };
    let got = ((whole as i64) << 16) + frac as i64;
    // (computing in f32 may round a negative fraction up by one unit)
    check("value", (got == scaled) | ((neg == 1) & (got == scaled + 1)));
    // neighbouring numbers are in order, hence all numbers are
    let b = e << 23 | mant;
    if b + 1 == 142 << 23 {
        return; // 2^15 itself is out of range
    }
    let g = f32::from_bits(neg << 31 | (b + 1));
    let n = Layer::from(g);
    let raw: u32 = unsafe { std::mem::transmute(n) };
    let ngot = ((raw as u16 as i16 as i64) << 16) + (raw >> 16) as i64;
    check("monotone", if neg == 1 { ngot <= got } else { got <= ngot });
    check("compare", (n < l) == (ngot < got));
    reach("layer");
}
pub fn layer_whole() {
    let i = any_u16() as i16;
    check("whole", Layer::from(i as f32) == Layer::from(i) && Layer::from(i as i32) == Layer::from(i));
    let j = any_u16() as i16;
    check("whole_order", (Layer::from(i) < Layer::from(j)) == (i < j));
}
