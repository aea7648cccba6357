#[allow(unsafe_code)]
#[path = "../../harness/src/symx.rs"]
pub mod symx;

macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident = $module:ident :: $f:ident;)*) => {
        $(#[allow(unsafe_code)] #[unsafe(no_mangle)] pub extern "C" fn $name() { $module::$f() })*
        #[cfg(feature = "native")]
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($name), $module::$f as fn()),)*];
    };
}

#[path = "docs.rs"]
mod docs;
#[path = "colors.rs"]
mod colors;
#[path = "world.rs"]
mod world;
#[path = "names.rs"]
mod names;
mod places;

harnesses! {
    h_doc_edits = docs::edits;
    h_doc_positions = docs::positions;
    h_colors_hex = colors::find_hex;
    h_colors_rgb = colors::find_rgb;
    h_colors_format = colors::format;
    h_colors_present = colors::present;
    h_names_resolve = names::resolve;
    h_names_places = places::places;
}
