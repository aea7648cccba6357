//! Harnesses: each states one property over symbolic inputs and calls the real crates of /repo.
#![allow(clippy::all)]
pub mod symx;

macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident = $module:ident :: $f:ident;)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $name() { $module::$f() })*
        #[cfg(feature = "native")]
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($name), $module::$f as fn()),)*];
    };
}

mod config;
mod consts;
mod dmm;
mod flow;
mod itree;
mod lex;
mod lint;
mod rules;
mod docs;
mod overlay;
mod rules2;
mod doubt;
mod objtree;
mod parse;
mod parse2;
mod render;
mod pp;
mod tools;

harnesses! {
    h_itree_map = itree::map;
    h_dirs = tools::dirs;
    h_keys = tools::keys;
    h_coords = tools::coords;
    h_sheet = tools::sheet;
    h_sheet_total = tools::sheet_total;
    h_sheet_header = tools::sheet_header;
    h_over = tools::over;
    h_tint = tools::tint;
    h_blit = tools::blit;
    h_layer = tools::layer;
    h_layer_whole = tools::layer_whole;
    h_dmm_grid = dmm::grid;
    h_dmm_dict = dmm::dict;
    h_dmm_total = dmm::total;
    h_dmm_numbers = dmm::numbers;
    h_dmm_roundtrip = dmm::roundtrip;
    h_dmm_roundtrip_numbers = dmm::roundtrip_numbers;
    h_itree_deep = itree::deep;
    h_lex_any_bytes = lex::any_bytes;
    h_lex_pieces = lex::pieces;
    h_lex_ops = lex::ops;
    h_lex_ints = lex::ints;
    h_lex_big_ints = lex::big_ints;
    h_lex_floats = lex::floats;
    h_lex_words = lex::words;
    h_lex_colons = lex::colons;
    h_lex_strings = lex::strings;
    h_lex_comments = lex::comments;
    h_lex_blanks = lex::blanks;
    h_lex_endings = lex::endings;
    h_pp_outline = pp::outline;
    h_pp_balance = pp::balance;
    h_pp_conditions = pp::conditions;
    h_pp_macro_body = pp::macro_body;
    h_pp_macro_args = pp::macro_args;
    h_pp_macro_stack = pp::macro_stack;
    h_pp_history = pp::history;
    h_pp_include = pp::include;
    h_pp_anything = pp::anything;
    h_const_numbers = consts::numbers;
    h_const_kinds = consts::kinds;
    h_const_nested = consts::nested;
    h_const_rgb = consts::rgb;
    h_const_rgb_spaces = consts::rgb_spaces;
    h_const_rgb_any = consts::rgb_any;
    h_const_equality = consts::equality;
    h_const_equality_floats = consts::equality_floats;
    h_parse_ops = parse::ops;
    h_parse_units = parse::units;
    h_parse_arguments = parse::arguments;
    h_parse_forms = parse::forms;
    h_parse_statements = parse::statements;
    h_parse_anything = parse::anything;
    h_parse_decls = parse::decls;
    h_parse_slots = parse2::slots;
    h_parse_chains = parse2::chains;
    h_parse_heads = parse2::heads;
    h_parse_blocks = parse2::blocks;
    h_parse_operators = parse2::operators;
    h_parse_parameters = parse2::parameters;
    h_parse_variables = parse2::variables;
    h_parse_nested = parse2::nested;
    h_render_map = render::map;
    h_render_order = render::order;
    h_render_values = render::values;
    h_render_inherited = render::inherited;
    h_render_named_colors = render::named_colors;
    h_render_passes = render::passes;
    h_render_filters = render::filters;
    h_render_smooth = render::smooth;
    h_render_cables = render::cables;
    h_render_tubes = render::tubes;
    h_const_display = consts::display;
    h_const_evaluated = consts::evaluated;
    h_const_display_numbers = consts::display_numbers;
    h_const_display_text = consts::display_text;
    h_tree_types = objtree::types;
    h_tree_vars = objtree::vars;
    h_tree_procs = objtree::procs;
    h_tree_paths = objtree::paths;
    h_sleep_dispatch = lint::sleep_dispatch;
    h_flow_unreachable = flow::unreachable;
    h_access = rules2::access;
    h_overrides = rules2::overrides;
    h_settings = rules::settings;
    h_setting_values = rules::setting_values;
    h_config_levels = config::levels;
    h_config_total = config::total;
    h_config_causes = config::causes;
    h_return_types = rules2::return_types;
    h_static_types = rules2::static_types;
    h_places = rules2::places;
    h_spawns = rules2::spawns;
    h_pure_reach = rules2::pure_reach;
    h_kwargs = rules2::kwargs;
    h_pure_ops = rules::pure_ops;
    h_pure_calls = rules::pure_calls;
    h_pure_dispatch = rules::pure_dispatch;
    h_conditions = doubt::conditions;
    h_chains = doubt::chains;
    h_negated = doubt::negated;
    h_in_lhs = doubt::in_lhs;
    h_overloads = doubt::overloads;
    h_statements = doubt::statements;
    h_filters = doubt::filters;
    h_names = doubt::names;
    h_plain_names = doubt::plain_names;
    h_switch_halves = rules2::switch_halves;
    h_switch_rand = lint::switch_rand;
    h_sleep_settings = lint::sleep_settings;
    h_docs = docs::attach;
    h_doc_text = docs::text;
    h_overlays = overlay::overlays;
    h_machines = overlay::machines;
    h_spawners = overlay::spawners;
    h_sleep_exempt = lint::sleep_exempt;
}
